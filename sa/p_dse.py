"""P14: dead store elimination. The pass is abstractly interpreted on a family of blocks; for each, the instructions it drops must be
unobservable under a slot-definedness oracle: dropping an instruction leaves the slots it would have written undefined, and no undefined
slot may be read by a kept instruction (unless the compiler knows its value), be part of the stack at a suspension, or survive the block."""
import random

import cg
import evm
import mirlib as m
import par
import shapes
import teval
from mirlib import K, is_k, mk
from p_blocks import bytecode, const, cset, field, mkblock, shape_run, stack_io, top, undecided
from p_sections import flagset

CODE = {o.name: c for c, o in evm.OPS.items()}
SUSP = ("CALL", "CALLCODE", "DELEGATECALL", "STATICCALL", "CREATE", "CREATE2")
DIV = ("STOP", "RETURN", "REVERT", "INVALID", "SELFDESTRUCT")
# opcodes that read no mutable host state that can fail, charge nothing beyond their constant cost, and change nothing but the stack
UNOBSERVABLE = set("""ADD MUL SUB DIV SDIV MOD SMOD ADDMOD MULMOD SIGNEXTEND LT GT SLT SGT EQ ISZERO AND OR XOR NOT BYTE SHL SHR SAR CLZ
PC CODESIZE ADDRESS ORIGIN CALLER CALLVALUE CALLDATALOAD CALLDATASIZE GASPRICE RETURNDATASIZE COINBASE TIMESTAMP NUMBER DIFFICULTY PREVRANDAO
GASLIMIT CHAINID BASEFEE BLOBBASEFEE BLOBHASH SLOTNUM GAS MSIZE TLOAD JUMPDEST POP DUPN SWAPN EXCHANGE""".split()) | {f"DUP{i}" for i in range(1, 17)} | {f"SWAP{i}" for i in range(1, 17)} | {f"PUSH{i}" for i in range(33)}


def imm_byte(e, st, fr, a, site):
    v = e.peel(st, a[0])
    return v.a[4 + v.a[3].index("data")] if v.op == "adt" and "data" in v.a[3] else None


class Block:
    def __init__(self, ops, entry, known=(), inspect=False, flags=()):
        """ops: (opcode, imm, foldable); entry: number of entry slots; known: entry slots with a known constant."""
        self.ops, self.inspect, self.flags = ops, inspect, dict(flags)
        st = [("c", 900 + i) if i in known else "TS"[i % 3 == 0] for i in range(entry)]
        self.ins, self.outs, self.ok = [], [], True
        for c, imm, fold in ops:
            i, o = stack_io(c, imm)
            nm = evm.OPS[c].name
            if len(st) < i:
                self.ok = False
                return
            self.ins.append(st[len(st) - i:] if i else [])
            st = self.step(nm, imm, i, o, st, fold)
            self.outs.append(st[-1] if o and nm[:4] != "SWAP" and nm != "EXCHANGE" else None)

    @staticmethod
    def step(nm, imm, i, o, st, fold):
        st = list(st)
        if nm.startswith("PUSH"):
            return st + [("c", 5)]
        if nm == "POP":
            return st[:-1]
        d = evm.decode_single(imm) if nm in ("DUPN", "SWAPN") else None
        if nm.startswith("DUP"):
            return st + [st[-(d or int(nm[3:]))]]
        if nm.startswith("SWAP"):
            d = d or int(nm[4:])
            st[-1], st[-1 - d] = st[-1 - d], st[-1]
            return st
        if nm == "EXCHANGE":
            a, b = evm.decode_pair(imm)
            st[-1 - a], st[-1 - b] = st[-1 - b], st[-1 - a]
            return st
        args = st[len(st) - i:] if i else []
        st = st[:len(st) - i]
        return st + [("c", 77) if fold and nm in UNOBSERVABLE and i and all(isinstance(x, tuple) for x in args) else "T"] * o

    def key(self):
        return " ".join(evm.OPS[c].name + ("" if imm is None else f"#{imm:x}") for c, imm, _ in self.ops) + (" inspect" if self.inspect else "")


def oracle(B, noop, F, inspect):
    """None if dropping the instructions in noop is unobservable, else a description."""
    undef = [False] * 200
    base = 100
    h = base
    div = False
    susp = False
    for k, (c, imm, _) in enumerate(B.ops):
        nm = evm.OPS[c].name
        i, o = stack_io(c, imm)
        special = B.flags.get(k, 0) & (F["DISABLED"] | F["UNKNOWN"])
        if k in noop and special:
            return f"the failing instruction {nm} at {k} is dropped"
        if special:
            div = True
            break
        if k in noop:
            if nm not in UNOBSERVABLE:
                return f"{nm} at {k} has effects beyond the stack"
            if nm[:3] == "DUP":
                undef[h] = True
            elif nm[:4] == "SWAP":
                d = evm.decode_single(imm) if nm == "SWAPN" else int(nm[4:])
                undef[h - 1] = undef[h - 1 - d] = True
            elif nm == "EXCHANGE":
                a, b = evm.decode_pair(imm)
                undef[h - 1 - a] = undef[h - 1 - b] = True
            else:
                for q in range(o):
                    undef[h - i + q] = True
            h += o - i
            continue
        konst = [isinstance(x, tuple) for x in B.ins[k]]
        oc = B.outs[k] not in (None, "T", "S") and o > 0
        if nm[:3] == "DUP":
            d = evm.decode_single(imm) if nm == "DUPN" else int(nm[3:])
            undef[h] = undef[h - d] and not konst[i - d]
        elif nm[:4] == "SWAP":
            d = evm.decode_single(imm) if nm == "SWAPN" else int(nm[4:])
            undef[h - 1], undef[h - 1 - d] = undef[h - 1 - d], undef[h - 1]
        elif nm == "EXCHANGE":
            a, b = evm.decode_pair(imm)
            undef[h - 1 - a], undef[h - 1 - b] = undef[h - 1 - b], undef[h - 1 - a]
        elif nm == "POP":
            pass
        else:
            if not (oc and nm in UNOBSERVABLE):
                for q in range(i):
                    if undef[h - i + q] and not konst[q]:
                        return f"{nm} at {k} reads operand {i - 1 - q} that was never written"
            for q in range(o):
                undef[h - i + q] = False
        h += o - i
        if nm in SUSP:
            susp = True
            if any(undef[:h - (1 if o else 0)]):
                return f"the stack handed over by {nm} at {k} has unwritten slots"
        if nm in DIV:
            div = True
    if any(undef[:h]) and (not div or susp or inspect):
        return f"slots {[q - base for q in range(h) if undef[q]]} (relative to entry) are unwritten at the end of the block"
    return None


def family():
    rnd = random.Random(7)
    pool = "PUSH1 PUSH0 ADD ADD MUL ISZERO DUP1 DUP2 DUP3 SWAP1 SWAP2 SWAP3 POP POP MSTORE SSTORE SLOAD CALLDATALOAD MLOAD GAS EXP ADDMOD PC ADDRESS BALANCE KECCAK256 BLOCKHASH BLOBHASH LOG1 MSIZE SELFBALANCE DUPN SWAPN EXCHANGE RETURNDATASIZE TLOAD".split()
    terms = "STOP RETURN REVERT JUMP JUMPI ADD SELFDESTRUCT INVALID POP DUP1 SSTORE".split()
    out = []
    singles = sorted((x for x in range(256) if evm.decode_single(x) is not None), key=evm.decode_single)[:3]
    pairs = sorted((x for x in range(256) if evm.decode_pair(x) is not None), key=lambda x: max(evm.decode_pair(x)))[:6]

    def op(nm):
        imm = None
        if nm in ("DUPN", "SWAPN"):
            imm = rnd.choice(singles)
        if nm == "EXCHANGE":
            imm = rnd.choice(pairs)
        return (CODE[nm], imm, rnd.random() < 0.7)
    n = 0
    while len(out) < 2500:
        L = rnd.randint(1, 9)
        ops = [op(rnd.choice(pool)) for _ in range(L)]
        if rnd.random() < 0.15:
            ops.insert(rnd.randrange(len(ops) + 1), op(rnd.choice(("CALL", "STATICCALL", "CREATE", "CREATE2", "DELEGATECALL"))))
        ops.append(op(rnd.choice(terms)))
        need = 0
        d = 0
        for c, imm, _ in ops:
            i, o = stack_io(c, imm)
            need = max(need, i - d)
            d += o - i
        entry = need + rnd.choice((0, 0, 1))
        known = {x for x in range(entry) if rnd.random() < 0.3}
        B = Block(ops, need, known, inspect=rnd.random() < 0.2)
        if B.ok:
            out.append(B)
    for c in sorted(evm.OPS):  # every opcode, its result popped or lost at a stop
        nm = evm.OPS[c].name
        if nm in ("DUPN", "SWAPN", "EXCHANGE", "JUMP", "JUMPI") or nm in DIV:
            continue
        i, o = stack_io(c)
        for tail in (["POP"] * o + ["JUMP"], ["STOP"], ["POP"] * o + ["STOP"]):
            need, d = 0, 0
            ops = [(c, None, True)] + [(CODE[t], None, True) for t in tail]
            for cc, imm, _ in ops:
                a, b = stack_io(cc, imm)
                need = max(need, a - d)
                d += b - a
            for insp in (False, True):
                out.append(Block(ops, need, (), inspect=insp))
    return out


def dse(prog, rep):
    F = flagset(prog)
    fn = "Bytecode::dead_store_elim"
    INSP = cg.flag_bits(prog, "INSPECT_STACK", "AnalysisConfig")

    def av(x):
        return top(prog) if x == "T" else cset(prog, 8) if x == "S" else const(prog, x[1])

    def one(rep, Bs):
        insts, blocks, i2b, ins, outs = [], [], [], [], []
        for bi, B in enumerate(Bs):
            a = len(insts)
            insts += [cg.inst(prog, c, B.flags.get(k, 0), data=K(imm or 0), stack_io=mk("tuple", *[K(x) for x in stack_io(c, imm)])) for k, (c, imm, _) in enumerate(B.ops)]
            blocks.append(mkblock(prog, a, len(insts)))
            i2b += [m.some(K(bi))] * len(B.ops)
            ins += [mk("array", *[av(x) for x in q]) for q in B.ins]
            outs += [shapes.none() if q is None else m.some(av(q)) for q in B.outs]
        inspect = Bs[0].inspect
        selfv = bytecode(prog, insts, blocks, i2b, ins, outs, config=cg.flags_term(prog, INSP if inspect else 0, "AnalysisConfig"))
        key = " | ".join(B.key() for B in Bs)
        try:
            h, b = shape_run(prog, fn, selfv, {}, calls={"InstData::imm_byte": imm_byte}, max_steps=400000)
        except m.Limit as u:
            return undecided(rep, "store removal", f"{key}: {u}", prog.fn(fn).span)
        rep.check(len(h.res) > 0, "store removal", key, f"no result for {key}", b.span)
        for r in h.res:
            try:
                fl = [cg.bits_of(field(x, "flags")) for x in field(r[3]["self"], "insts").a]
            except (teval.Unk, AttributeError) as u:
                return undecided(rep, "store removal", f"{key}: {u}", b.span)
            if any(x is None for x in fl):
                return undecided(rep, "store removal", f"{key}: flags not decided", b.span)
            a = 0
            for B in Bs:
                n = len(B.ops)
                f = fl[a:a + n]
                a += n
                noop = {k for k in range(n) if f[k] & F["NOOP"]}
                why = oracle(B, noop, F, inspect)
                rep.check(why is None, "dropped stores are unobservable", key, f"in the block `{B.key()}` the instructions {sorted(noop)} are dropped: {why}", b.span)
                rep.check(all((f[k] & ~F["NOOP"]) == B.flags.get(k, 0) for k in range(n)), "only the drop mark is set", key, f"flags become {f}", b.span)
                rep.count("dropped instructions", len(noop))
    fam = family()
    rep.floor("blocks", len(fam), 2500)
    # instructions that fail at run time are never dropped
    for c, imm, _ in [(CODE["ADD"], None, True), (CODE["PUSH1"], None, True)]:
        for flag in ("DISABLED", "UNKNOWN"):
            ops = [(c, imm, True), (CODE["POP"], None, True), (CODE["STOP"], None, True)]
            fam.append(Block(ops, 2, (), flags={0: F[flag]}))
    par.pmap(rep, one, [[B] for B in fam])
    rnd = random.Random(11)
    par.pmap(rep, one, [rnd.sample(fam, rnd.randint(2, 4)) for _ in range(250)])
    # immediates that do not decode fail at run time, so they are never dropped
    bad = [x for x in range(256) if evm.decode_single(x) is None][:2]
    badp = [x for x in range(256) if evm.decode_pair(x) is None][:2]

    def inv(rep, it):
        c, imm = it
        nm = evm.OPS[c].name
        insts = [cg.inst(prog, CODE["ADDRESS"], 0, data=K(0), stack_io=mk("tuple", K(0), K(1))), cg.inst(prog, c, 0, data=K(imm), stack_io=mk("tuple", K(0), K(0))), cg.inst(prog, CODE["STOP"], 0, data=K(0), stack_io=mk("tuple", K(0), K(0)))]
        selfv = bytecode(prog, insts, [mkblock(prog, 0, 3)], [m.some(K(0))] * 3, [mk("array")] * 3, [shapes.none()] * 3, config=cg.flags_term(prog, 0, "AnalysisConfig"))
        try:
            h, b = shape_run(prog, fn, selfv, {}, calls={"InstData::imm_byte": imm_byte}, max_steps=200000)
        except m.Limit as u:
            return undecided(rep, "store removal", u, prog.fn(fn).span)
        for r in h.res:
            fl = cg.bits_of(field(field(r[3]["self"], "insts").a[1], "flags"))
            rep.check(fl is not None and not fl & F["NOOP"], "failing immediates are kept", f"{nm}", f"{nm} with the invalid immediate {imm:#x} is dropped", b.span)
    par.pmap(rep, inv, [(CODE[n], x) for n, xs in (("DUPN", bad), ("SWAPN", bad), ("EXCHANGE", badp)) for x in xs])
