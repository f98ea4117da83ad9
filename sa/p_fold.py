"""Constant folding: the folded value of every opcode equals the EVM's result for all operand values on the boundary grid, and nothing unknown is folded."""
import itertools

import cg
import evm
import mirlib as m
import par
import shapes
import teval
from p_sections import Ev, idx_models, name
from teval import U, sdiv, sgn, smod, uns
from terms import FALSE, K, TRUE, UNIT, is_k, mk, show, subterms

M = (1 << 256) - 1


def signext(a, b):
    if a >= 31:
        return b
    bit = 8 * a + 7
    mask = (1 << (bit + 1)) - 1
    return uns(b | ~mask) if b >> bit & 1 else b & mask


def sar(a, b):
    return uns(sgn(b) >> min(a, 256))


REF = {
    "ADD": lambda a, b: uns(a + b), "MUL": lambda a, b: uns(a * b), "SUB": lambda a, b: uns(a - b), "DIV": lambda a, b: a // b if b else 0,
    "SDIV": sdiv, "MOD": lambda a, b: a % b if b else 0, "SMOD": smod, "EXP": lambda a, b: pow(a, b, 1 << 256), "SIGNEXTEND": signext,
    "LT": lambda a, b: int(a < b), "GT": lambda a, b: int(a > b), "SLT": lambda a, b: int(sgn(a) < sgn(b)), "SGT": lambda a, b: int(sgn(a) > sgn(b)),
    "EQ": lambda a, b: int(a == b), "AND": lambda a, b: a & b, "OR": lambda a, b: a | b, "XOR": lambda a, b: a ^ b,
    "BYTE": lambda a, b: (b >> (8 * (31 - a))) & 255 if a < 32 else 0, "SHL": lambda a, b: uns(b << a) if a < 256 else 0, "SHR": lambda a, b: b >> a if a < 256 else 0, "SAR": sar,
    "ISZERO": lambda a: int(a == 0), "NOT": lambda a: uns(~a), "CLZ": lambda a: 256 - a.bit_length(),
    "ADDMOD": lambda a, b, n: (a + b) % n if n else 0, "MULMOD": lambda a, b, n: (a * b) % n if n else 0,
}
GRID = [0, 1, 2, 3, 5, 7, 8, 9, 30, 31, 32, 33, 127, 128, 255, 256, 257, 0x8000, 0xFFFF, 2**31, 2**32 - 1, 2**32, 2**63, 2**64 - 1, 2**64, 2**64 + 1, 2**64 + 3, 2**127, 2**128, 2**128 + 31,
        2**248, 2**254, 2**255 - 1, 2**255, 2**255 + 1, M - 255, M - 7, M - 1, M, int("80" * 32, 16), int("7f" * 32, 16), 0x0123456789ABCDEF << 100]
SMALL = [0, 1, 2, 3, 5, 8, 31, 32, 2**64, 2**128, 2**255, 2**255 + 1, M - 1, M, 0x0123456789ABCDEF << 100]


def absv(prog, kind, v=None):
    p = cg.path_of(prog, "AbsValue")
    return prog.enum(p, kind, (v,) if v is not None else ())


def summary(prog, c, inputs, fn="try_const_fold"):
    b = prog.fn(f"const_fold::{fn}")
    calls = shapes.merge(idx_models(prog), shapes.vec_calls())
    calls["U256Imm::get"] = lambda e, st, fr, a, site: e.peel(st, a[0])
    calls["U256Imm::new"] = lambda e, st, fr, a, site: mk("immv", e.snap(st, a[0]))
    inst = cg.ref(cg.inst(prog, c, 0, data=mk("sym", "data")))
    ins = cg.ref(mk("array", *inputs))
    args = {1: inst, 2: ins, 3: mk("sym", "interner"), 4: mk("sym", "code_len")} if fn == "try_const_fold" else {1: K(c), 2: ins, 3: mk("sym", "interner")}
    h = Ev(calls, models=shapes.Iters().models())
    e = m.Engine(prog, h, max_part=2000, max_steps=60000)
    e.run(b, args=args, flags=())
    return h.res, b


def folded(v):
    """The folded word term of a returned Option<AbsValue>, or None."""
    if v.op == "adt" and v.a[2] == "None":
        return None
    if v.op == "adt" and v.a[2] == "Some":
        x = v.a[4]
        if x.op == "adt" and x.a[2] == "Const" and x.a[4].op == "immv":
            return x.a[4].a[0]
    return "?"


def fold(prog, rep):
    def one(rep, c):
        nm = name(c)
        n = evm.OPS[c].i if c in evm.OPS and evm.OPS[c].i is not None else 0
        syms = [mk("sym", x) for x in "abc"[:min(n, 3)]]   # a is the top of the stack
        n = len(syms)
        ins = [absv(prog, "Const", s) for s in reversed(syms)]
        res, b = summary(prog, c, ins)
        rep.check(len(res) > 0, "folding paths", nm, "no path through constant folding", b.span)
        ref = REF.get(nm)
        if nm == "CODESIZE":
            ref = lambda: 1234
        if nm == "PC":
            ref = lambda: 77
        grids = {0: [()], 1: [(x,) for x in GRID], 2: list(itertools.product(GRID, GRID)), 3: list(itertools.product(SMALL, repeat=3))}[n]
        if nm == "EXP":
            grids = [g for g in grids if g[1] < 2**20 or g[0] < 4 or True]
        for g in grids:
            env = {s: U(v) for s, v in zip(syms, g)}
            env[mk("sym", "code_len")] = 1234
            env[mk("sym", "data")] = 77
            got = []
            for r in res:
                ev = teval.Evaluator(env)
                try:
                    if not teval.holds(ev, r[0]):
                        continue
                    f = folded(r[1])
                    if f == "?":
                        raise teval.Unk(show(r[1])[:100])
                    got.append(None if f is None else int(ev.ev(f)))
                except teval.Unk as u:
                    rep.violation(f"fold:{nm}:undecided", f"folding {nm} could not be evaluated: {u}", b.span)
                    return
            ok = len(got) >= 1 and all(x is None or (ref is not None and x == ref(*g)) for x in got)
            if not rep.check(ok, "folded value", nm, f"{nm}{tuple(hex(x) for x in g)} folds to {[hex(x) if x is not None else None for x in got]}, "
                             f"expected {hex(ref(*g)) if ref else 'no folding'}", b.span):
                return
        if ref is not None:
            got = [folded(r[1]) for r in res]
            rep.count("foldable opcodes", int(any(x is not None for x in got)))
        # an unknown operand is never folded
        for i in range(n):
            for kind in ("Top", "ConstSet"):
                x = list(ins)
                x[n - 1 - i] = absv(prog, kind, mk("sym", "set") if kind == "ConstSet" else None)
                r2, _ = summary(prog, c, x)
                rep.check(all(folded(r[1]) is None for r in r2) and r2, "unknown operands are not folded", f"{nm}:{i}:{kind}",
                          f"{nm} is folded although operand {i} is {kind}", b.span)
        # compiler gas
        gr, gb = summary(prog, c, ins, "const_fold_gas")
        for g in ([(x, y) for x in (1, M) for y in GRID] if nm == "EXP" else [tuple([5] * n)]):
            env = {s: U(v) for s, v in zip(syms, g)}
            vals = []
            for r in gr:
                ev = teval.Evaluator(env)
                try:
                    if teval.holds(ev, r[0]):
                        vals.append(ev.ev(r[1]))
                except teval.Unk as u:
                    rep.violation(f"foldgas:{nm}:undecided", f"the folding budget of {nm} could not be evaluated: {u}", gb.span)
                    return
            if ref is None:
                continue
            if nm == "EXP":
                want = 10 + 50 * ((g[1].bit_length() + 7) // 8)
                rep.check(vals == [teval.Some(want)], "folding budget", f"{nm}", f"folding {nm} with exponent {g[1]:#x} is budgeted {vals}, expected {want}", gb.span)
            else:
                rep.check(len(vals) == 1 and (vals[0] is None or vals[0].v > 0), "folding budget", nm, f"folding {nm} is budgeted {vals}", gb.span)
    par.pmap(rep, one, range(256))
    rep.floor("foldable opcodes", rep.counts.get("foldable opcodes", 0), 24)
    intern(prog, rep)


def intern(prog, rep):
    """An interned word reads back as the same word (inline and table representation)."""
    bn, bg = prog.fn("U256Imm::new"), prog.fn("U256Imm::get")
    V = mk("sym", "v")
    IDX = mk("sym", "idx")

    def calls():
        c = idx_models(prog)
        c["Interner::intern"] = lambda e, st, fr, a, site: mk("internidx", e.snap(st, a[1]))
        c["Interner::get"] = lambda e, st, fr, a, site: mk("interned", shapes.norm_idx(e, st, a[1]))
        return c
    h = Ev(calls())
    m.Engine(prog, h).run(bn, args={1: V}, flags=())
    rep.check(len(h.res) > 0, "interning", "new", "no path", bn.span)
    for f, v, fl, fin in h.res:
        # read back
        h2 = Ev(calls())
        m.Engine(prog, h2).run(bg, args={1: v}, flags=())
        for x in GRID + [2**31 - 1, 2**31 + 1]:
            for idx in (0, 1, 5, 2**31 - 1):
                env = {V: U(x), mk("internidx", V): idx, mk("interned", K(idx)): U(x)}

                def dyn(t):
                    if t.op == "interned":
                        try:
                            i = ev.ev(t.a[0])
                        except teval.Unk:
                            return None
                        return U(x) if i == idx else U(x ^ 1)
                    return None
                ev = teval.Evaluator(env, dyn=dyn)
                try:
                    if not teval.holds(ev, f):
                        continue
                    got = []
                    for r in h2.res:
                        ev2 = teval.Evaluator(env, dyn=lambda t: dyn(t))
                        if teval.holds(ev2, r[0]):
                            got.append(int(ev2.ev(r[1])))
                    rep.check(got == [x], "interned words read back", f"{x:#x}"[:12], f"the word {x:#x} (table index {idx}) reads back as {got}", bn.span)
                except teval.Unk as u:
                    rep.violation("intern:undecided", f"word interning could not be evaluated: {u}", bn.span)
                    return
