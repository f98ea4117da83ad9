"""P27: the translator. FunctionCx::translate is abstractly interpreted on a family of analysed programs with the backend's builder replaced by a
recorder; the recorded code is a small control-flow graph over builder operations. For each stack section of the program that graph is executed over
provenance terms from an arbitrary state (any stack length, contents, gas, memory) and every exit is compared with the EVM's meaning of the section."""
import itertools

import cg
import evm
import mirlib as m
import par
import shapes
import teval
from mirlib import K, is_k, mk
from p_blocks import bytecode, const, field, set_calls, shape_calls, stack_io, top, undecided
from p_fold import GRID, REF, SMALL
from p_sections import Ev, flagset
from terms import UNIT, show, subterms

CODE = {o.name: c for c, o in evm.OPS.items()}
BLD, BIN, BC = mk("sym", "bld"), mk("D", mk("sym", "builtins")), mk("D", mk("sym", "bytecode"))
ISIZE, PTR = mk("ty", "int", 64), mk("ty", "ptr", 64)


def emit(st, *ev):
    st.flags = st.flags + (ev,)
    return mk("v", len(st.flags) - 1)


class Bad(Exception):
    """The recorded code is not a program."""


def builder_calls(prog):
    c = {}

    def val(e, st, x):
        return e.snap(st, e.peel(st, x))

    def simple(nm, ret=True):
        def f(e, st, fr, a, site):
            v = emit(st, nm, *[val(e, st, x) for x in a[1:]])
            return v if ret else UNIT
        c["Builder::" + nm] = f
    for nm in """icmp icmp_imm is_null is_not_null select iadd isub imul udiv sdiv urem srem iadd_imm isub_imm imul_imm uadd_sat umax umin bswap bitor bitand bitxor bitnot clz
            bitor_imm bitand_imm bitxor_imm ishl ushr sshr zext sext ireduce inttoptr gep phi fn_param bool_const iconst uconst iconst_256 nullptr
            new_stack_slot_raw stack_load stack_addr load load_aligned str_const""".split():
        simple(nm)
    for nm in """switch_to_block stack_store store store_aligned nop ret br brif switch memcpy unreachable assume""".split():
        simple(nm, False)
    for nm in """seal_block seal_all_blocks set_current_block_cold add_comment_to_current_inst set_debug_location clear_debug_location add_function_attribute""".split():
        c["Builder::" + nm] = lambda e, st, fr, a, site: UNIT

    def blk(e, st, fr, a, site):
        v = emit(st, "block")
        return mk("bb", v.a[0])
    c["Builder::create_block"] = c["Builder::create_block_after"] = blk

    def cur(e, st, fr, a, site):
        for k in range(len(st.flags) - 1, -1, -1):
            if st.flags[k][0] == "switch_to_block":
                return m.some(st.flags[k][1])
        return m.some(mk("bb", -1))
    c["Builder::current_block"] = cur

    def over(nm):
        def f(e, st, fr, a, site):
            v = emit(st, nm, *[val(e, st, x) for x in a[1:]])
            return mk("tuple", v, mk("ovf", v))
        c["Builder::" + nm] = f
    over("uadd_overflow")
    over("usub_overflow")
    c["Builder::brif_cold"] = lambda e, st, fr, a, site: (emit(st, "brif", *[val(e, st, x) for x in a[1:4]]), UNIT)[1]
    c["Builder::memcpy_inline"] = lambda e, st, fr, a, site: (emit(st, "memcpy", *[val(e, st, x) for x in a[1:4]]), UNIT)[1]

    def call(e, st, fr, a, site):
        return m.some(emit(st, "call", val(e, st, a[1]), val(e, st, a[2])))
    c["Builder::call"] = c["Builder::tail_call"] = call
    ty = {"type_ptr": lambda x: PTR, "type_ptr_sized_int": lambda x: ISIZE, "type_int": lambda x: mk("ty", "int", x[0].a[0]), "type_array": lambda x: mk("ty", "array", *x)}
    for nm, f in ty.items():
        c["TypeMethods::" + nm] = (lambda f: lambda e, st, fr, a, site: f([val(e, st, x) for x in a[1:]]))(f)
    c["TypeMethods::type_bit_width"] = lambda e, st, fr, a, site: K(val(e, st, a[1]).a[1])
    c["Builtins::get"] = lambda e, st, fr, a, site: mk("bf", val(e, st, a[1]).a[2])
    c["Bytecode::codesize"] = lambda e, st, fr, a, site: K(777)
    def uint(name, f):
        def g(e, st, fr, a, site):
            v = val(e, st, a[0])
            return K(f(v.a[0])) if is_k(v) else None
        c["Uint::" + name] = g
    uint("is_power_of_two", lambda v: int(v > 0 and v & (v - 1) == 0))
    uint("trailing_zeros", lambda v: 256 if v == 0 else (v & -v).bit_length() - 1)
    uint("leading_zeros", lambda v: 256 - v.bit_length())
    uint("bit_len", lambda v: v.bit_length())
    uint("is_zero", lambda v: int(v == 0))

    def div_ceil(e, st, fr, a, site):
        x, y = val(e, st, a[0]), val(e, st, a[1])
        return K(-(-x.a[0] // y.a[0])) if is_k(x) and is_k(y) and y.a[0] > 0 else None
    c["int::div_ceil"] = div_ceil

    def widen(e, st, fr, a, site):
        v = e.peel(st, a[0])
        return v if is_k(v) else None
    c["From::from"] = c["Into::into"] = c["Uint::from"] = widen

    c["U256Imm::get"] = c["U256Imm::get_inline"] = lambda e, st, fr, a, site: val(e, st, a[0])
    c["FunctionCx::translate_inst"] = lambda e, st, fr, a, site: (emit(st, "inst", shapes.norm_idx(e, st, a[1])), None)[1]
    return c


def imm_byte(e, st, fr, a, site):
    v = e.peel(st, a[0])
    return v.a[4 + v.a[3].index("data")] if v.op == "adt" and "data" in v.a[3] else None


class I:
    """One instruction of a program: opcode, flags by name, data, section costs, constants known for its operands (top first) and its result."""

    def __init__(self, nm, flags=(), data=0, gas=0, head=None, ins=(), out=None, mem=(0, 0, 0), io=None):
        self.nm, self.flags, self.data, self.gas, self.head, self.ins, self.out, self.mem = nm, flags, data, gas, head, ins, out, mem
        self.io = io or stack_io(CODE[nm], data)
        acc = MEMARGS.get(nm, ())
        cs = list(ins) + [None] * 8
        known = lambda v: v is not None and v >> 64 == 0
        self.memconst = bool(acc) and all(known(cs[o]) and (n is None or known(cs[n])) for o, n in acc)
        if self.memconst and not any(mem):
            size = lambda o, n: 0 if n is not None and cs[n] == 0 else -(-(cs[o] + (cs[n] if n is not None else 1 if nm == "MSTORE8" else 32)) // 32) * 32
            self.mem = (0, min(max(size(o, n) for o, n in acc), (1 << 64) - 1), 0)

    def __repr__(self):
        cs = "".join(f" {'_' if c is None else hex(c)}" for c in self.ins)
        fl = "".join("/" + f for f in self.flags)
        return self.nm + fl + ("!" if self.head is not None else "") + (f"({cs.strip()})" if any(c is not None for c in self.ins) else "") + (f"={self.out:#x}" if self.out is not None else "") + (f"${self.gas}" if self.gas else "") + (f"@{self.mem}" if any(self.mem) else "") + (f"#{self.data}" if self.data else "")


def build(prog, F, p, multi=(), redirects=(), dyn=False, susp=None):
    insts, ins, outs, mems = [], [], [], []
    MS, GS, SS = (cg.path_of(prog, x) for x in ("MemorySection", "GasSection", "StackSection"))
    for x in p:
        bits = 0
        for f in x.flags:
            bits |= F[f]
        if x.head is not None:
            bits |= F["STACK_SECTION_HEAD"]
        hi, hg = x.head or (0, 0)
        insts.append(cg.inst(prog, CODE[x.nm], bits, data=K(x.data), stack_io=mk("tuple", K(x.io[0]), K(x.io[1])), gas_section=cg.struct(prog, GS, gas_cost=K(x.gas)),
                             stack_section=cg.struct(prog, SS, inputs=K(hi), max_growth=K(hg))))
        n = x.io[0]
        cs = list(x.ins) + [None] * (n - len(x.ins))
        ins.append(mk("array", *[top(prog) if v is None else const(prog, v) for v in reversed(cs)]))
        outs.append(m.some(const(prog, x.out)) if x.out is not None else shapes.none() if not x.io[1] else m.some(top(prog)))
        mems.append(cg.struct(prog, MS, known_size=K(x.mem[0]), required_size=K(x.mem[1]), direct_resize_size=K(x.mem[2])))
    if susp is None:
        susp = any(x.nm in SUSP for x in p)
    return bytecode(prog, insts, [], [], ins, outs, multi=[y for k, v in multi for y in (K(k), mk("array", *[K(t) for t in v]))],
                    redirects=[y for k, v in redirects for y in (K(k), K(v))], memory_sections=mk("array", *mems), spec_id=prog.enum(cg.path_of(prog, "SpecId"), SPEC, ()), has_dynamic_jumps=K(int(dyn)), may_suspend=K(int(susp)))


# operand positions of (offset, length) of each memory access; length None: a word or byte
MEMARGS = {"KECCAK256": ((0, 1),), "CALLDATACOPY": ((0, 2),), "CODECOPY": ((0, 2),), "EXTCODECOPY": ((1, 3),), "RETURNDATACOPY": ((0, 2),), "MLOAD": ((0, None),), "MSTORE": ((0, None),),
           "MSTORE8": ((0, None),), "MCOPY": ((0, 2), (1, 2)), "LOG0": ((0, 1),), "LOG1": ((0, 1),), "LOG2": ((0, 1),), "LOG3": ((0, 1),), "LOG4": ((0, 1),), "CREATE": ((1, 2),), "CREATE2": ((1, 2),),
           "CALL": ((3, 4), (5, 6)), "CALLCODE": ((3, 4), (5, 6)), "DELEGATECALL": ((2, 3), (4, 5)), "STATICCALL": ((2, 3), (4, 5)), "RETURN": ((0, 1),), "REVERT": ((0, 1),)}
SPEC = "CANCUN"
SUSP = ("CALL", "CALLCODE", "DELEGATECALL", "STATICCALL", "CREATE", "CREATE2")


def config(prog, **kw):
    d = dict(comments=0, debug_assertions=0, frame_pointers=0, debug=0, inspect_stack=0, stack_bound_checks=1, gas_metering=1, single_error=1)
    d.update(kw)
    return cg.struct(prog, cg.path_of(prog, "FcxConfig"), **{k: K(int(v)) for k, v in d.items()})


def record(prog, F, cfgv, bc, max_steps=400000):
    b = prog.fn("FunctionCx::translate")
    calls = shapes.merge(builder_calls(prog), {"InstData::imm_byte": imm_byte}, shape_calls(prog))
    calls = {k: v for k, v in calls.items() if v is not None}
    h = Ev(calls, models=shapes.Iters().models())
    e = m.Engine(prog, h, max_part=400, max_steps=max_steps, exact=True)
    e.run(b, args={1: BLD, 2: cfgv, 3: mk("ref", BIN, (), "mut"), 4: mk("ref", BC, (), "shr")}, flags=(), env={BC: bc})
    return h, e, b


# ------------------------------------------------------------------------------------------------ terms of generated code
# Terms denote unsigned integers. leaf(name, bits): unknown; lin(k): section start length + k; gas(n, k): gas after the n-th effect minus k;
# b(op, width, x, y), u(op, width, x), tr(width, x), sx(from, to, x), sel(c, x, y), cmp(cc, width, x, y), evm(op, operands...).
W256 = 1 << 256
DIRECT = {"iadd": "ADD", "imul": "MUL", "isub": "SUB", "bitand": "AND", "bitor": "OR", "bitxor": "XOR"}
CC = {"Equal": "eq", "NotEqual": "ne", "UnsignedLessThan": "ult", "UnsignedLessThanOrEqual": "ule", "UnsignedGreaterThan": "ugt", "UnsignedGreaterThanOrEqual": "uge",
      "SignedLessThan": "slt", "SignedLessThanOrEqual": "sle", "SignedGreaterThan": "sgt", "SignedGreaterThanOrEqual": "sge"}
POISON = None


def leaf(n, bits=256):
    return mk("leaf", n, bits)


def sg(x, w):
    return x - (1 << w) if x >> (w - 1) else x


def binop(op, w, x, y):
    M = (1 << w) - 1
    if x is POISON or y is POISON:
        return POISON
    if op == "iadd":
        return (x + y) & M
    if op == "isub":
        return (x - y) & M
    if op == "imul":
        return (x * y) & M
    if op == "bitand":
        return x & y
    if op == "bitor":
        return x | y
    if op == "bitxor":
        return x ^ y
    if op in ("udiv", "urem", "sdiv", "srem"):
        if y == 0:
            return POISON
        if op == "udiv":
            return x // y
        if op == "urem":
            return x % y
        a, b = sg(x, w), sg(y, w)
        if op == "sdiv" and b == -1 and x == 1 << (w - 1):
            return POISON
        q = abs(a) // abs(b)
        q = q if (a < 0) == (b < 0) else -q
        return (q if op == "sdiv" else a - q * b) & M
    if op in ("ishl", "ushr", "sshr"):
        if y >= w:
            return POISON
        return (x << y) & M if op == "ishl" else x >> y if op == "ushr" else (sg(x, w) >> y) & M
    if op == "umax":
        return max(x, y)
    if op == "umin":
        return min(x, y)
    if op == "uadd_sat":
        return min(x + y, M)
    raise Bad(f"operation {op}")


def cmpop(cc, w, x, y):
    if x is POISON or y is POISON:
        return POISON
    if cc[0] == "s":
        x, y = sg(x, w), sg(y, w)
        cc = "u" + cc[1:]
    return int({"eq": x == y, "ne": x != y, "ult": x < y, "ule": x <= y, "ugt": x > y, "uge": x >= y}[cc])


def bswap(w, x):
    return int.from_bytes(x.to_bytes(w // 8, "big"), "little")


def ev(t, env, memo):
    r = memo.get(t, memo)
    if r is not memo:
        return r
    o, a = t.op, t.a
    if o == "k":
        r = a[0]
    elif o == "b":
        r = binop(a[0], a[1], ev(a[2], env, memo), ev(a[3], env, memo))
    elif o == "evm":
        xs = [ev(x, env, memo) for x in a[1:]]
        r = POISON if POISON in xs else REF[a[0]](*xs)
    elif o == "cmp":
        r = cmpop(a[0], a[1], ev(a[2], env, memo), ev(a[3], env, memo))
    elif o == "sel":
        c = ev(a[0], env, memo)
        r = POISON if c is POISON else ev(a[1] if c else a[2], env, memo)
    elif o == "tr":
        x = ev(a[1], env, memo)
        r = x if x is POISON else x & ((1 << a[0]) - 1)
    elif o == "sx":
        x = ev(a[2], env, memo)
        r = x if x is POISON else sg(x, a[0]) & ((1 << a[1]) - 1)
    elif o == "u":
        x = ev(a[2], env, memo)
        r = x if x is POISON else bswap(a[1], x) if a[0] == "bswap" else ~x & ((1 << a[1]) - 1) if a[0] == "bitnot" else a[1] - x.bit_length()
    elif o == "sat":
        x = ev(a[1], env, memo)
        r = x if x is POISON else min(x, (1 << a[0]) - 1)
    else:
        r = env[t]
    memo[t] = r
    return r


LEAF = ("leaf", "lin", "gas", "p", "mld")


def bits(t):
    return t.a[1] if t.op == "leaf" else 256 if t.op == "mld" else 64


def tleaves(t, acc):
    if t.op in LEAF:
        acc.add(t)
    else:
        for x in t.a:
            if x.__class__ is type(t):
                tleaves(x, acc)
    return acc


_same = {}


def same(x, y):
    """Whether two terms denote the same value: identical, or equal for all boundary values of their unknowns."""
    if x is y:
        return True
    if x is None or y is None:
        return False
    k = (x, y)
    r = _same.get(k)
    if r is None:
        r = _same[k] = _cmp(x, y)
    return r


def _cmp(x, y):
    try:
        ls = sorted(tleaves(x, set()) | tleaves(y, set()), key=lambda t: t.id)
        if any(t.op == "p" for t in ls) or tleaves(x, set()) != tleaves(y, set()) and not ls:
            return False
        n = len(ls)
        if n <= 2:
            it = itertools.product(GRID, repeat=n)
        elif n == 3:
            it = itertools.product(SMALL, repeat=3)
        else:
            import random
            rnd = random.Random(5)
            it = ([rnd.choice(GRID) for _ in ls] for _ in range(1500))
        for vs in it:
            env = {t: v & ((1 << bits(t)) - 1) for t, v in zip(ls, vs)}
            p, q = ev(x, env, {}), ev(y, env, {})
            if p is POISON or q is POISON or p != q:
                return False
        return True
    except (KeyError, TypeError):
        return False


# ------------------------------------------------------------------------------------------------ executing recorded code
class Code:
    """The recorded program: instructions per block and the block of every EVM instruction."""

    def __init__(self, events):
        self.blocks, self.entry = {-1: []}, {}
        cur, pend = -1, None
        for n, ev_ in enumerate(events):
            if ev_[0] == "block":
                self.blocks.setdefault(n, [])
            elif ev_[0] == "inst":
                pend = ev_[1].a[0]
            elif ev_[0] == "switch_to_block":
                cur = ev_[1].a[0]
                if pend is not None:
                    self.entry[pend] = cur
                    pend = None
            elif ev_[0] not in ("store_",):
                self.blocks[cur].append((n, ev_))
        self.at = {b: i for i, b in self.entry.items()}


class Fork(Exception):
    pass


def fields_of(prog):
    """Byte offset -> (name, size) of the scalar fields of the context and input structures, from their layouts."""
    def flat(l, base, pre, out):
        for f in (l or {}).get("fields", []):
            n, o = pre + f["name"], base + f["off"]
            sub = f.get("layout") or {}
            out.setdefault(o, []).append((n, sub.get("size")))
            if sub.get("fields"):
                flat(sub, o, n + ".", out)
            if f["ty"].startswith("&") and f["ty"].endswith("[u8]"):
                out.setdefault(o + 8, []).append((n + ".len", 8))
        return out
    r = {}
    for nm, key in (("ecx", "EvmContext"), ("input", "InputsImpl")):
        l = next((v for k, v in prog.layouts.items() if k.split("<")[0].endswith("::" + key) and v and v.get("fields")), None)
        if l is None:
            raise m.Missing(f"layout of {key}")
        r[nm] = flat(l, 0, "", {})
    return r


FIELD = {"ecx": {"gas.tracker.remaining": 64, "mem_len": 64, "mem_base": 64, "input": 64, "calldatasize": 64, "return_data.len": 64, "resume_at": 64},
         "input": {"target_address": 160, "caller_address": 160, "call_value": 256}}
MEMOPS = set("KECCAK256 CALLDATACOPY CODECOPY EXTCODECOPY RETURNDATACOPY MCOPY LOG0 LOG1 LOG2 LOG3 LOG4 RETURN REVERT".split()) | set(SUSP)
PUREB = {"Div": "DIV", "SDiv": "SDIV", "Mod": "MOD", "SMod": "SMOD", "AddMod": "ADDMOD", "MulMod": "MULMOD"}
OPB = {n.title(): n for n in ()}
for _n in "Keccak256 Balance Origin CallDataLoad CallDataCopy CodeCopy GasPrice ExtCodeSize ExtCodeCopy ReturnDataCopy ExtCodeHash BlockHash Coinbase Timestamp Number Difficulty GasLimit ChainId SelfBalance Basefee BlobHash BlobBaseFee SlotNum Sload Sstore Tload Tstore Mcopy SelfDestruct".split():
    OPB[_n] = "DIFFICULTY" if _n == "Difficulty" else _n.upper()
ADDR_OUT = ("ORIGIN", "COINBASE")
# operations that charge nothing and cannot fail: the gas counter is the same afterwards
FREE = set("ORIGIN CALLDATALOAD GASPRICE COINBASE TIMESTAMP NUMBER DIFFICULTY GASLIMIT CHAINID BASEFEE BLOBHASH BLOBBASEFEE SLOTNUM TLOAD".split())


class World:
    """The observable state both executions work on."""

    def __init__(self, init):
        self.init, self.eff, self.n, self.gn, self.gk, self.epoch, self.ver = init, [], 0, 0, 0, 0, 0

    def gas(self):
        return mk("gas", self.gn, self.gk)

    def op(self, nm, operands, covered=False, extra=()):
        if nm in ("KECCAK256", "RETURN", "REVERT") and is_k(operands[1]) and operands[1].a[0] == 0:
            operands = (K(0), K(0))
        self.eff.append((nm, tuple(operands), self.gas(), extra))
        out = leaf(f"out{self.n}", 160 if nm in ADDR_OUT else 256)
        self.n += 1
        self.ver += 1
        if nm not in FREE:
            self.gn += 1
            self.gk = 0
        if nm in MEMOPS and not covered:
            self.epoch += 1
        return out

    def resize(self, size):
        self.eff.append(("resize", (size,), self.gas(), ()))
        self.gn += 1
        self.gk = 0
        self.epoch += 1

    def expgas(self, e):
        self.eff.append(("expgas", (e,), self.gas(), ()))
        self.gn += 1
        self.gk = 0

    def mld(self, off, w):
        self.eff.append(("mload", (off,), None, (w, self.epoch)))
        return leaf(f"m{len(self.eff)}", w)

    def mst(self, off, v, w):
        self.eff.append(("mstore", (off, v), None, (w, self.epoch)))
        self.ver += 1


class Exec:
    def __init__(self, prog, code, p, cfg, fields, start, decisions, init, names):
        self.code, self.p, self.cfg, self.fields, self.dec, self.names = code, p, cfg, fields, list(decisions), names
        self.used = 0
        self.facts = {}
        self.env, self.w = {}, {}
        self.mem = {"stack": {}, "sparg": {}}
        self.slots = {}
        self.W = World(init)
        self.lenarg = leaf("len0", 64)
        self.resume = None
        self.copied = None
        self.mirror = set()
        self.cur = start
        self.inst = None
        self.start = start
        self.steps = 0
        self.stackbase = "sparg" if cfg["inspect_stack"] else "stack"
        self.trail = []

    # ---- decisions
    def choose(self, key, n):
        if key in self.facts:
            return self.facts[key]
        if self.used < len(self.dec):
            r = self.dec[self.used]
            self.used += 1
            self.facts[key] = r
            return r
        raise Fork(n)

    def truth(self, t):
        if is_k(t):
            return bool(t.a[0])
        if t.op == "b" and t.a[0] == "bitor" or t.op == "evm" and t.a[0] == "OR":
            return self.truth(t.a[-2]) or self.truth(t.a[-1])
        if t.op == "evm" and t.a[0] == "AND" or t.op == "b" and t.a[0] == "bitand":
            return self.truth(t.a[-2]) and self.truth(t.a[-1])
        k, pol = canon(t)
        if k is None:
            return pol
        e = exceeds(self.p[self.inst], k) if self.inst is not None else None
        if e is not None:
            return e == pol
        return bool(self.choose(k, 2)) == pol

    # ---- values
    def v(self, t):
        if t.op == "v":
            if t.a[0] not in self.env:
                raise Bad(f"a value is used where it is not defined ({self.code_at(t.a[0])})")
            return self.env[t.a[0]]
        if t.op == "ovf":
            return self.env[("ovf", t.a[0].a[0])]
        return t

    def code_at(self, n):
        for b, xs in self.code.blocks.items():
            for i, e in xs:
                if i == n:
                    return e[0]
        return "?"

    def width(self, t):
        return 1 if t.op == "ovf" else self.w.get(t.a[0], 64)

    def bin(self, op, w, a, b):
        if a.op == "p" or b.op == "p":
            raise Bad(f"arithmetic {op} on a pointer")
        if a.op == "lin" and is_k(b) and op in ("iadd", "isub"):
            return mk("lin", a.a[0] + (sg(b.a[0] % (1 << w), w) if op == "iadd" else -sg(b.a[0] % (1 << w), w)))
        if a.op == "gas" and is_k(b) and op == "isub":
            return mk("gas", a.a[0], a.a[1] + b.a[0])
        if is_k(a) and is_k(b):
            r = binop(op, w, a.a[0], b.a[0])
            return leaf("poison", w) if r is POISON else K(r)
        if w == 256 and op in DIRECT:
            return mk("evm", DIRECT[op], a, b)
        return mk("b", op, w, a, b)

    def cmp(self, cc, w, a, b):
        if is_k(a) and is_k(b):
            return K(cmpop(cc, w, a.a[0], b.a[0]))
        if w == 256:
            if cc in ("ult", "ugt", "slt", "sgt", "eq"):
                return mk("evm", {"ult": "LT", "ugt": "GT", "slt": "SLT", "sgt": "SGT", "eq": "EQ"}[cc], a, b) if not (cc == "eq" and is_k(b) and b.a[0] == 0) else mk("evm", "ISZERO", a)
        return mk("cmp", cc, w, a, b)

    def ptr(self, t):
        p = self.v(t)
        if p.op != "p":
            raise Bad(f"access through {show(p)[:60]}")
        return p

    def off(self, x):
        if x.op == "lin":
            return x.a[0]
        if is_k(x):
            return x.a[0] - (1 << 64) if x.a[0] >> 63 else x.a[0]
        raise Bad(f"stack offset {show(x)[:60]}")

    def field(self, base, off, w):
        if not is_k(off):
            raise Bad(f"{base} offset {show(off)[:60]}")
        c = [(n, z) for n, z in self.fields[base].get(off.a[0], []) if n in FIELD[base]]
        if not c:
            raise Bad(f"access to byte {off.a[0]} of {base}")
        n = c[0][0]
        if w != FIELD[base][n]:
            raise Bad(f"access to {n} with {w} bits")
        return n

    def rd(self, base, k):
        d = self.mem[base]
        if k in d:
            return d[k]
        if base == self.stackbase or base in self.mirror:
            return self.W.init(k)
        return leaf(f"{base}[{k}]")

    def load(self, ty, p, n):
        w = ty.a[1] if ty.a[0] != "ptr" else 64
        base = p.a[0]
        if base in ("stack", "sparg"):
            x = self.rd(base, self.off(p.a[1]))
            return x if w == 256 else mk("tr", w, x)
        if base == "lenarg":
            return self.lenarg
        if base == "mem":
            if p.a[2] != self.W.epoch:
                raise Bad("memory is accessed through a base pointer from before it grew")
            return self.W.mld(p.a[1], w)
        if base == "slot":
            return self.slots.get(p.a[1], leaf("undef", 64))
        f = self.field(base, p.a[1], w)
        if f == "gas.tracker.remaining":
            return self.W.gas()
        if f == "mem_len":
            return leaf(f"memlen{self.W.epoch}", 64)
        if f == "mem_base":
            return mk("p", "mem", K(0), self.W.epoch)
        if f == "input":
            return mk("p", "input", K(0))
        if f == "resume_at":
            return leaf("resume_at", 64)
        return leaf(f, w)

    def store(self, v, w, p):
        base = p.a[0]
        if base in ("stack", "sparg"):
            if w != 256:
                raise Bad(f"a {w}-bit value is stored to the stack")
            self.mem[base][self.off(p.a[1])] = v
        elif base == "lenarg":
            self.lenarg = v
        elif base == "mem":
            if p.a[2] != self.W.epoch:
                raise Bad("memory is accessed through a base pointer from before it grew")
            self.W.mst(p.a[1], v, w)
        elif base == "slot":
            self.slots[p.a[1]] = v
        else:
            f = self.field(base, p.a[1], w)
            if f == "gas.tracker.remaining":
                if v.op != "gas" or v.a[0] != self.W.gn or v.a[1] < self.W.gk:
                    raise Bad(f"the gas counter becomes {show(v)[:60]}")
                self.W.gk = v.a[1]
            elif f == "resume_at":
                self.resume = v
            else:
                raise Bad(f"the context's {f} is overwritten")

    # ---- instructions
    def run(self):
        try:
            if self.start != -1:
                self.prologue()
                self.slots = {k: mk("lin", 0) for k in self.lens()}
            prev = None
            first = True
            while True:
                b = self.cur
                if b in self.code.at:
                    i = self.code.at[b]
                    if not first and (self.p[i].head is not None or self.start == -1):
                        return ("goto", i)
                    self.inst = i
                elif not self.code.blocks.get(b):
                    raise Bad("control reaches an empty block")
                first = False
                nxt = None
                phis = {n: self.phi(e, prev) for n, e in self.code.blocks[b] if e[0] == "phi"}
                for n, e in self.code.blocks[b]:
                    self.steps += 1
                    if self.steps > 5000:
                        raise Bad("control never leaves the section")
                    if e[0] == "phi":
                        self.env[n], self.w[n] = phis[n], e[1].a[1]
                        continue
                    r = self.step(n, e)
                    if r is not None:
                        if r[0] == "br":
                            nxt = r[1]
                            break
                        return r
                if nxt is None:
                    raise Bad("a block has no terminator")
                prev, self.cur = b, nxt
        except Fork:
            raise

    def prologue(self):
        """Values defined on the way to the first instruction are available everywhere."""
        keep, dec, self.dec = dict(self.facts), self.dec, []
        self.facts[("nz", leaf("resume_at", 64))] = 0
        b = -1
        try:
            while b not in self.code.at:
                for n, e in self.code.blocks[b]:
                    r = self.step(n, e)
                    if r is not None:
                        break
                if r is None or r[0] != "br":
                    break
                b = r[1]
        except Fork:
            pass
        self.facts, self.dec, self.used = keep, dec, 0
        self.mem = {"stack": {}, "sparg": {}}
        self.W = World(self.W.init)
        self.lenarg, self.resume, self.copied, self.trail = leaf("len0", 64), None, None, []
        self.mirror = set()

    def lens(self):
        return [n for n, e in self.code.blocks[-1] if e[0] == "new_stack_slot_raw" and e[1].a[0] == "int"]

    def phi(self, e, prev):
        for t in e[2].a:
            if t.a[1].a[0] == prev:
                return self.v(t.a[0])
        raise Bad("a merge point has no value for one of its predecessors")

    def step(self, n, e):
        o = e[0]
        a = e[1:]
        V = self.v
        r = None
        w = 64
        if o == "fn_param":
            r = [mk("p", "ecx", K(0)), mk("p", "sparg", K(0)), mk("p", "lenarg", K(0))][a[0].a[0]]
        elif o in ("iconst", "uconst"):
            w = a[0].a[1]
            r = K(a[1].a[0] % (1 << w)) if is_k(a[1]) else leaf(f"opaque {show(a[1])[:80]}", w)
        elif o == "bool_const":
            w, r = 1, a[0]
        elif o == "iconst_256":
            w, r = 256, a[0]
            if r.op == "call" and r.a[0] == "Uint::from" and is_k(r.a[-1]):
                r = r.a[-1]
            if not is_k(r):
                raise Bad(f"the constant {show(r)[:60]}")
            r = K(r.a[0] % W256)
        elif o == "new_stack_slot_raw":
            r = mk("slotid", n)
            self.slottype = dict(getattr(self, "slottype", {}), **{})
            self.slottype[n] = a[0]
        elif o in ("stack_load", "stack_store", "stack_addr"):
            s = V(a[1] if o != "stack_load" else a[1]).a[0]
            t = self.slottype[s]
            if o == "stack_addr":
                r = mk("p", "stack", K(0)) if t.a[0] == "array" else mk("p", "slot", s)
            elif o == "stack_store":
                self.slots[s] = V(a[0])
                return None
            else:
                w = a[0].a[1]
                r = self.slots.get(s, leaf("undef", 64))
        elif o in ("load", "load_aligned"):
            w = a[0].a[1]
            r = self.load(a[0], self.ptr(a[1]), n)
        elif o in ("store", "store_aligned"):
            self.store(V(a[0]), self.width(a[0]), self.ptr(a[1]))
            return None
        elif o == "gep":
            p = self.ptr(a[1])
            if len(a[2].a) != 1:
                raise Bad("address of several indexes")
            i = V(a[2].a[0])
            if p.a[0] in ("stack", "sparg"):
                if a[0].a[1] != 256:
                    raise Bad("a stack address not in words")
                x = p.a[1]
                r = i if is_k(x) and x.a[0] == 0 else x if is_k(i) and i.a[0] == 0 else self.bin("iadd", 64, x, i)
            else:
                if a[0].a[1] != 8:
                    raise Bad("an address not in bytes")
                x = p.a[1]
                r = i if is_k(x) and x.a[0] == 0 else self.bin("iadd", 64, x, i)
            r = mk("p", p.a[0], r, *p.a[2:])
        elif o in ("icmp", "icmp_imm"):
            cc = CC[a[0].a[2]]
            w0 = self.width(a[1])
            y = V(a[2]) if o == "icmp" else K(a[2].a[0] % (1 << w0))
            r, w = self.cmp(cc, w0, V(a[1]), y), 1
        elif o in ("iadd", "isub", "imul", "udiv", "sdiv", "urem", "srem", "uadd_sat", "umax", "umin", "bitor", "bitand", "bitxor", "ishl", "ushr", "sshr"):
            w = self.width(a[0])
            r = self.bin(o, w, V(a[0]), V(a[1]))
        elif o in ("iadd_imm", "isub_imm", "imul_imm", "bitor_imm", "bitand_imm", "bitxor_imm"):
            w = self.width(a[0])
            r = self.bin(o[:-4], w, V(a[0]), K(a[1].a[0] % (1 << w)))
        elif o in ("usub_overflow", "uadd_overflow"):
            w = self.width(a[0])
            x, y = V(a[0]), V(a[1])
            if o != "usub_overflow":
                raise Bad("operation uadd_overflow")
            r = self.bin("isub", w, x, y)
            self.env[("ovf", n)] = self.cmp("ult", w, x, y)
        elif o == "select":
            w = self.width(a[1])
            c = V(a[0])
            x, y = V(a[1]), V(a[2])
            if not is_k(c):
                k, pol = canon(c) if c.op not in ("b",) else (None, None)
                if k is not None and k in self.facts:
                    c = K(int(bool(self.facts[k]) == pol))
            r = (x if c.a[0] else y) if is_k(c) else x if x is y else mk("sel", c, x, y)
        elif o in ("bswap", "bitnot", "clz"):
            w = self.width(a[0])
            x = V(a[0])
            r = K(ev(mk("u", o, w, x), {}, {})) if is_k(x) else x.a[2] if o == "bswap" and x.op == "u" and x.a[0] == o and x.a[1] == w else mk("evm", {"bitnot": "NOT", "clz": "CLZ"}[o], x) if w == 256 and o != "bswap" else mk("u", o, w, x)
        elif o == "zext":
            w, r = a[0].a[1], V(a[1])
            if self.width(a[1]) > w:
                raise Bad("a widening that narrows")
        elif o == "sext":
            w = a[0].a[1]
            r = mk("sx", self.width(a[1]), w, V(a[1]))
        elif o == "ireduce":
            w = a[0].a[1]
            x = V(a[1])
            if self.width(a[1]) < w:
                raise Bad("a narrowing that widens")
            r = K(x.a[0] & ((1 << w) - 1)) if is_k(x) else mk("tr", w, x)
        elif o == "str_const":
            r = mk("strc")
        elif o in ("nop", "assume"):
            return None
        elif o == "memcpy":
            d, s, l = self.ptr(a[0]), self.ptr(a[1]), V(a[2])
            if {d.a[0], s.a[0]} != {"stack", "sparg"} or not all(is_k(x.a[1]) and x.a[1].a[0] == 0 for x in (d, s)):
                raise Bad("a copy that is not between the stacks")
            if l.op != "b" or l.a[0] != "imul" or l.a[3] is not K(32):
                raise Bad(f"a stack copy of {show(l)[:60]} bytes")
            self.copied = (d.a[0], l.a[2])
            self.mem[d.a[0]] = dict(self.mem[s.a[0]])
            (self.mirror.add if s.a[0] == self.stackbase or s.a[0] in self.mirror else self.mirror.discard)(d.a[0])
            return None
        elif o == "br":
            return ("br", a[0].a[0])
        elif o == "brif":
            return ("br", (a[1] if self.truth(V(a[0])) else a[2]).a[0])
        elif o == "switch":
            t = V(a[0])
            cases = [(x.a[0].a[0], x.a[1].a[0]) for x in a[2].a]
            if len({c for c, _ in cases}) != len(cases):
                raise Bad("a table with a repeated case")
            if is_k(t):
                return ("br", dict(cases).get(t.a[0], a[1].a[0]))
            c = self.choose(("sw", t, frozenset(c for c, _ in cases)), len(cases) + 1)
            return ("br", cases[c][1] if c < len(cases) else a[1].a[0]) if self.note_sw(t, cases, c) else None
        elif o == "ret":
            t = V(a[0].a[0])
            while t.op == "sel":
                t = t.a[1] if self.truth(t.a[0]) else t.a[2]
            return ("ret", t)
        elif o == "unreachable":
            return ("unreachable",)
        elif o == "call":
            return self.call(n, a[0].a[0], [V(x) for x in a[1].a])
        else:
            raise Bad(f"operation {o}")
        self.env[n], self.w[n] = r, w
        return None

    def note_sw(self, t, cases, c):
        self.trail.append((t, frozenset(x for x, _ in cases), cases[c][0] if c < len(cases) else None))
        return True

    # ---- builtins
    def win(self, sp, n):
        k = self.off(sp.a[1])
        return [self.rd(sp.a[0], k + n - 1 - i) for i in range(n)]

    def sp(self, p):
        if p.op != "p" or p.a[0] != self.stackbase:
            raise Bad(f"a builtin is given the stack pointer {show(p)[:60]}")
        return p

    def call(self, n, f, args):
        W = self.W
        x = self.p[self.inst] if self.inst is not None else None
        if f == "Panic":
            W.eff.append(("panic", (), None, ()))
            return None
        if f == "AssertSpecId":
            W.eff.append(("spec", (args[1],), None, ()))
            return None
        E = lambda q: q.op == "p" and q.a[0] == "ecx" and is_k(q.a[1]) and q.a[1].a[0] == 0
        out = None
        if f in PUREB:
            sp = self.sp(args[0])
            ops = self.win(sp, 3 if "Mod" in f and f[0] in "AM" and len(f) == 6 else 2)
            self.mem[sp.a[0]][self.off(sp.a[1])] = ref_term(PUREB[f], ops)
            return None
        if not E(args[0]):
            raise Bad(f"{f} is not given the context")
        cov = x is not None and covered(x)
        if f == "Exp":
            sp = self.sp(args[1])
            ops = self.win(sp, 2)
            W.expgas(ops[1])
            self.mem[sp.a[0]][self.off(sp.a[1])] = ref_term("EXP", ops)
        elif f == "ExpGas":
            W.expgas(self.win(self.sp(args[1]), 1)[0])
        elif f == "Mresize":
            W.resize(args[1])
        elif f in ("SloadC", "CallDataLoadC"):
            sp = self.sp(args[1])
            self.mem[sp.a[0]][self.off(sp.a[1])] = W.op(f[:-1].upper(), [args[2]], cov)
        elif f == "Keccak256CC":
            sp = self.sp(args[1])
            self.mem[sp.a[0]][self.off(sp.a[1])] = W.op("KECCAK256", args[2:4], cov)
        elif f == "DoReturnCC":
            W.op(self.names["ir"].get(args[3].a[0], "?").upper(), args[1:3], cov, self.inspected())
            return ("halt",)
        elif f == "DoReturn":
            W.op(self.names["ir"].get(args[2].a[0], "?").upper(), self.win(self.sp(args[1]), 2), cov, self.inspected())
            return ("halt",)
        elif f == "Log":
            k = args[2].a[0]
            W.op(f"LOG{k}", self.win(self.sp(args[1]), k + 2), cov)
        elif f == "Create":
            nm = self.names["create"].get(args[2].a[0], "?").upper()
            W.op(nm, self.win(self.sp(args[1]), {"CREATE": 3, "CREATE2": 4}.get(nm, 0)), cov)
        elif f == "Call":
            nm = self.names["call"].get(args[2].a[0], "?").upper()
            W.op(nm, self.win(self.sp(args[1]), 7 if nm in ("CALL", "CALLCODE") else 6), cov)
        elif f in OPB:
            nm = OPB[f]
            i, o = evm.OPS[CODE[nm]].i, evm.OPS[CODE[nm]].o
            sp = self.sp(args[1])
            r = W.op(nm, self.win(sp, i), cov, self.inspected() if nm == "SELFDESTRUCT" else ())
            if nm == "SELFDESTRUCT":
                return ("halt",)
            if o:
                self.mem[sp.a[0]][self.off(sp.a[1])] = r
        else:
            raise Bad(f"the builtin {f}")
        return None

    def inspected(self):
        """What a caller that inspects the stack sees when the function is left here."""
        return (dict(self.mem["sparg"]), self.lenarg) if self.cfg["inspect_stack"] else ()


def covered(x):
    """The analysis knows that memory already covers every access of the instruction."""
    return x.mem[0] >= x.mem[1] and x.memconst


def exceeds(x, k):
    """Whether the memory facts of the instruction decide that its access needs more memory than there is."""
    if k[0] == "ult" and k[1].op == "leaf" and k[1].a[0].startswith("memlen"):
        if x.mem[2]:
            return True
        if is_k(k[2]) and x.mem[0] >= k[2].a[0]:
            return False
    return None


def canon(t):
    """(key, polarity) of a condition, or (None, truth)."""
    if is_k(t):
        return None, bool(t.a[0])
    if t.op == "evm":
        nm, a = t.a[0], t.a[1:]
        if nm == "ISZERO":
            k, p = canon(a[0]) if a[0].op in ("cmp",) or a[0].op == "evm" and a[0].a[0] in ("LT", "GT", "SLT", "SGT", "EQ", "ISZERO") else (("nz", a[0]), True)
            return k, not p
        if nm in ("LT", "GT", "SLT", "SGT", "EQ"):
            t = mk("cmp", {"LT": "ult", "GT": "ugt", "SLT": "slt", "SGT": "sgt", "EQ": "eq"}[nm], 256, *a)
        else:
            return ("nz", t), True
    if t.op == "cmp":
        cc, w, a, b = t.a
        if cc in ("eq", "ne"):
            if is_k(b) and b.a[0] == 0:
                if a.op == "cmp" or a.op == "evm" and a.a[0] in ("LT", "GT", "SLT", "SGT", "EQ", "ISZERO"):
                    k, p = canon(a)
                    return k, p == (cc == "ne")
                return ("nz", a), cc == "ne"
            return ("eq", a, b), cc == "eq"
        s = cc[0]
        op = cc[1:]
        if op == "gt":
            a, b, op = b, a, "lt"
        elif op == "ge":
            k, p = canon(mk("cmp", s + "lt", w, a, b))
            return k, not p
        elif op == "le":
            k, p = canon(mk("cmp", s + "lt", w, b, a))
            return k, not p
        if a.op == "gas" and is_k(b):
            return ("oog", a.a[0], a.a[1] + b.a[0]), True
        if is_k(a) and s == "u" and not is_k(b):  # c < x  <=>  !(x < c + 1)
            return ("ult", b, K(a.a[0] + 1)), False
        return (s + "lt", a, b), True
    return ("nz", t), True


def ref_term(nm, ops):
    if all(is_k(x) for x in ops):
        return K(REF[nm](*[x.a[0] for x in ops]))
    return mk("evm", nm, *ops)


def paths(mkexec, limit=400):
    work, out = [()], []
    while work:
        d = work.pop()
        x = mkexec(d)
        try:
            r = x.run()
        except Fork as f:
            for k in range(f.args[0]):
                work.append(d + (k,))
            if len(work) > limit:
                raise Bad("too many paths")
            continue
        out.append((x, r))
    return out


# ------------------------------------------------------------------------------------------------ the meaning of a section
PURE = set("ADD MUL SUB DIV SDIV MOD SMOD ADDMOD MULMOD SIGNEXTEND LT GT SLT SGT EQ ISZERO AND OR XOR NOT BYTE SHL SHR SAR CLZ".split())
INPUT = {"ADDRESS": mk("u", "bswap", 160, leaf("target_address", 160)), "CALLER": mk("u", "bswap", 160, leaf("caller_address", 160)), "CALLVALUE": leaf("call_value", 256),
         "CALLDATASIZE": leaf("calldatasize", 64), "RETURNDATASIZE": leaf("return_data.len", 64), "CODESIZE": K(777)}
UNDEF = object()
DEPTH = 24


class Reject(Exception):
    """The program is outside what the analysis passes produce."""


class Ref:
    """One section executed as the EVM does, given which way the conditions went."""

    def __init__(self, P, cfg, start, init, facts, trail):
        self.P, self.p, self.cfg, self.facts, self.trail = P, P.p, cfg, facts, trail
        self.W = World(init)
        self.st = {}
        self.h = 0
        self.i = start
        self.missing = []

    def slot(self, k):
        return self.st[k] if k in self.st else self.W.init(k)

    def fact(self, key):
        """Whether the condition holds on this path (None: the path does not depend on it)."""
        if key in self.facts:
            return bool(self.facts[key])
        for k, v in self.facts.items():
            if k[0] == key[0] and len(k) == len(key) and all((a is b) if not hasattr(a, "op") or not hasattr(b, "op") else same(a, b) for a, b in zip(k[1:], key[1:])) and k[0] != "oog":
                return bool(v)
        return None

    def fails(self, key):
        r = self.fact(key)
        if r is None:
            self.missing.append(key)
        return r is True

    def run(self):
        first = True
        while True:
            if self.i >= len(self.p):
                raise Reject("runs off the end")
            x = self.p[self.i]
            if not first and x.head is not None:
                return ("goto", self.i)
            first = False
            r = self.inst(x)
            if r is not None:
                return r
            self.i = self.P.next(self.i)

    def inst(self, x):
        W, cfg, nm = self.W, self.cfg, x.nm
        if "DISABLED" in x.flags:
            return ("fail", "NotActivated")
        if "UNKNOWN" in x.flags:
            return ("fail", "OpcodeNotFound")
        if x.gas and cfg["gas_metering"]:
            k = ("oog", W.gn, W.gk + x.gas)
            if self.fails(k):
                return ("fail", "OutOfGas")
            W.gk += x.gas
        if x.head is not None and cfg["stack_bound_checks"]:
            if self.h:
                raise Reject("a section head inside a section")
            i, g = x.head
            L = mk("lin", 0)
            if i > 0 and self.fails(("ult", L, K(i))):
                return ("fail", "StackUnderflow")
            if g > 1024:
                return ("fail", "StackOverflow")
            if g > 0:
                k = self.fact(("ult", L, K(1025 - g)))
                if k is None:
                    self.missing.append(("room", g))
                elif not k:
                    return ("fail", "StackOverflow")
        i, o = x.io
        if "NOOP" in x.flags:
            if nm[:3] == "DUP":
                self.st[self.h] = UNDEF
            elif nm[:4] == "SWAP":
                d = self.P.imm(x)
                self.st[self.h - 1] = self.st[self.h - 1 - d] = UNDEF
            elif nm == "EXCHANGE":
                a, b = self.P.imm(x)
                self.st[self.h - 1 - a] = self.st[self.h - 1 - b] = UNDEF
            else:
                for q in range(o):
                    self.st[self.h - i + q] = UNDEF
            self.h += o - i
            return None
        cs = list(x.ins) + [None] * i

        def operand(d):
            if cs[d] is not None:
                return K(cs[d])
            v = self.slot(self.h - 1 - d)
            if v is UNDEF:
                raise Reject("an unwritten slot is read")
            return v
        if nm in ("DUPN", "SWAPN", "EXCHANGE") and self.P.imm(x) is None:
            return ("fail", "InvalidImmediateEncoding")
        if nm[:4] == "SWAP" or nm == "EXCHANGE":
            a, b = self.P.imm(x) if nm == "EXCHANGE" else (0, self.P.imm(x))
            vs = [K(cs[q]) if cs[q] is not None else self.slot(self.h - 1 - q) for q in (a, b)]
            self.st[self.h - 1 - a], self.st[self.h - 1 - b] = vs[1], vs[0]
            return None
        if nm[:3] == "DUP":
            d = self.P.imm(x) - 1
            self.st[self.h] = K(x.out) if x.out is not None else K(cs[d]) if cs[d] is not None else self.slot(self.h - 1 - d)
            self.h += 1
            return None
        if nm == "POP":
            self.h -= 1
            return None
        if nm in ("STOP", "JUMPDEST", "INVALID"):
            return {"STOP": ("ret", "Stop"), "JUMPDEST": None, "INVALID": ("fail", "InvalidFEOpcode")}[nm]
        if x.out is not None:
            out = K(x.out)
        else:
            ops = [operand(d) for d in range(i)]
            if nm in PURE:
                out = ref_term(nm, ops)
            elif nm == "EXP":
                if cs[1] is None or cs[1] > 2:
                    W.expgas(ops[1])
                out = ref_term(nm, ops)
            elif nm in INPUT:
                out = INPUT[nm]
            elif nm == "PC":
                out = K(x.data)
            elif nm == "MSIZE":
                out = leaf(f"memlen{W.epoch}", 64)
            elif nm == "GAS":
                out = W.gas()
            elif nm in ("MLOAD", "MSTORE", "MSTORE8"):
                n = 1 if nm == "MSTORE8" else 32
                off = K(min(ops[0].a[0], (1 << 63) - 1)) if is_k(ops[0]) else mk("sat", 63, ops[0])
                size = K(off.a[0] + n) if is_k(off) else mk("b", "iadd", 64, off, K(n))
                key = ("ult", leaf(f"memlen{W.epoch}", 64), size)
                g = False if covered(x) else exceeds(x, key)
                if g is None:
                    g = self.fact(key)
                    if g is None:
                        self.missing.append(("memory", show(size)[:60]))
                if g:
                    W.resize(size)
                if nm == "MLOAD":
                    v = W.mld(off, 256)
                    out = mk("u", "bswap", 256, v)
                else:
                    v = ops[1]
                    W.mst(off, (K(bswap(256, v.a[0])) if is_k(v) else mk("u", "bswap", 256, v)) if n == 32 else K(v.a[0] & 255) if is_k(v) else mk("tr", 8, v), 8 * n)
                    out = None
            elif nm in ("JUMP", "JUMPI"):
                return self.jump(x, ops)
            elif nm in SUSP:
                W.op(nm, ops, covered(x))
                self.h -= i
                return ("suspend", self.i)
            elif nm in ("RETURN", "REVERT", "SELFDESTRUCT"):
                self.h -= i
                W.op(nm, ops, covered(x), "snapshot")
                return ("halt",)
            elif nm in OPS_B:
                out = W.op(nm, ops, covered(x))
            else:
                raise Reject(f"{nm} is not modelled")
        self.h -= i
        if o:
            self.st[self.h] = out
        self.h += o
        return None

    def jump(self, x, ops):
        self.h -= x.io[0]
        P = self.P
        if x.nm == "JUMPI" and "CONST_JUMP_CONDITION" not in x.flags:
            c = ops[1]
            if is_k(c):
                taken = c.a[0] != 0
            else:
                k, pol = canon(c)
                f = self.fact(k)
                if f is None:
                    self.missing.append(("condition", show(c)[:60]))
                taken = f == pol
            if not taken:
                return ("goto", P.next(self.i))
        if "INVALID_JUMP" in x.flags:
            return ("fail", "InvalidJump")
        if "STATIC_JUMP" in x.flags:
            return ("goto", P.eff(x.data))
        t = ops[0]
        ts = P.multi[self.i] if "MULTI_JUMP" in x.flags else [j for j, y in enumerate(P.p) if y.nm == "JUMPDEST" and "DEAD_CODE" not in y.flags]
        cases = {P.pc(j): P.eff(j) for j in ts}
        if is_k(t):
            return ("goto", cases[t.a[0]]) if t.a[0] in cases else ("fail", "InvalidJump")
        sat = mk("sat", 64, t)
        for u, cs, chosen in self.trail:
            if cs == frozenset(cases) and (same(u, t) or same(u, sat)):
                return ("goto", cases[chosen]) if chosen is not None else ("fail", "InvalidJump")
        self.missing.append(("target", show(t)[:60]))
        return ("fail", "InvalidJump")


OPS_B = set(OPB.values()) | {f"LOG{k}" for k in range(5)}


class P:
    """A program with the facts of the control-flow passes."""

    def __init__(self, p, multi=(), redirects=(), dyn=None):
        self.p, self.multi, self.redirects = p, dict(multi), dict(redirects)
        self.dyn = any(x.nm in ("JUMP", "JUMPI") and not set(x.flags) & {"INVALID_JUMP", "STATIC_JUMP", "MULTI_JUMP", "DEAD_CODE"} for x in p) if dyn is None else dyn

    def eff(self, i):
        return self.redirects.get(i, i)

    def next(self, i):
        return self.eff(i + 1)

    @staticmethod
    def imm(x):
        if x.nm in ("DUPN", "SWAPN"):
            return evm.decode_single(x.data)
        if x.nm == "EXCHANGE":
            return evm.decode_pair(x.data)
        return int(x.nm[3 if x.nm[0] == "D" else 4:])

    def pc(self, j):
        return self.p[j].data & 0x7FFFFFFF

    def __repr__(self):
        return " ".join(map(repr, self.p)) + (f" multi={self.multi}" if self.multi else "") + (f" redirects={self.redirects}" if self.redirects else "")

    def build(self, prog, F):
        return build(prog, F, self.p, multi=self.multi.items(), redirects=self.redirects.items(), dyn=self.dyn)


def heads(p):
    """Mark section heads and their bounds as the section pass does: at control-flow joins and splits, after suspensions."""
    start = [False] * (len(p) + 1)
    start[0] = True
    for i, x in enumerate(p):
        if x.nm == "JUMPDEST":
            start[i] = True
        if x.nm in ("JUMP", "JUMPI", "STOP", "RETURN", "REVERT", "INVALID", "SELFDESTRUCT") or x.nm in SUSP or set(x.flags) & {"DISABLED", "UNKNOWN"}:
            start[i + 1] = True
    i = 0
    while i < len(p):
        j = i
        h = lo = hi = 0
        while j < len(p) and (j == i or not start[j]):
            a, b = p[j].io
            lo = min(lo, h - a)
            h += b - a
            hi = max(hi, h)
            if p[j].nm in SUSP:
                hi = max(hi, h)
            j += 1
        p[i].head = (-lo, hi)
        i = j
    return p


# ------------------------------------------------------------------------------------------------ comparing
def init(k):
    return leaf(f"s{k}")


def slots_differ(ex, base, rf, n, what):
    for k in range(-DEPTH, n):
        want = rf.slot(k)
        if want is UNDEF:
            raise Reject("an unwritten slot is observable")
        got = ex.rd(base, k)
        if not same(got, want):
            return f"{what}: the word at depth {n - k} is {show(got)[:90]} instead of {show(want)[:90]}"
    return None


def effects_differ(ex, rf):
    a, b = ex.W.eff, rf.W.eff
    for n, (x, y) in enumerate(itertools.zip_longest(a, b)):
        if x is None:
            return f"the operation {y[0]} is missing"
        if y is None:
            return f"the operation {x[0]} is executed in excess"
        if x[0] != y[0]:
            return f"the operation {x[0]} is executed instead of {y[0]}"
        for d, (p, q) in enumerate(itertools.zip_longest(x[1], y[1])):
            if not (p is not None and q is not None and same(p, q)):
                return f"{x[0]} gets {show(p)[:90] if p is not None else None} as operand {d} instead of {show(q)[:90] if q is not None else None}"
        if x[2] is not y[2]:
            return f"{x[0]} runs with {show(x[2])} left instead of {show(y[2])}"
        if y[3] == "snapshot":
            if ex.cfg["inspect_stack"]:
                mem, ln = x[3]
                if ln is not mk("lin", rf.h):
                    return f"the caller sees the stack length {show(ln)[:60]} at {x[0]} instead of {rf.h:+d}"
                keep = ex.mem["sparg"]
                ex.mem["sparg"] = mem
                w = slots_differ(ex, "sparg", rf, rf.h, f"the stack the caller sees at {x[0]}")
                ex.mem["sparg"] = keep
                if w:
                    return w
        elif x[3] != y[3]:
            return f"{x[0]} accesses {x[3]} instead of {y[3]}"
    return None


def compare(Pg, cfg, ex, r, names, start, resume):
    rf = Ref(Pg, cfg, start, init, ex.facts, ex.trail)
    q = rf.run()
    ir = names["ir"]
    code = None
    if r[0] == "ret":
        if not is_k(r[1]) or r[1].a[0] not in ir:
            return f"the result code is {show(r[1])[:60]}"
        code = ir[r[1].a[0]]
    if q[0] == "fail":
        want = "OutOfGas" if cfg["single_error"] else q[1]
        if r[0] != "ret" or code != want:
            return f"fails with {q[1]} in the EVM, here {code or r[0]}"
        return None
    if r[0] == "ret" and code not in ("Stop",):
        return f"fails with {code} although the EVM goes on ({q[0]})"
    if rf.missing:
        return f"the outcome does not depend on {rf.missing[0][0]} {' '.join(show(t) if hasattr(t, 'op') else str(t) for t in rf.missing[0][1:])}"
    if (q[0] in ("goto", "suspend") or cfg["inspect_stack"]) and any(rf.slot(k) is UNDEF for k in range(-DEPTH, rf.h)):
        raise Reject("an unwritten slot is observable")
    w = effects_differ(ex, rf)
    if w:
        return w
    if not same(ex.W.gas(), rf.W.gas()):
        return f"{show(ex.W.gas())} is left instead of {show(rf.W.gas())}"
    if q[0] == "goto":
        if r != q:
            return f"control goes to {r} instead of instruction {q[1]}"
        ln = [ex.slots.get(n) for n in ex.lens()]
        if mk("lin", rf.h) not in ln:
            return f"the stack length at the next section is {[show(t)[:40] for t in ln]} instead of {rf.h:+d}"
        return slots_differ(ex, ex.stackbase, rf, rf.h, "the stack at the next section")
    if q[0] == "halt":
        return None if r == q else f"execution goes on after the halt ({r})"
    if q[0] == "ret":
        if r[0] != "ret" or code != q[1]:
            return f"the result is {r} instead of {q[1]}"
        if ex.resume is not None:
            return "a resume point is set by a final stop"
        if cfg["inspect_stack"]:
            if ex.lenarg is not mk("lin", rf.h):
                return f"the caller sees the stack length {show(ex.lenarg)[:60]} instead of {rf.h:+d}"
            return slots_differ(ex, "sparg", rf, rf.h, "the stack the caller sees")
        return None
    if r[0] != "ret":
        return f"no suspension ({r})"
    if ex.resume is None or not is_k(ex.resume) or resume.get(ex.resume.a[0]) != Pg.next(q[1]):
        return f"the resume point {show(ex.resume) if ex.resume is not None else None} leads to {resume.get(ex.resume.a[0]) if ex.resume is not None and is_k(ex.resume) else None} instead of {Pg.next(q[1])}"
    if ex.lenarg is not mk("lin", rf.h):
        return f"the suspension saves the stack length {show(ex.lenarg)[:60]} instead of {rf.h:+d}"
    if not cfg["inspect_stack"] and ex.copied is not None and ex.copied[1] is not mk("lin", rf.h):
        return f"the suspension copies {show(ex.copied[1])[:60]} words"
    return slots_differ(ex, "sparg", rf, rf.h, "the stack handed over at the suspension")


def entry(prog, code, Pg, cfg, fields, names, spec):
    """Checks the function entry; returns (why, {resume value: instruction})."""
    tab = {}
    n0 = leaf("len0", 64)
    for ex, r in paths(lambda d: Exec(prog, code, Pg.p, cfg, fields, -1, d, init, names)):
        eff = [e for e in ex.W.eff if e[0] != "panic"]
        want = [("spec", (K(spec),), None, ())] if cfg["debug_assertions"] else []
        if eff != want:
            return f"on entry: {[e[0] for e in eff]} is executed instead of {[e[0] for e in want]}", tab
        ln = [ex.slots.get(n) for n in ex.lens()]
        fresh = ex.facts.get(("nz", leaf("resume_at", 64)))
        if not any(x.nm in SUSP for x in Pg.p):
            fresh = 0
        if fresh == 0:
            if r != ("goto", 0):
                return f"a fresh call starts at {r}", tab
            if cfg["inspect_stack"]:
                if n0 not in ln:
                    return f"a fresh call starts with the stack length {[show(t)[:40] for t in ln]}", tab
            elif K(0) not in ln:
                return f"a fresh call starts with the stack length {[show(t)[:40] for t in ln]}", tab
            continue
        if not ex.trail:
            return f"a resumed call goes to {r} whatever its resume point", tab
        t, cs, chosen = ex.trail[-1]
        if t is not leaf("resume_at", 64):
            return f"a resumed call is dispatched on {show(t)[:60]}", tab
        if chosen is None:
            if r[0] != "unreachable" and r[0] != "ret":
                return f"an unknown resume point goes to {r}", tab
            continue
        if r[0] != "goto":
            return f"the resume point {chosen} goes to {r}", tab
        tab[chosen] = r[1]
        if n0 not in ln:
            return f"a resumed call starts with the stack length {[show(t)[:40] for t in ln]}", tab
        if cfg["inspect_stack"]:
            if ex.copied:
                return "a resumed call copies the stack although it works on the caller's", tab
        elif ex.copied is None or ex.copied[0] != "stack" or ex.copied[1] is not n0:
            return f"a resumed call copies {show(ex.copied[1])[:40] if ex.copied else 'nothing'} of the caller's stack", tab
    if 0 in tab:
        return "the resume point 0 means a fresh call", tab
    return None, tab


class Ctx:
    def __init__(self, prog):
        self.prog, self.F = prog, flagset(prog)
        self.fields = fields_of(prog)
        en = lambda n: {v["discr"]: v["name"] for v in prog.adts[cg.path_of(prog, n)]["variants"]}
        self.spec = next(k for k, v in en("SpecId").items() if v == SPEC)
        self.names = dict(ir=en("InstructionResult"), create=en("CreateKind"), call=en("CallKind"))


CFG0 = dict(comments=0, debug_assertions=0, frame_pointers=0, debug=0, inspect_stack=0, stack_bound_checks=1, gas_metering=1, single_error=1)


def program(cx, rep, what, Pg, **kw):
    """Translate one program and compare every section with the EVM's meaning."""
    cfg = dict(CFG0, **kw)
    key = f"{what}: {Pg!r}"
    b = cx.prog.fn("FunctionCx::translate")
    try:
        h, e, _ = record(cx.prog, cx.F, config(cx.prog, **kw), Pg.build(cx.prog, cx.F))
    except m.Limit as u:
        return undecided(rep, what, f"{Pg!r}: {u}", b.span)
    if len(h.res) != 1:
        return rep.violation(f"{what}:translate", f"translating {Pg!r} gives {len(h.res)} results", b.span)
    code = Code([x for x in h.res[0][2] if x[0] != "store"] if False else h.res[0][2])
    try:
        w, tab = entry(cx.prog, code, Pg, cfg, cx.fields, cx.names, cx.spec)
        rep.check(w is None, "entry", key, f"{w}; program {Pg!r}", b.span)
        for i, x in enumerate(Pg.p):
            if x.head is None or "DEAD_CODE" in x.flags:
                continue
            if i not in code.entry:
                rep.violation(f"{what}:no code", f"instruction {i} of {Pg!r} has no code", b.span)
                continue
            for ex, r in paths(lambda d: Exec(cx.prog, code, Pg.p, cfg, cx.fields, code.entry[i], d, init, cx.names)):
                w = compare(Pg, cfg, ex, r, cx.names, i, tab)
                rep.count("section paths", rep.counts.get("section paths", 0) + 1)
                rep.check(w is None, "section", key, f"{what}: in `{Pg!r}` the section at instruction {i}: {w}", b.span)
                if w:
                    return
    except Reject:
        rep.count("programs outside what the passes produce", rep.counts.get("programs outside what the passes produce", 0) + 1)
        return
    except Bad as u:
        rep.violation(f"{what}:malformed", f"the code generated for {Pg!r}: {u}", b.span)
        return
    rep.count("programs", rep.counts.get("programs", 0) + 1)


# ------------------------------------------------------------------------------------------------ program families
SRC = ("CALLVALUE", "CALLDATASIZE", "CALLER", "ADDRESS", "RETURNDATASIZE", "MSIZE", "CODESIZE")
PLAIN = [o.name for c, o in sorted(evm.OPS.items()) if not o.name.startswith("PUSH") and o.name not in ("JUMP", "JUMPI", "DUPN", "SWAPN", "EXCHANGE")]
VALS = [0, 1, 2, 3, 4, 31, 32, 33, 255, 256, 1 << 64, (1 << 64) - 1, (1 << 63) + 5, 1 << 128, 1 << 200, 1 << 255, W256 - 1, W256 - 2]


def tail(kind):
    return {"next": [I("JUMPDEST"), I("STOP")], "stop": [I("STOP")], "use": [I("DUP1"), I("SWAP2"), I("ADD"), I("JUMPDEST"), I("STOP")], "ret": [I("RETURN")]}[kind]


def push(v, noop=False):
    return I("PUSH32" if v >> 64 else "PUSH8" if v > 255 else "PUSH1", flags=("NOOP",) if noop else (), out=v)


def fam_each():
    """Every instruction with its operands in memory, in values, and as constants whose producers are kept or dropped."""
    out = []
    for nm in PLAIN:
        n = evm.OPS[CODE[nm]].i
        end = nm in ("STOP", "RETURN", "REVERT", "INVALID", "SELFDESTRUCT")
        for t in ("next", "use") if not end and nm not in SUSP else ("next",):
            out.append(("operands in memory", lambda nm=nm, t=t: [I(nm, gas=5, data=7 if nm == "PC" else 0)] + tail(t)))
            if n:
                out.append(("operands in values", lambda nm=nm, t=t, n=n: [I(SRC[k % 7]) for k in range(max(n, 2))] + [I(nm, gas=3)] + tail(t)))
        if n and nm[:3] not in ("DUP", "SWA") and nm != "POP":
            vs = VALS if nm in PURE or nm in ("EXP", "MLOAD", "MSTORE", "MSTORE8", "SLOAD", "CALLDATALOAD", "KECCAK256", "RETURN", "REVERT") else (1, 1 << 64, W256 - 1)
            for v in vs:
                for d in range(min(n, 3)):
                    ins = tuple(v if q == d else None for q in range(n))
                    for drop in (0, 1):
                        # producers from the deepest operand up
                        out.append((f"constant operand {d}", lambda nm=nm, v=v, d=d, n=n, drop=drop, ins=ins: [push(v, drop) if n - 1 - k == d else I(SRC[k % 7]) for k in range(n)] + [I(nm, gas=4, ins=ins)] + tail("next")))
                out.append(("constant operand in memory", lambda nm=nm, v=v, n=n: [I(nm, ins=tuple(v if q == 0 else None for q in range(n)))] + tail("next")))
    for nm in ("KECCAK256", "RETURN", "REVERT", "EXP", "SDIV", "SMOD", "ADDMOD", "MULMOD", "LOG0", "CALLDATACOPY"):
        n = evm.OPS[CODE[nm]].i
        for a, b in itertools.product((0, 1, 32, 1 << 64, (1 << 64) - 1, W256 - 1), repeat=2):
            for drop in (0, 1):
                ins = (a, b) + (None,) * (n - 2)
                out.append(("constant operands", lambda nm=nm, a=a, b=b, drop=drop, ins=ins, n=n: [I("CALLER")] + [I(SRC[k]) for k in range(n - 2)] + [push(b, drop), push(a, drop), I(nm, gas=4, ins=ins)] + tail("next")))
    return out


def fam_shuffle():
    out = []
    for d in (1, 2, 3, 5, 16):
        for nm in (f"DUP{d}", f"SWAP{d}"):
            for k in (0, 1, 2, 3, 5):
                for t in ("next", "use"):
                    out.append((nm, lambda nm=nm, k=k, t=t: [I(SRC[q]) for q in range(k)] + [I(nm, gas=3)] + tail(t)))
            out.append((f"{nm} of a constant", lambda nm=nm, d=d: [I(nm, ins=(9,) if nm[0] == "D" and d == 1 else (None,) * (d - 1 if nm[0] == "D" else d) + (9,))] + tail("next")))
            out.append((f"{nm} of a dropped constant", lambda nm=nm, d=d: [push(9, True), I("CALLER")] + [I("POP")] + [I(nm, ins=(9,))] + ([I("POP"), I("POP")] if nm == "DUP1" else []) + tail("next")))
    for b in range(0, 256, 7):
        for nm in ("DUPN", "SWAPN", "EXCHANGE"):
            f = evm.decode_pair if nm == "EXCHANGE" else evm.decode_single
            io = None if f(b) is not None else (0, 0)
            for k in (0, 2, 4):
                out.append((f"{nm} {b:#x}", lambda nm=nm, b=b, k=k, io=io: [I(SRC[q]) for q in range(k)] + [I(nm, data=b, gas=3, io=io)] + tail("next")))
    return out


def fam_fail():
    out = []
    for f in ("DISABLED", "UNKNOWN"):
        for nm in ("CLZ", "PUSH0", "INVALID", "MCOPY"):
            out.append((f"{nm} {f}", lambda nm=nm, f=f: [I("CALLER", gas=2), I(nm, flags=(f,), gas=9, out=0 if nm == "PUSH0" else None)] + tail("next")))
    for n in (1023, 1024, 1025, 1030):
        out.append((f"growth {n}", lambda n=n: ("head", (0, n), [I("CALLER"), I("JUMPDEST"), I("STOP")])))
        out.append((f"inputs and growth {n}", lambda n=n: ("head", (3, n), [I("ADD"), I("JUMPDEST"), I("STOP")])))
    return out


def fam_mem():
    out = []
    st = lambda off, mem=(0, 0, 0), nm="MSTORE", drop=0: [I("CALLVALUE"), push(off, drop), I(nm, ins=(off, None), mem=mem)]
    ld = lambda off, mem=(0, 0, 0), drop=0: [push(off, drop), I("MLOAD", ins=(off,), mem=mem)]
    for a, b in itertools.product((0, 31, 64, (1 << 63) - 1, 1 << 63, 1 << 70), repeat=2):
        out.append(("two accesses", lambda a=a, b=b: st(a) + ld(b) + tail("next")))
    for k, d in itertools.product((0, 31, 32, 64, 96), (0, 64)):
        out.append(("known size", lambda k=k, d=d: st(0, (0, 32, d and 32)) + ld(32, (k, 64, d)) + ld(0, (max(k, 32), 32, 0)) + [I("MSIZE")] + tail("next")))
        for nm in ("CALLDATACOPY", "MCOPY", "KECCAK256", "SLOAD", "BALANCE", "SSTORE", "LOG1", "EXTCODESIZE", "TLOAD", "SELFBALANCE", "GASPRICE"):
            n = evm.OPS[CODE[nm]].i
            out.append((f"{nm} between accesses", lambda k=k, nm=nm, n=n: st(0) + [I(SRC[q]) for q in range(n)] + [I(nm)] + ld(0, (32, 32, 0)) + st(64, (k, 96, 0)) + tail("next")))
    for nm in ("KECCAK256", "CALLDATACOPY", "RETURNDATACOPY", "CODECOPY", "MCOPY", "LOG0"):
        n = evm.OPS[CODE[nm]].i
        ins = (32, 32, 32)[:n] if nm != "LOG0" else (32, 32)
        out.append((f"{nm} within known memory", lambda nm=nm, ins=ins: st(32) + [push(v) for v in reversed(ins)] + [I(nm, ins=ins, mem=(64, 64, 0))] + ld(32, (64, 64, 0)) + tail("next")))
        out.append((f"{nm} beyond known memory", lambda nm=nm, ins=ins: st(32) + [push(v) for v in reversed(ins)] + [I(nm, ins=ins, mem=(32, 64, 0))] + ld(32, (64, 64, 0)) + tail("next")))
    for nm in ("MSTORE", "MSTORE8"):
        out.append((nm, lambda nm=nm: st(5, nm=nm) + st(6, nm=nm, drop=1) + [I("DUP1"), I("CALLER"), I(nm)] + [I("GAS"), I("MSIZE"), I(nm)] + tail("next")))
    out.append(("dynamic accesses", lambda: [I("CALLER"), I("CALLVALUE"), I("MSTORE", gas=6), I("CALLER"), I("MLOAD", gas=6), I("MSIZE"), I("MLOAD"), I("GAS")] + tail("next")))
    out.append(("dynamic access with known size", lambda: [I("CALLER"), I("MLOAD", mem=(64, 0, 0)), I("CALLVALUE"), I("MLOAD", mem=(64, 32, 0))] + tail("next")))
    return out


def fam_jump():
    """Programs with explicit targets: (instructions, multi, redirects)."""
    out = []
    J = lambda pc, **k: I("JUMPDEST", data=pc, **k)
    for op in ("JUMP", "JUMPI"):
        pre = ([I("CALLER")] if op == "JUMPI" else [])
        vals = ([], [I("CALLVALUE"), I("CALLDATASIZE"), I("ADDRESS")])
        for v in vals:
            n = len(v) + len(pre) + 1  # index of the jump
            body = lambda f, d=0, ins=(), v=v, pre=pre, op=op: [I(y.nm) for y in v] + [I(y.nm) for y in pre] + [push(4)] + [I(op, flags=f, data=d, gas=8, ins=ins)]
            rest = [J(10), I("STOP"), J(20 | 1 << 31), I("ADD"), I("STOP"), J(30), I("STOP")]
            mk_rest = lambda: [I(y.nm, data=y.data) for y in rest]
            a, b, c = n + 1, n + 3, n + 6
            out.append((f"{op} to a known target", lambda body=body, b=b, mk_rest=mk_rest: (body(("STATIC_JUMP",), b, (20,)) + mk_rest(), {}, {})))
            out.append((f"{op} to an invalid target", lambda body=body, mk_rest=mk_rest: (body(("INVALID_JUMP",), 0, (4,)) + mk_rest(), {}, {})))
            dyn = lambda f, d=0, v=v, pre=pre, op=op: [I(y.nm) for y in v] + [I(y.nm) for y in pre] + [I("GASPRICE")] + [I(op, flags=f, data=d, gas=8)]
            out.append((f"{op} to a computed target", lambda dyn=dyn, mk_rest=mk_rest: (dyn(()) + mk_rest(), {}, {})))
            out.append((f"{op} to some targets", lambda dyn=dyn, b=b, c=c, n=n, mk_rest=mk_rest: (dyn(("MULTI_JUMP",)) + mk_rest(), {n: (b, c)}, {})))
            if op == "JUMPI":
                out.append(("JUMPI that is taken", lambda body=body, b=b, mk_rest=mk_rest: (body(("STATIC_JUMP", "CONST_JUMP_CONDITION"), b, (20, 1)) + mk_rest(), {}, {})))
                out.append(("JUMPI that is not taken", lambda body=body, n=n, mk_rest=mk_rest: (body(("STATIC_JUMP", "CONST_JUMP_CONDITION"), n + 1, (20, 0)) + mk_rest(), {}, {})))
                out.append(("JUMPI taken to some targets", lambda dyn=dyn, b=b, c=c, n=n, mk_rest=mk_rest: (dyn(("MULTI_JUMP", "CONST_JUMP_CONDITION")) + mk_rest(), {n: (b, c)}, {})))
                out.append(("JUMPI taken to a computed target", lambda dyn=dyn, mk_rest=mk_rest: (dyn(("CONST_JUMP_CONDITION",)) + mk_rest(), {}, {})))
                out.append(("JUMPI taken to an invalid target", lambda body=body, mk_rest=mk_rest: (body(("INVALID_JUMP", "CONST_JUMP_CONDITION"), 0, (4, 1)) + mk_rest(), {}, {})))
            # the target block was merged into another one
            dead = lambda xs, b=b: [I(x.nm, data=x.data, flags=tuple(x.flags) + (("DEAD_CODE",) if b <= q < b + 3 else ()), gas=x.gas, ins=x.ins, out=x.out) for q, x in enumerate(xs)]
            out.append((f"{op} to a merged block", lambda body=body, b=b, c=c, mk_rest=mk_rest, dead=dead: (dead(body(("STATIC_JUMP",), b, (20,)) + mk_rest()), {}, {b: c})))
            out.append((f"{op} to some targets, one merged", lambda dyn=dyn, b=b, c=c, a=a, n=n, mk_rest=mk_rest, dead=dead: (dead(dyn(("MULTI_JUMP",)) + mk_rest()), {n: (a, b)}, {b: c})))
            dead1 = lambda xs, n=n: [I(x.nm, data=x.data, flags=tuple(x.flags) + (("DEAD_CODE",) if n < q < n + 3 else ()), gas=x.gas, ins=x.ins, out=x.out) for q, x in enumerate(xs)]
            if op == "JUMPI":
                out.append(("fallthrough into a merged block", lambda body=body, b=b, c=c, n=n, mk_rest=mk_rest, dead1=dead1: (dead1(body(("STATIC_JUMP",), b, (20,)) + mk_rest()), {}, {n + 1: c})))
    for k in (0, 1, 3):
        out.append(("plain fallthrough into a merged block", lambda k=k: ([I(SRC[q]) for q in range(k + 1)] + [I("JUMPDEST", data=9, flags=("DEAD_CODE",)), I("STOP", flags=("DEAD_CODE",)), J(30), I("STOP")], {}, {k + 1: k + 3})))
    return out


def fam_susp():
    out = []
    for nm in SUSP:
        n = evm.OPS[CODE[nm]].i
        for k in (0, 1, 2, 3):
            out.append((nm, lambda nm=nm, n=n, k=k: [I(SRC[q]) for q in range(k)] + [I(SRC[q % 7]) for q in range(n if k & 1 else 0)] + [I(nm, gas=100), I("POP"), I("CALLER"), I("STOP")]))
        out.append((f"{nm} twice", lambda nm=nm, n=n: [I(SRC[q % 7]) for q in range(n + 1)] + [I(nm, gas=100), I("ADD", gas=3), I("CREATE"), I("ISZERO"), I("STOP")]))
        out.append((f"{nm} into a block", lambda nm=nm: [I("CALLER"), I(nm), I("JUMPDEST"), I("CALLER"), I("STATICCALL"), I("JUMPDEST"), I("STOP")]))
        ins = (None, 0, 0, 0, 0, 0, 0)[:n]
        out.append((f"{nm} with constants", lambda nm=nm, n=n, ins=ins: [I("CALLER")] + [push(0, True) for _ in range(n - 1)] + [I("ADDRESS"), I(nm, ins=ins), I("STOP")]))
    return out


def fam_across():
    """What one section leaves behind (cached memory base, stored length, values) must not reach the next one."""
    out = []
    st = lambda off, mem=(0, 0, 0): [I("CALLVALUE"), push(off), I("MSTORE", ins=(off, None), mem=mem)]
    ld = lambda off, mem=(0, 0, 0): [push(off), I("MLOAD", ins=(off,), mem=mem)]
    for known in (0, 32, 64):
        nxt = lambda known=known: ld(0, (known, 32, 0)) + [I("POP")] + st(32, (known, 64, 0)) + tail("next")
        out.append(("memory access in the next block", lambda nxt=nxt: (st(0) + [I("JUMPDEST", data=30)] + nxt(), {}, {})))
        out.append(("memory access after a branch", lambda nxt=nxt: (st(0) + [I("CALLER"), I("GASPRICE"), I("JUMPI")] + nxt() + [I("JUMPDEST", data=50)] + nxt(), {}, {})))
        for nm in SUSP:
            n = evm.OPS[CODE[nm]].i
            # no memory operands, or operands inside memory already there
            ins = {"CREATE": (None, 0, 32), "CREATE2": (None, 0, 32, None), "CALL": (None, None, None, 0, 32, 0, 32), "CALLCODE": (None, None, None, 0, 32, 0, 32)}.get(nm, (None, None, 0, 32, 0, 32))
            out.append((f"memory access after {nm}", lambda nxt=nxt, nm=nm, ins=ins: (st(0) + [push(v) if v is not None else I("CALLER") for v in reversed(ins)] + [I(nm, ins=ins, mem=(32, 32, 0))] + nxt(), {}, {})))
    one = {1: ("CALLER", "MSIZE", "DUP2", "GAS"), -1: ("POP", "ADD", "SSTORE", "LT"), 0: ("ISZERO", "SWAP1", "JUMPDEST", "SLOAD"), -2: ("ADDMOD", "MSTORE")}
    for d, nms in one.items():
        for nm in nms:
            for e in (d - 1, d, d + 1):
                # the first section ends `e` words up or down
                pad = lambda e: [I("CALLER") for _ in range(e)] if e > 0 else [I("POP") for _ in range(-e)]
                out.append(("length at a new block", lambda nm=nm, e=e, pad=pad: ([I("CALLER"), I("POP")] + pad(e) + [I("JUMPDEST", data=30), I("JUMPDEST", data=31), I(nm)] + tail("next"), {}, {})))
                for s_ in ("CREATE", "CALL", "STATICCALL"):
                    n = evm.OPS[CODE[s_]].i
                    out.append((f"length after {s_}", lambda nm=nm, e=e, s_=s_, n=n, pad=pad: ([I("CALLER") for _ in range(n - 1 + e)] + [I(s_), I(nm)] + tail("next") if n - 1 + e > 0 else [I(s_), I(nm)] + tail("next"), {}, {})))
                out.append(("length after a branch not taken", lambda nm=nm, e=e: ([I("CALLER") for _ in range(max(e + 2, 0))] + [I("JUMPI"), I(nm)] + tail("next"), {}, {})))
    for s_ in SUSP:
        n = evm.OPS[CODE[s_]].i
        for k in (0, n):
            out.append((f"{s_} before a merged block", lambda s_=s_, k=k: ([I("CALLER") for _ in range(k)] + [I(s_), I("JUMPDEST", data=9, flags=("DEAD_CODE",)), I("STOP", flags=("DEAD_CODE",)), I("JUMPDEST", data=30), I("CALLER"), I("STOP")], {}, {k + 1: k + 3})))

    def places(f):
        p, multi, red = f()
        for k, x in enumerate(p):
            if x.nm == "JUMPDEST":
                x.data = 10 + 3 * k
        return p, multi, red
    return [(w, lambda f=f: places(f)) for w, f in out]


RND = "ADD SUB MUL DIV MOD LT EQ ISZERO AND XOR SHL BYTE SIGNEXTEND EXP ADDMOD KECCAK256 CALLER CALLVALUE CALLDATALOAD TIMESTAMP ORIGIN MLOAD MSTORE MSTORE8 SLOAD SSTORE MSIZE GAS PC POP POP BALANCE MCOPY LOG1 CALLDATACOPY SELFBALANCE".split()


def fam_random(n, seed=7):
    """Random straight-line sections; constants and dropped producers follow from the instructions."""
    import random
    rnd = random.Random(seed)
    out = []
    while len(out) < n:
        L = rnd.randint(3, 12)
        ks, p = [], []

        def known(d):
            return ks[-1 - d] if d < len(ks) else None
        for _ in range(L):
            w = rnd.random()
            gas = rnd.choice((0, 0, 0, 0, 3, 11, 70000, (1 << 31) + 9))
            if w < .22:
                v = rnd.choice(VALS)
                p.append(push(v))
                p[-1].gas = gas
                ks.append(v)
                continue
            if w < .34:
                d = rnd.randint(1, 6)
                p.append(I(f"DUP{d}", gas=gas, ins=tuple(known(q) for q in range(d)), out=known(d - 1)))
                ks.append(known(d - 1))
                continue
            if w < .48:
                d = rnd.randint(1, 6)
                while len(ks) < d + 1:
                    ks.insert(0, None)
                p.append(I(f"SWAP{d}", gas=gas, ins=tuple(known(q) for q in range(d + 1))))
                ks[-1], ks[-1 - d] = ks[-1 - d], ks[-1]
                continue
            nm = rnd.choice(RND)
            i, o = evm.OPS[CODE[nm]].i, evm.OPS[CODE[nm]].o
            ins = tuple(known(q) for q in range(i))
            r = None
            if nm in PURE and None not in ins and ins:
                r = REF[nm](*ins)
            p.append(I(nm, gas=gas, ins=ins, out=r, data=3 if nm == "PC" else 0))
            for _ in range(i):
                if ks:
                    ks.pop()
            ks += [r] * o
        # drop some producers of constants
        for x in p:
            if x.out is not None and rnd.random() < .35:
                x.flags = ("NOOP",)
        t = rnd.choice(("next", "next", "stop", "ret", "susp"))
        p += {"susp": [I("CALL", ins=tuple(known(q) for q in range(7))), I("STOP")]}.get(t) or ([I("RETURN", ins=(known(0), known(1)))] if t == "ret" else tail(t))
        out.append((f"section {len(out)}", lambda p=p: p))
    return out


def fam_mixed(n, seed=23):
    """Random programs of several sections: jumps of every kind, suspensions, fallthrough, halts."""
    import random
    rnd = random.Random(seed)
    out = []
    simple = "CALLER CALLVALUE ADD ISZERO POP DUP1 SWAP1 DUP3 SWAP2 MSIZE SLOAD TIMESTAMP GAS MLOAD PUSH1 PUSH1 JUMPDEST".split()
    while len(out) < n:
        p, multi = [], {}
        for _ in range(rnd.randint(2, 5)):
            p.append(I("JUMPDEST", data=100 + 3 * len(p), gas=1))
            for _ in range(rnd.randint(0, 5)):
                nm = rnd.choice(simple)
                p.append(push(rnd.choice((0, 7, 1 << 70))) if nm == "PUSH1" else I(nm, data=100 + 3 * len(p) if nm == "JUMPDEST" else 0, gas=rnd.choice((0, 0, 2))))
            t = rnd.choice(("", "JUMP", "JUMPI", "JUMPI", "SUSP", "SUSP", "STOP", "RETURN", "SELFDESTRUCT", "INVALID", "REVERT"))
            if t == "SUSP":
                p.append(I(rnd.choice(SUSP), gas=rnd.choice((0, 700))))
            elif t:
                p.append(I(t, gas=rnd.choice((0, 8))))
        p.append(I("JUMPDEST", data=100 + 3 * len(p)))
        p.append(I("STOP"))
        dests = [k for k, x in enumerate(p) if x.nm == "JUMPDEST"]
        for k, x in enumerate(p):
            if x.nm in ("JUMP", "JUMPI"):
                w = rnd.random()
                c = ("CONST_JUMP_CONDITION",) if x.nm == "JUMPI" and rnd.random() < .2 else ()
                if w < .3:
                    x.flags, x.data = ("STATIC_JUMP",) + c, rnd.choice(dests)
                elif w < .45:
                    x.flags = ("INVALID_JUMP",) + c
                elif w < .7:
                    x.flags = ("MULTI_JUMP",) + c
                    multi[k] = tuple(rnd.sample(dests, min(len(dests), rnd.randint(2, 3))))
                else:
                    x.flags = c
        out.append((f"program {len(out)}", lambda p=p, multi=multi: (p, multi, {})))
    return out


def run_one(cx, rep, it):
    (what, mkp), cfg = it
    x = mkp()
    multi = redirects = ()
    if isinstance(x, tuple) and x[0] == "head":
        p = heads(x[2])
        p[0].head = x[1]
    elif isinstance(x, tuple):
        p, multi, redirects = x
        heads(p)
    else:
        p = heads(x)
    program(cx, rep, what, P(p, multi, redirects), **cfg)


CFGS = [dict(inspect_stack=0, single_error=1), dict(inspect_stack=1, single_error=0)]


def drive(prog, rep, fams, both, extra):
    cx = Ctx(prog)
    jobs = [(x, dict(CFGS[k])) for n, f in fams.items() for q, x in enumerate(f) for k in ((0, 1) if n in both else ((q + q // 7) % 2,))]
    for n, f in fams.items():
        rep.floor(f"programs of family {n}", len(f), 10)
    for x in extra:
        for cfg in (dict(inspect_stack=0, single_error=0), dict(gas_metering=0), dict(stack_bound_checks=0, debug_assertions=1), dict(inspect_stack=1, debug_assertions=1, debug=0)):
            jobs.append((x, cfg))
    par.pmap(rep, lambda rep, k: [run_one(cx, rep, j) for j in jobs[k:k + 12]], range(0, len(jobs), 12))


def straight(prog, rep):
    """Every section's code does what the EVM does."""
    fams = dict(each=fam_each(), shuffle=fam_shuffle(), fail=fam_fail(), memory=fam_mem(), across=fam_across(), random=fam_random(700))
    drive(prog, rep, fams, ("shuffle", "fail", "memory", "across"), fams["fail"] + fams["memory"][:12] + fams["random"][:30])


def control(prog, rep):
    """Control goes where the EVM's goes: entry, jumps, halts, suspension and resumption."""
    fams = dict(jump=fam_jump(), suspend=fam_susp(), across=fam_across(), mixed=fam_mixed(400))
    drive(prog, rep, fams, ("jump", "suspend", "across"), fams["jump"] + fams["suspend"] + fams["mixed"][:40])
