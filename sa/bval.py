"""Runtime-library entry points: the effect summary extracted from the MIR (path condition, ordered effects, exit; every path, operands
symbolic) compared with the reference EVM operation, pointwise on a boundary grid of operands, gas, fork and host answers.

Nothing of /repo is executed; what is evaluated are the extracted terms (see teval). How the code is written (order of pure
steps, `if` or `match` or `min`, helpers) does not matter, only which effects with which values a path has."""
import gzip
import hashlib
import itertools
import json
import multiprocessing as mp
import os
import random
import time

import mirlib as m
import shapes
from btrace import Path, TraceHooks, builtins, m_proj, self_ty
from terms import T, K, is_k, mk, show, leaves, subterms
from teval import Evaluator, M256, Some, U, Unk, V

MAX = 2**64 - 1
AMASK = 2**160 - 1
HUGE = 1 << 50          # no memory of this size can be paid for


# ------------------------------------------------------------------------------------------------ extraction
class VHooks(TraceHooks):
    def __init__(self):
        super().__init__()
        self.models = dict(shapes.Iters().models())
        self.vec = shapes.vec_calls()

    def on_call(self, eng, st, fr, short, fn, args, site):
        if short in ("Gas::remaining", "Gas::reservoir") and len(args) == 1:
            if show(args[0]) != "&*arg1.gas":
                return mk("othergas", short)
            h = [x for x in st.flags if x[0] in ("charge", "expand", "gas")]
            return mk("gasv", short, *[mk("ge", x[0], x[1] if isinstance(x[1], str) else "", x[2]) if x[0] != "expand" else mk("ge", "expand", x[1], x[2]) for x in h])
        if short.endswith("index_mut") and len(args) == 2 and args[1].op == "adt" and args[1].a[2].startswith("Range") and args[0].op == "ref":
            return mk("imut", args[0], eng.snap(st, args[1]))
        if short.endswith("::default") and not args and any(x in self_ty(fn) for x in ("FixedBytes", "Uint<", "Address", "u64", "usize", "u8")):
            return K(0)
        if not short.endswith(("copy_from_slice", "clone_from_slice")) and any(s.op == "imut" for x in args for s in subterms(x)):
            raise m.Limit(f"{short} on part of an array")
        if short.endswith("::resize_memory"):
            sn = [eng.snap(st, a) for a in args]
            span = eng.cur_span
            eng.havoc(st, short, site, args[:2], ["&mut", "&mut"])
            e = mk("call", short, site, *sn)
            return self.fork(eng, st, fr, ("expand", sn[3], sn[4], tuple(show(x) for x in sn[:3]), span), ("expand_fail", sn[3], sn[4], tuple(show(x) for x in sn[:3]), span),
                             m.ok(m.UNIT), m.err(m_proj(eng, e)))
        if short.endswith("::copy_from_slice") and len(args) == 2 and "Bytes" not in short or short.endswith("::clone_from_slice"):
            r = self.copy_into(eng, st, fr, args)
            if r is not None:
                return r
        r = super().on_call(eng, st, fr, short, fn, args, site)
        if r is None and short in self.vec:
            r = self.vec[short](eng, st, fr, args, site)
        return r

    def copy_into(self, eng, st, fr, args):
        """dst[a..b].copy_from_slice(src) on a local byte array."""
        d = args[0]
        lo, hi = K(0), None
        while True:
            while d.op in ("rv",):
                d = d.a[0]
            if d.op == "ref" and d.a[0].op == "D" and d.a[0].a[0].op == "imut" and not d.a[1]:
                d = d.a[0].a[0]
            if d.op == "imut":
                i = d.a[1]
                lo = dict(zip(i.a[3], i.a[4:])).get("start", K(0))
                d = d.a[0]
                continue
            if d.op == "call" and d.a[0].split("::")[-1] in ("index_mut", "deref_mut", "as_mut", "as_mut_slice", "get_unchecked_mut"):
                if d.a[0].endswith("index_mut"):
                    i = d.a[3]
                    while i.op == "rv":
                        i = i.a[0]
                    if i.op != "adt":
                        return None
                    f = dict(zip(i.a[3], i.a[4:]))
                    if i.a[2] not in ("Range", "RangeTo", "RangeFrom", "RangeFull"):
                        return None
                    lo = f.get("start", K(0))
                d = d.a[2]
                continue
            break
        if d.op != "ref":
            return None
        root, proj = d.a[0], d.a[1]
        if root.op == "D" and root.a[0].op == "arg":
            return None
        old = eng.read(st, root, proj)
        eng.write(st, root, proj, mk("blit", eng.snap(st, old), eng.snap(st, lo), eng.snap(st, args[1])))
        return m.UNIT


def extract(prog, body, consts):
    h = VHooks()
    e = m.Engine(prog, h, max_part=6000, max_steps=120000, exact=True)
    e.run(body, args=consts, flags=())
    return h.paths, e


# ------------------------------------------------------------------------------------------------ evaluation
def rnd(*key, lo=0, hi=2**256):
    return lo + int.from_bytes(hashlib.sha512(repr(key).encode()).digest(), "big") % (hi - lo)


BOOL_F = {"is_cold", "is_empty", "had_value", "target_exists", "previously_destroyed", "is_new_account", "is_delegate_account_cold"}
IDENT = {"as_ref", "deref", "unwrap", "expect", "borrow", "clone", "to_vec", "into_word", "copy_from_slice", "into", "from", "as_slice",
         "as_bytes", "to_owned", "as_bytes_memory", "bytes", "original_bytes", "original_byte_slice", "bytes_slice", "bytes_ref", "as_mut", "deref_mut", "into_bytes", "cloned", "copied", "into_vec", "as_deref", "new_raw", "as_ptr",
         "into_boxed_slice", "to_u256", "unwrap_unchecked", "as_mut_slice", "as_mut_ptr", "cast_mut", "cast", "iter", "borrow_mut", "into_inner", "to_bytes", "with_bytes"}
RESULTS = {"load_account_info_skip_cold_load", "sload_skip_cold_load", "sstore_skip_cold_load", "selfdestruct", "load_account_delegated"}
OPTIONS = {"balance", "block_hash", "sload", "sstore", "blob_hash", "prevrandao"}
U64_ENV = {"slot_num"}


class Infeasible(Exception):
    pass


def gp(name, args, v):
    if name == "call_stipend_reduction":
        return int(args[0]) - int(args[0]) // 64
    k = v.d.get("gp:" + name)
    if k is not None:
        return k
    return rnd("gp", name, tuple(canon(x) for x in args), lo=60, hi=4000)


def canon(x):
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return int(x)
    if isinstance(x, Some):
        return ("Some", canon(x.v))
    if isinstance(x, tuple):
        if x and x[0] == "H":
            return ("H", x[1], x[-1]) if len(x) > 2 else x
        return tuple(canon(y) for y in x)
    return x


class Val:
    """One assignment: operands, host answers, fork, gas."""

    def __init__(self, d):
        self.d = d
        self.words = {}
        self.args = {}
        self.flags = d.get("flags", frozenset())
        self.spec = d["spec"]
        self.G0 = None
        self.R0 = d.get("R0", 0)

    def host(self, name, args=()):
        """Answer of a host method."""
        if name in ("blob_hash", "tload", "block_hash"):
            return None if self.d.get("host:" + name) else U(rnd("host", name, args)) if name == "tload" else Some(U(rnd("host", name, args)))
        k = self.d.get("host:" + name)
        if name in RESULTS:
            return V(("Err", k - 1)) if k else V(("Ok", ("H", name)))
        if name in OPTIONS:
            return None if k else Some(self.hostval(name))
        if name == "is_amsterdam_eip8037_enabled":
            return self.d.get("amsterdam", 0)
        if name == "max_initcode_size":
            return self.d.get("initmax", 49152)
        if name == "block_number":
            return U(self.d.get("bn", 1000))
        return self.hostval(name)

    def hostval(self, name):
        if name in ("balance", "sload", "sstore"):
            return ("H", name)
        if name in ("caller", "beneficiary"):
            return U(rnd("host", name, hi=2**160))
        return U(rnd("host", name))

    def field(self, name, path):
        f = path[-1]
        if f in BOOL_F:
            return self.d.get(f, 0)
        if name == "load_account_delegated":
            if f == "0":
                return rnd("delegated gas", lo=100, hi=9000)
            if f == "1":
                return self.d.get("stategas", 0)
        return None

    def length(self, src):
        s = src
        if isinstance(s, tuple) and s:
            if s[0] == "empty":
                return 0
            if s[0] == "mem":
                return s[2]
            if s[0] == "sub":
                return s[3]
            if s == ("ecx", "return_data") or s[:2] == ("ecx", "return_data"):
                return self.d.get("rdlen", 100)
            if s[:3] == ("ecx", "input", "input"):
                return self.d.get("inlen", 68)
            if s[:2] == ("ecx", "bytecode"):
                return self.d.get("codelen", 700)
            if s[0] == "H" and s[-1] == "code":
                return self.d.get("extlen", 333)
        raise Unk(f"length of {str(s)[:60]}")


class BEval(Evaluator):
    def __init__(self, prog, v, adisc):
        super().__init__({}, None, None)
        self.prog, self.v, self.adisc = prog, v, adisc

    def word_at(self, arg, off):
        w = self.v.words.get((arg, off))
        if w is None:
            raise Unk(f"reads stack word {off} of argument {arg}, which is no operand")
        return w

    def load(self, x):
        if isinstance(x, tuple) and x and x[0] == "ptr":
            return self.word_at(x[1], x[2])
        return x

    def project(self, b, f):
        if f == "limbs" and isinstance(b, int):
            return tuple((int(b) >> (64 * i)) & MAX for i in range(4))
        if isinstance(b, tuple) and b:
            if b[0] == "ecx":
                p = b + (f,)
                if p == ("ecx", "is_static"):
                    return self.v.d.get("static", 0)
                if p == ("ecx", "spec_id"):
                    return self.v.spec
                if p == ("ecx", "on_log"):
                    return Some(("observer",)) if self.v.d.get("on_log") else None
                if p[:2] == ("ecx", "input") and len(p) == 3 and f in ("target_address", "caller_address", "bytecode_address"):
                    return U(rnd("input", f, hi=2**160))
                if p == ("ecx", "input", "call_value"):
                    return U(rnd("input", f))
                return p
            if b[0] == "H":
                if f in ("0", "account", "state", "info") and b[1] != "load_account_delegated":
                    return b
                p = b + (f,)
                x = self.v.field(b[1], p[2:])
                return p if x is None else x
            if b[0] in ("mem", "sub", "empty", "keccak", "newcreate", "E"):
                if f in ("0",):
                    return b
            if b[0] == "S":
                for n, x in b[2:]:
                    if n == f:
                        return x
        if isinstance(b, Some) and f == "0":
            return b.v
        if isinstance(b, V) and f.isdigit():
            return b[1 + int(f)]
        if isinstance(b, tuple) and f.isdigit() and int(f) < len(b) and not (b and isinstance(b[0], str)):
            return b[int(f)]
        if isinstance(b, (U,)) and f == "0":
            return b
        if isinstance(b, int) and f in ("0", "1"):
            return b if f == "0" else 0
        raise Unk(f"field {f} of {str(b)[:60]}")

    def rangeof(self, r, n):
        if isinstance(r, tuple) and r and r[0] == "S":
            d = dict(r[2:])
            k = r[1]
            if k == "Range":
                return d["start"], d["end"]
            if k == "RangeFrom":
                return d["start"], n()
            if k in ("RangeTo",):
                return 0, d["end"]
            if k == "RangeToInclusive":
                return 0, d["end"] + 1
            if k == "RangeFull":
                return 0, n()
            if k == "RangeInclusive":
                return d["start"], d["end"] + 1
        raise Unk(f"range {str(r)[:60]}")

    def sub(self, s, a, b):
        if not 0 <= a <= b:
            raise Infeasible()
        if isinstance(s, tuple) and s and s[0] == "sub":
            if b > s[3]:
                raise Infeasible()
            return self.sub(s[1], s[2] + a, s[2] + b)
        if isinstance(s, tuple) and s and s[0] == "mem":
            return ("mem", s[1] + a, b - a) if b > a else ("empty",)
        n = self.v.length(s)
        if b > n:
            raise Infeasible()   # out of bounds: the code would abort
        if b == a:
            return ("empty",)
        return ("sub", s, a, b - a)

    def gasv(self, t):
        g, r = self.v.G0, self.v.R0
        for x in t.a[1:]:
            k = x.a[0]
            if k == "expand":
                g -= excost(self.ev(x.a[1]), self.ev(x.a[2]))
            elif k == "charge":
                g, r = pay(x.a[1], self.ev(x.a[2]), g, r)
                if g is None:
                    raise Infeasible()
            elif k == "gas" and x.a[1].endswith("refill_reservoir"):
                r += self.ev(x.a[2])
            elif k == "gas" and x.a[1].endswith("record_refund"):
                pass
            elif k == "gas":
                raise Unk(f"gas operation {x.a[1]}")
        return max(g, 0) if t.a[0].endswith("remaining") else r

    def _ev(self, t):
        o, a, ev = t.op, t.a, self.ev
        if o == "arg":
            if a[0] in self.v.args:
                return self.v.args[a[0]]
            return ("ptr", a[0], 0)
        if o == "gasv":
            return self.gasv(t)
        if o == "padd":
            p, k = ev(a[0]), ev(a[1]) * (a[2] if len(a) > 2 else 1)
            if isinstance(p, tuple) and p and p[0] == "ptr":
                return ("ptr", p[1], p[2] + k)
            if isinstance(p, tuple) and p and p[0] == "bp":
                return ("bp", p[1], p[2] + k)
            return ("bp", p, k)
        if o in ("deref", "D"):
            return self.load(ev(a[0]))
        if o == "ref":
            b = self.load(ev(a[0])) if a[0].op != "D" else self.ref_root(a[0])
            for p in a[1]:
                if p[0] == "f":
                    b = self.project(self.load(b) if b.__class__ is tuple and b and b[0] == "ptr" else b, p[1])
                elif p[0] == "i":
                    i = ev(p[1]) if p[1].__class__ is T else p[1]
                    b = ("ptr", b[1], b[2] + i) if isinstance(b, tuple) and b and b[0] == "ptr" else b[i]
                elif p[0] in ("v", "d"):
                    pass
            return b
        if o == "mut":
            base = ev(a[2])
            if base == ("ecx", "gas"):
                return ("ecx", "gas", 1)
            if isinstance(base, tuple) and base[:2] == ("ecx", "gas"):
                return ("ecx", "gas", base[2] + 1)
            return base
        if o == "fld":
            return self.project(ev(a[0]), a[1])
        if o == "var":
            return ev(a[0])
        if o == "discr":
            v = ev(a[0])
            if isinstance(v, tuple) and v and not isinstance(v, V):
                if v[0] == "H" and v[-1] == "code":
                    return 1
                if v == ("ecx", "input", "input"):
                    return self.adisc["CallInput"]["Bytes" if self.v.d.get("inbytes") else "SharedBuffer"]
                if v[0] == "E":
                    d = self.adisc.get(v[1], {}).get(v[2])
                    if d is not None:
                        return d
                if v[0] in ("mem", "sub", "empty"):
                    raise Unk(f"discriminant of {v[0]}")
            if isinstance(v, V) and v[0] == "Err" or isinstance(v, V) and v[0] == "Ok":
                return 0 if v[0] == "Ok" else 1
            if isinstance(v, int) and not isinstance(v, U):
                return v
            if v is None or isinstance(v, Some):
                return 0 if v is None else 1
            raise Unk(f"discriminant of {str(v)[:60]}")
        if o == "addr":
            return U(ev(a[0]) & AMASK)
        if o in ("w:from_be_bytes", "w:to_be_bytes", "conv"):
            return ev(a[-1])
        if o == "bytes":
            return U(int(a[0], 16)) if isinstance(a[0], str) and len(a[0]) == 64 else ("bytes", a[0])
        if o == "default":
            return 0
        if o == "len":
            x = ev(a[0])
            if isinstance(x, tuple) and x and x[0] == "call":
                raise Unk("length")
            return self.v.length(x)
        if o == "copied":
            return self.blit(ev(a[2]), 0, ev(a[0]), ev(a[1]))
        if o == "blit":
            s = ev(a[2])
            return self.blit(ev(a[0]), ev(a[1]), s, self.v.length(s))
        if o == "adt":
            return self.adt(t)
        if o == "call":
            return self.bcall(a[0], a[2:], t)
        if o == "tuple":
            return tuple(ev(x) for x in a)
        if o == "idx":
            b, i = ev(a[0]), ev(a[1])
            if isinstance(b, tuple) and isinstance(i, int) and b and not isinstance(b[0], str) and 0 <= i < len(b):
                return b[i]
            if isinstance(b, tuple) and b and b[0] == "ptr":
                return self.word_at(b[1], b[2] + i)
            raise Unk(f"index {show(t)[:80]}")
        if o in ("lt", "eq", "le", "gt", "ge", "ne"):
            x, y = ev(a[0]), ev(a[1])
            if o in ("eq", "ne"):
                x, y = canon(x), canon(y)
                if isinstance(x, int) != isinstance(y, int):
                    raise Unk(f"compares {str(x)[:40]} with {str(y)[:40]}")
                return int((x == y) == (o == "eq"))
            if not (isinstance(x, int) and isinstance(y, int)):
                raise Unk(f"compares {str(x)[:40]} with {str(y)[:40]}")
        if o == "cast":
            v = ev(a[1])
            if isinstance(v, tuple) and v and v[0] == "E":
                return self.adisc.get(v[1], {}).get(v[2], v)
        return super()._ev(t)

    def ref_root(self, d):
        return self.ev(d.a[0])

    def blit(self, old, at, src, n):
        if n == 0:
            return old
        if at == 0 and isinstance(src, tuple) and src[0] == "bp":
            src = ("sub", src[1], src[2], n)
        elif at == 0 and isinstance(src, tuple) and src[0] != "sub":
            src = ("sub", src, 0, n)
        if at == 0 and isinstance(src, tuple) and src[0] == "sub" and old == 0:
            return ("padded", src[1], src[2], n)
        raise Unk("byte copy")

    def adt(self, t):
        a = t.a
        ty, var = a[0].split("::")[-1], a[2]
        if var == "None" and ty == "Option":
            return None
        if ty == "Option":
            return Some(self.ev(a[4]))
        if ty == "Result":
            return V((var, self.ev(a[4])))
        if ty == "SpecId":
            return self.adisc["SpecId"][var]
        if ty == "Ordering":
            return {"Less": -1, "Equal": 0, "Greater": 1}[var]
        if len(a) == 4:
            return ("E", ty, var) if not ty.startswith("Range") else ("S", var)
        f = tuple(sorted((n, self.ev(x)) for n, x in zip(a[3], a[4:])))
        if ty == "BuiltinError" or ty == "NonZero":
            return f[0][1]
        return ("S", var) + f

    def bcall(self, name, args, t):
        ev = self.ev
        ty, f = name.split("::")[-2] if "::" in name else "", name.split("::")[-1]
        if ty == "GasParams":
            return gp(f, [ev(x) for x in args[1:]], self.v)
        if ty == "Host" or f == "load_account_delegated":
            return self.v.host(f, tuple(canon(ev(x)) for x in args[1:]) if f in ("blob_hash", "tload", "block_hash") else ())
        if name == "SpecId::is_enabled_in":
            return int(ev(args[0]) >= ev(args[1]))
        if ty in ("MemoryTr", "SharedMemory", "MemoryExtTr"):
            x = [ev(y) for y in args[1:]]
            if f == "slice":
                lo, hi = self.rangeof(x[0], lambda: (_ for _ in ()).throw(Unk("open memory range")))
                return ("mem", lo, hi - lo) if hi != lo else ("empty",)
            if f == "slice_len":
                return ("mem", x[0], x[1]) if x[1] else ("empty",)
            if f == "local_memory_offset":
                return 4096
            return ("memcall", f) + tuple(x)
        if f == "keccak256":
            x = ev(args[0])
            return U(0xc5d2460186f7233c927e7db2dcc703c0e500b653ca82273b7bfad8045d85a470) if x == ("empty",) else ("keccak", x)
        if name in ("InputsTr::input",):
            return ("ecx", "input", "input")
        if ty == "InputsTr":
            g = {"target_address": "target_address", "caller_address": "caller_address", "call_value": "call_value", "bytecode_address": "bytecode_address"}.get(f)
            if g:
                return self.project(("ecx", "input"), g)
        if f in ("len", "length", "size") and len(args) == 1:
            return self.v.length(ev(args[0]))
        if f == "is_empty" and len(args) == 1:
            return int(self.v.length(ev(args[0])) == 0)
        if f in ("index", "get_unchecked", "slice", "slice_unchecked") and len(args) == 2:
            s = ev(args[0])
            lo, hi = self.rangeof(ev(args[1]), lambda: self.v.length(s))
            return self.sub(s, lo, hi)
        if f == "get" and len(args) == 2:
            s = ev(args[0])
            try:
                lo, hi = self.rangeof(ev(args[1]), lambda: self.v.length(s))
                return Some(self.sub(s, lo, hi))
            except Infeasible:
                return None
        if f in ("new", "default") and ty in ("Bytes", "Vec", "Default") and not args:
            return ("empty",)
        if name == "CreateInputs::new":
            return ("newcreate",) + tuple(ev(x) for x in args)
        if name == "InterpreterResult::new":
            x = [ev(y) for y in args]
            return ("S", "InterpreterResult", ("gas", x[2]), ("output", x[1]), ("result", x[0]))
        if name.startswith("LogData::new"):
            x = [ev(y) for y in args]
            d = ("logdata", x[0], x[1])
            return Some(d) if f == "new" else d
        if name == "Log::new":
            x = [ev(y) for y in args]
            return Some(("S", "Log", ("address", x[0]), ("data", ("logdata", x[1], x[2]))))
        if f in ("try_from", "try_into") and len(args) == 1:
            x = ev(args[0])
            return V(("Ok", int(x))) if 0 <= x <= MAX else V(("Err", None))
        if f in ("unwrap_or_default", "unwrap_or", "unwrap_or_else", "map_or"):
            raise Unk(f"call {name}")
        if f in IDENT and len(args) >= 1 and (ty not in ("Uint",) or f in ("from", "into", "clone")):
            x = ev(args[0])
            if f in ("unwrap", "expect"):
                if x is None:
                    raise Infeasible()
                if isinstance(x, V):
                    if x[0] == "Err":
                        raise Infeasible()
                    return x[1]
            if isinstance(x, Some) and f not in ("as_ref", "clone", "cloned", "copied", "as_deref", "as_mut", "into", "from"):
                return x.v
            if isinstance(x, int) and not isinstance(x, U) and f in ("from", "into", "to_u256") and (ty in ("Uint", "From", "Into")):
                return U(x)
            if f in ("slice",):
                raise Unk(name)
            return x
        if f == "saturating_to" or f == "saturating_from":
            return min(int(ev(args[0])), MAX)
        if f in ("as_limbs", "into_limbs"):
            x = int(ev(args[0]))
            return tuple((x >> (64 * i)) & MAX for i in range(4))
        if f in ("is_zero",):
            x = ev(args[0])
            if isinstance(x, int):
                return int(x == 0)
        if f == "to":
            x = ev(args[0])
            if x > MAX:
                raise Infeasible()
            return int(x)
        v = [ev(x) for x in args]
        if all(isinstance(x, (int, Some)) or x is None or isinstance(x, tuple) for x in v):
            return self.call(name, v)
        raise Unk(f"call {name}")


def excost(off, ln):
    return 90 if min(off + ln, MAX) > 0 else 0


def pay(kind, amt, g, r):
    if kind == "state":
        if r >= amt:
            return g, r - amt
        amt -= r
        r = 0
    return (g - amt, r) if g >= amt else (None, None)


# ------------------------------------------------------------------------------------------------ canonical effects of a path
ENV_READS = {"basefee", "blob_gasprice", "gas_limit", "difficulty", "prevrandao", "block_number", "timestamp", "beneficiary",
             "chain_id", "effective_gas_price", "caller", "blob_hash", "max_initcode_size", "slot_num", "gas_params",
             "is_amsterdam_eip8037_enabled"}
MEM_READS = {"len", "is_empty", "local_memory_offset", "context_memory_mut", "context_memory", "size"}


def effects(p, ev, v, operands):
    """Effects of path p under the assignment, or None when the path is not taken."""
    out = []
    g, r = v.G0, v.R0
    slots, action, refunds, muts = {}, None, 0, 0
    for e in p.events:
        k = e[0]
        if k in ("charge", "charge_fail"):
            if e[3] != "&*arg1.gas":
                out.append(("charge to another counter", e[3]))
                continue
            amt = ev.ev(e[2])
            if not isinstance(amt, int):
                raise Unk("amount charged")
            g2, r2 = pay(e[1], amt, g, r)
            if (g2 is None) != (k == "charge_fail"):
                return None
            if k == "charge" and amt:
                out.append(("charge", e[1], int(amt)))
            if k == "charge_fail":
                out.append(("cannot pay", e[1], int(amt)))
                continue
            g, r = g2, r2
        elif k == "expand":
            off, ln = ev.ev(e[1]), ev.ev(e[2])
            end = min(off + ln, MAX)
            if e[3] != ("&*arg1.gas", "&**arg1.memory", "&*arg1.gas_params"):
                out.append(("growth charged elsewhere",) + e[3])
                continue
            if end > HUGE or g < excost(off, ln):
                return None
            g -= excost(off, ln)
            if end:
                out.append(("grow", int(end)))
        elif k == "expand_fail":
            off, ln = ev.ev(e[1]), ev.ev(e[2])
            if e[3] != ("&*arg1.gas", "&**arg1.memory", "&*arg1.gas_params"):
                out.append(("growth charged elsewhere",) + e[3])
                continue
            if not (min(off + ln, MAX) > HUGE or g < excost(off, ln)):
                return None
            out.append(("cannot grow",))
        elif k == "host":
            if e[1] in ENV_READS:
                continue
            args = tuple(canon(ev.ev(x)) for x in e[2][1:]) if e[1] != "load_account_delegated" else tuple(canon(ev.ev(x)) for x in e[2][1:])
            out.append(("host", e[1]) + args)
        elif k == "mem":
            if e[1] in MEM_READS:
                continue
            x = [ev.ev(y) for y in e[2][1:]]
            if e[1] in ("slice", "slice_len"):
                s = ev.bcall("MemoryTr::" + e[1], e[2], None)
                if s != ("empty",) and (not out or out[-1] != ("read",) + s[1:]):
                    out.append(("read",) + s[1:])
            elif e[1] == "set":
                n = v.length(x[1])
                if n:
                    src = x[1] if x[1][0] == "sub" else ("sub", x[1], 0, n)
                    out.append(("write", x[0], n, canon(src[1]), src[2]))
            elif e[1] == "set_data":
                if x[2]:
                    src, base = (x[3][1], x[3][2]) if x[3][0] == "sub" else (x[3], 0)
                    out.append(("write", x[0], x[2], canon(src), base + min(x[1], v.length(x[3]))))
            elif e[1] == "set_data_from_global":
                if x[2]:
                    out.append(("write", x[0], x[2], canon(x[3])[:3], min(x[1], v.length(x[3]))))
            elif e[1] == "copy":
                if x[2]:
                    out.append(("copy",) + tuple(x))
            else:
                out.append(("memory", e[1]) + tuple(canon(y) for y in x))
        elif k == "gas":
            amt = ev.ev(e[2])
            if amt == 0:
                continue
            if e[1].endswith("refill_reservoir"):
                r += amt
            out.append(("gas", e[1].split("::")[-1], canon(amt)))
        elif k == "store":
            if e[2] in (("exit_result",), ("mem_base",), ("mem_len",)):
                continue
            loc = ev.ev(e[1])
            if isinstance(loc, tuple) and loc and loc[0] == "ptr" and not e[2]:
                if (loc[1], loc[2]) not in v.words:
                    out.append(("writes stack word", loc[1], loc[2]))
                else:
                    slots[(loc[1], loc[2])] = e[3]
            elif loc == ("ecx", "next_action") or (loc == ("ecx",) and e[2] == ("next_action",)):
                action = e[3]
                out.append(("action", canon(ev.ev(e[3]))))
            else:
                out.append(("store", canon(loc), e[2]))
        elif k == "dyncall":
            out.append(("observer", canon(ev.ev(e[1][-1]))))
        elif k == "push":
            pass
        else:
            out.append((k,))
    if p.exit[0] == "ok":
        out.append(("exit", "ok"))
        res = {k: canon(ev.ev(x)) for k, x in slots.items()}
    else:
        t = p.exit[1]
        res = {}
        if t.op == "adt":
            out.append(("exit", t.a[2]))
        elif "resize_memory" in show(t):
            out.append(("exit", "GROW"))
        else:
            x = ev.ev(t)
            if isinstance(x, tuple) and x and x[0] == "discr":
                x = x[1]
            out.append(("exit",) + ((x[1:]) if isinstance(x, tuple) and x and x[0] == "E" else (canon(x),)))
    return out, res


# ------------------------------------------------------------------------------------------------ accepted forms
def enc(paths):
    """Paths as plain data (terms as a table)."""
    tab, idx = [], {}

    def e(x):
        if x.__class__ is T:
            if x.id not in idx:
                a = [e(y) for y in x.a]
                idx[x.id] = len(tab)
                tab.append([x.op, a])
            return {"t": idx[x.id]}
        if isinstance(x, tuple):
            return [e(y) for y in x]
        if isinstance(x, (set, frozenset)):
            return {"s": [e(y) for y in sorted(x, key=repr)]}
        if x is None or isinstance(x, (str, int, bool)):
            return {"i": str(x)} if isinstance(x, int) and not isinstance(x, bool) and abs(x) > 2**52 else x
        raise TypeError(repr(x)[:80])
    out = [[e(tuple(strip(y) for y in p.events)), [[e(k), e(v)] for k, v in p.facts.items()], e(p.exit), p.where] for p in paths]
    return {"terms": tab, "paths": out}


def strip(ev):
    return ev[:-1] + ("",)


def dec(d):
    ts = []

    def f(x):
        if isinstance(x, list):
            return tuple(f(y) for y in x)
        if isinstance(x, dict):
            if "t" in x:
                return ts[x["t"]]
            if "s" in x:
                return frozenset(f(y) for y in x["s"])
            return int(x["i"])
        return x
    for op, a in d["terms"]:
        ts.append(mk(op, *[f(y) for y in a]))
    return [Path(f(p[0]), {f(k): f(v) for k, v in p[1]}, f(p[2]), p[3]) for p in d["paths"]]


# ------------------------------------------------------------------------------------------------ assignments
WORDS = [0, 1, 2, 3, 31, 32, 33, 64, 67, 68, 69, 99, 100, 101, 255, 256, 257, 333, 334, 700, 1000, 49151, 49152, 49153, 2**32, 2**63, MAX - 32, MAX - 31, MAX - 1, MAX, MAX + 1, MAX + 33, 2**127, 2**128 - 1,
         2**128, 2**160 - 1, 2**160, 2**192, 2**192 + 5, 2**255 - 1, 2**255, 2**255 + 1, M256 - 255, M256 - 2, M256 - 1]
DIMS = {
    "static": [0, 1], "amsterdam": [0, 1], "is_cold": [0, 1], "is_empty": [0, 1], "had_value": [0, 1], "target_exists": [0, 1],
    "previously_destroyed": [0, 1], "stategas": [0, 700, 3], "inbytes": [0, 1], "on_log": [0, 1],
    "inlen": [68, 0, 1, 31, 32, 33, 4], "rdlen": [100, 0, 1, 32], "codelen": [700, 0, 32], "extlen": [333, 0, 1, 32],
    "bn": [1000, 0, 1, 255, 256, 257, 300, MAX, MAX + 5], "initmax": [49152, 32, 0, MAX],
    "R0": [0, 100000, 100],
}


def names_of(prog, b, sp):
    words, args = {}, {}
    ctx = "EvmContext" in b.locals[1]
    for i in range(1, b.nargs + 1):
        t = b.locals[i]
        if "EvmContext" in t:
            continue
        if "EvmWord; " in t:
            for j in range(int(t.split("EvmWord; ")[1].split("]")[0])):
                words[(i, j)] = f"a{i}[{j}]"
        elif "EvmWord" in t:
            if t.startswith("*"):
                for j in range(sp.get("nwords", len(sp["ops"]))):
                    words[(i, j)] = f"a{i}[{j}]"
            else:
                words[(i, 0)] = f"a{i}"
        else:
            args[i] = t
    return words, args, {1: ("ecx",)} if ctx else {}


class Budget(Exception):
    pass


def view(p, ev):
    """Whether the cached view of the memory is taken anew after the last growth."""
    last = max([i for i, e in enumerate(p.events) if e[0] == "expand" and ev.ev(e[1]) + ev.ev(e[2])], default=None)
    if last is None:
        return ()
    seen = set()
    for e in p.events[last:]:
        if e[0] == "store" and e[2] in (("mem_base",), ("mem_len",)) and e[1].op == "arg":
            names = {x.a[0] for x in leaves(e[3]) if x.op == "callname"}
            if any("context_memory" in n for n in names):
                seen.add(e[2][0])
    return ("view", tuple(sorted(seen)))


def discs(prog):
    r = {}
    for path, l in prog._discr.items():
        r.setdefault(path.split("::")[-1], {n: int(d) for n, d in l})
    return r


def trie(paths):
    """Paths by their conditions, in the order they were decided."""
    root = [{}, []]
    for p in paths:
        n = root
        for t, w in p.facts.items():
            n = n[0].setdefault((t, w), [{}, []])
        n[1].append(p)
    return root


def feasible(root, ev):
    todo = [root]
    vals = {}
    while todo:
        kids, ps = todo.pop()
        yield from ps
        for (t, w), n in kids.items():
            x = vals.get(t.id, vals)
            if x is vals:
                try:
                    x = ev.ev(t)
                except Infeasible:
                    x = Infeasible
                vals[t.id] = x
            if x is Infeasible:
                continue
            if isinstance(w, tuple) and w and w[0] == "ne":
                if x not in w[1]:
                    todo.append(n)
            elif x == w:
                todo.append(n)


def outcome(root, v, prog, adisc):
    """Set of (effects, final operand words) of the feasible paths."""
    out = set()
    ev = BEval(prog, v, adisc)
    for p in feasible(root, ev):
        try:
            r = effects(p, ev, v, None)
            if r is None:
                continue
            tr, res = r
            if tr[-1] == ("exit", "ok"):
                res = tuple(sorted((k, res.get(k, canon(w))) for k, w in v.words.items()))
                out.add((tuple(tr) + (view(p, ev),), res))
            else:
                out.add((tuple(tr), ()))
        except Infeasible:
            continue
    return out


def consts(paths):
    c = set()
    for p in paths:
        for t in p.facts:
            for s in subterms(t):
                if is_k(s) and isinstance(s.a[0], int) and 2 < s.a[0] < 2**256:
                    c.add(s.a[0])
    return c


def gas_cuts(paths, v, prog, adisc):
    """Values the remaining gas is compared with."""
    ev = BEval(prog, v, adisc)
    out = set()
    for p in paths:
        for t in p.facts:
            if t.op in ("lt", "le", "gt", "ge", "eq") and len(t.a) == 2:
                for x, y in (t.a, t.a[::-1]):
                    if x.__class__ is T and y.__class__ is T and any(s.op == "gasv" for s in subterms(x)) and not any(s.op == "gasv" for s in subterms(y)):
                        try:
                            z = ev.ev(y)
                            if isinstance(z, int) and z < 10**7:
                                out.add(int(z))
                        except (Unk, Infeasible):
                            pass
    return out


class Different(Exception):
    pass


GBIG = 10**8


def compare(prog, key, cand, ref, words, args, ctxargs, budget=45.0, seed=1):
    """None when the candidate's effects equal the accepted form's on the grid; else a description. Raises Unk when undecided."""
    adisc = discs(prog)
    specs = sorted(adisc["SpecId"].values())
    r = random.Random(seed)
    ks = sorted(consts(cand) | consts(ref))
    W = sorted({x for x in WORDS} | {y for k in ks for y in (k - 1, k, k + 1) if 0 <= y < M256})
    W2 = [w for w in (0, 1, 32, 33, 67, 68, 100, 101, 1000, 2**32, MAX - 31, MAX - 1, MAX, MAX + 1, 2**128, 2**192, 2**255, M256 - 1)]
    W2 = sorted(set(W2) | set(ks[:6]))
    hosts = sorted({e[1] for p in cand + ref for e in p.events if e[0] == "host" and (e[1] in RESULTS or e[1] in OPTIONS)})
    dims = dict(DIMS)
    dims["initmax"] = dims["initmax"] + sorted({t - o for k in words for t in [rnd("typical", k, lo=40, hi=90)] for o in (0, 1)})
    for h in hosts:
        dims["host:" + h] = [0, 1, 2] if h in RESULTS else [0, 1]
    for g in sorted({s.a[0].split("::")[-1] for p in cand + ref for t in [y for e in p.events for y in e if y.__class__ is T] + list(p.facts) for s in subterms(t) if s.op == "call" and s.a[0].startswith("GasParams::")}):
        dims["gp:" + g] = [None, 0, 1, 5000]
    wk = sorted(words)
    ak = sorted(args)
    A = {i: ([adisc["InstructionResult"].get(n, 0) for n in ("Return", "Revert", "Stop")] if "InstructionResult" in args[i] else specs if "SpecId" in args[i] else [x for x in W if x <= MAX])
         for i in ak}
    names = wk + [("arg", i) for i in ak]
    typ = lambda k: A[k[1]][min(5, len(A[k[1]]) - 1)] if k[0] == "arg" else rnd("typical", k, lo=40, hi=90)
    dom = lambda k: A[k[1]] if k[0] == "arg" else W
    dom2 = lambda k: [x for x in W2 if x <= MAX] if k[0] == "arg" and len(A[k[1]]) > 25 else A[k[1]] if k[0] == "arg" else W2
    base = {k: typ(k) for k in names}
    bd = {k: x[0] for k, x in dims.items()}
    late = max(specs)
    jobs = []

    def job(w, d, s):
        jobs.append((w, d, s))
    job({}, {}, late)
    for s in specs:
        job({}, {}, s)
    for k, l in dims.items():
        for x in l[1:]:
            for s in (late, specs[len(specs) // 2]):
                job({}, {k: x}, s)
    for k in names:
        for x in dom(k):
            job({k: x}, {}, late)
    for k in names:
        for x in dom(k):
            if x in (0, 1, MAX + 1) or k[0] == "arg" and x in A[k[1]][:2]:
                for dk, l in dims.items():
                    for y in l[1:]:
                        job({k: x}, {dk: y}, late)
    for (k, l), (k2, l2) in itertools.combinations(dims.items(), 2):
        if len(l) <= 3 and len(l2) <= 3 or {k[:3], k2[:3]} & {"gp:"} and "amsterdam" in (k, k2):
            for x in l[1:]:
                for y in l2[1:]:
                    job({}, {k: x, k2: y}, late)
    nhead = len(jobs)
    pairs = [({a: x, b: y}, {}, late) for a, b in itertools.combinations(names, 2) for x in dom2(a) for y in dom2(b)]
    if len(pairs) > 6000:
        pairs = r.sample(pairs, 6000)
    jobs += pairs
    for k in names:
        for x in dom2(k):
            for dk, l in dims.items():
                for y in l[1:]:
                    if r.random() < 0.25 or len(names) < 3:
                        job({k: x}, {dk: y}, r.choice(specs))
    for _ in range(1500):
        w = {k: r.choice(dom(k)) for k in names if r.random() < 0.6}
        d = {k: r.choice(l) for k, l in dims.items() if r.random() < 0.4}
        job(w, d, r.choice(specs))
    rtrie, ctrie = trie(ref), trie(cand)
    head, tail = jobs[:nhead], jobs[nhead:]
    r.shuffle(tail)
    jobs = head + tail
    t0 = time.time()
    done = n = 0
    gk = {}
    for w, d, s in jobs:
        if time.time() - t0 > budget:
            break
        dd = dict(bd)
        dd.update(d)
        dd["spec"] = s
        v = Val(dd)
        x = dict(base)
        x.update(w)
        v.words = {k: U(x[k]) for k in wk}
        v.args = {i: x[("arg", i)] for i in ak}
        v.args.update(ctxargs)
        v.G0 = GBIG
        todo = [GBIG]
        first = True
        while todo:
            v.G0 = todo.pop()
            a = outcome(rtrie, v, prog, adisc)
            b = outcome(ctrie, v, prog, adisc)
            n += 1
            gk[len(a)] = gk.get(len(a), 0) + 1
            if a != b:
                return dict(at=(w, d, s, v.G0), ref=sorted(a, key=repr), got=sorted(b, key=repr), n=n)
            if first:
                first = False
                sums = {0}
                for tr, _ in a | b:
                    g = 0
                    for e in tr:
                        if e and e[0] == "charge" and e[2] < 10**7:
                            g += e[2]
                        elif e and e[0] == "grow":
                            g += 90
                        else:
                            continue
                        sums.add(g)
                cuts = gas_cuts(ref + cand, v, prog, adisc) if done % 40 == 0 else set()
                todo = sorted({y for g in sums for y in (g - 1, g) if y >= 0} | {g + c + o for g in sums for c in cuts for o in (-1, 0, 1) if g + c + o >= 0})
                if done > 200 and len(todo) > 2:
                    todo = r.sample(todo, 2)
        done += 1
    return dict(ok=True, n=n, jobs=done, of=len(jobs), sizes=gk)


# ------------------------------------------------------------------------------------------------ driver
ACCEPTED = os.path.join(os.path.dirname(os.path.abspath(__file__)), "accepted.json.gz")


def variants(prog, b, key, sp):
    """[(name, constant arguments, specification)]: an entry point is analysed once per constant it is specialised by."""
    if key == "log":
        i = [i for i in range(1, b.nargs + 1) if b.locals[i] == "u8"]
        return [(f"log{n}", {i[0]: K(n)}, dict(sp, nwords=n + 2)) for n in range(5)] if i else []
    if sp["kinds"]:
        ty, v = sp["kinds"]
        i = [i for i in range(1, b.nargs + 1) if m.tyhead(b.locals[i]) == ty]
        return [(key, {i[0]: prog.enum(prog.enum_path(ty), v)}, sp)] if i else []
    return [(key, {}, sp)]


def accepted():
    if "x" not in _acc:
        with gzip.open(ACCEPTED, "rt") as f:
            _acc["x"] = json.load(f)
    return _acc["x"]


_acc = {}


def settle(prog, b, key, sp):
    """(verdict, detail, aspects): True, the entry point's effects are those of the accepted form at every point compared; False, they
    differ at one; None, undecided."""
    n = 0
    vs = variants(prog, b, key, sp)
    if not vs or b.nargs > 8:
        return None, "no such entry point", ()
    for name, cs, sp2 in vs:
        d = accepted().get(name)
        if d is None:
            return None, "no accepted form", ()
        try:
            cand, e = extract(prog, b, cs)
        except m.Limit as x:
            return None, str(x), ()
        words, args, ctx = names_of(prog, b, sp2)
        if repr((sorted(words), sorted((k, m.tyhead(v)) for k, v in args.items()))) != d["sig"]:
            return None, "other parameters", ()
        args = {k: x for k, x in args.items() if k not in cs}
        try:
            r = compare(prog, key, cand, dec(d), words, args, ctx)
        except Unk as x:
            return None, f"undecided: {x}", ()
        except (TypeError, IndexError, KeyError, AttributeError, ValueError, RecursionError) as x:
            return None, f"undecided: {x!r}", ()
        n += r["n"]
        if not r.get("ok"):
            w, dd, s, g = r["at"]
            return False, f"with operands {show_words(w)}, {show_dims(dd)}fork {s} and {g} gas: {first(r['ref'], r['got'])}", aspects(r["ref"], r["got"], dd)
    return True, n, ()


def show_words(w):
    return "{" + ", ".join(f"{k}={hex(v)}" for k, v in sorted(w.items(), key=repr)) + "}"


def show_dims(d):
    return "".join(f"{k}={v}, " for k, v in sorted(d.items()))


def first(a, b):
    a = list(a[0][0]) + [("words", a[0][1])] if a else ["no outcome (it would abort)"]
    b = list(b[0][0]) + [("words", b[0][1])] if b else ["no outcome (it would abort)"]
    for x, y in itertools.zip_longest(a, b):
        if x != y:
            return f"`{str(y)[:160]}` where `{str(x)[:160]}` is due"
    return "several outcomes"


KIND = {"charge": "gas", "cannot pay": "gas", "gas": "gas", "charge to another counter": "gas", "growth charged elsewhere": "memory", "grow": "memory", "cannot grow": "memory", "read": "memory",
        "write": "memory", "copy": "memory", "memory": "memory", "view": "memory", "host": "host", "observer": "host", "store": "result", "writes stack word": "result",
        "action": "frame", "exit": "exit"}
GASF = {"gas", "gas_limit", "reservoir", "charged_new_account_state_gas"}


def fields(x, names, inside=False):
    """Parts of a value in fields of those names."""
    out = []
    if isinstance(x, tuple):
        if x and x[0] == "newcreate" and len(x) > 6:
            out.append(x[5:7] if "gas_limit" in names else ())
        for y in x:
            if isinstance(y, tuple) and len(y) == 2 and y[0] in names:
                out.append(y)
            out += fields(y, names)
    return out


def aspects(a, b, d):
    """What differs: gas, memory, host, result, frame, exit, static."""
    out = set()
    if len(a) != 1 or len(b) != 1:
        return {"exit", "result"}
    (ta, ra), (tb, rb) = a[0], b[0]
    for k in set(KIND.values()):
        if [e for e in ta if e and KIND.get(e[0], "result") == k] != [e for e in tb if e and KIND.get(e[0], "result") == k]:
            out.add(k)
    if ra != rb:
        out.add("result")
    fa, fb = [e for e in ta if e and e[0] == "action"], [e for e in tb if e and e[0] == "action"]
    if fields(tuple(fa), GASF) != fields(tuple(fb), GASF):
        out.add("gas")
    if fields(tuple(fa), {"is_static"}) != fields(tuple(fb), {"is_static"}) or d.get("static"):
        out.add("static")
    if not out:
        for x, y in itertools.zip_longest(ta, tb):
            if x != y:
                out |= {KIND.get(z[0], "result") for z in (x, y) if z}
                break
    return out


_jobs = {}


def _one(key):
    prog, bs, specs = _jobs["x"]
    try:
        return key, settle(prog, bs[key.split("#")[0]], key, specs[key])
    except Exception as x:
        return key, (None, f"undecided: {x!r}", ())


def settle_all(prog, bs, specs, keys):
    _jobs["x"] = (prog, bs, specs)
    keys = list(keys)
    if not keys:
        return {}
    accepted()
    with mp.get_context("fork").Pool(min(8, len(keys))) as p:
        return dict(p.imap_unordered(_one, keys, chunksize=1))
