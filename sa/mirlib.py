"""Interprocedural, property-state-partitioned dataflow over the MIR facts written by /verif/driver.

The engine walks the supergraph obtained by inlining workspace bodies at their call sites (call strings; recursion and
bodies outside the workspace stay opaque), with hash-consed provenance terms as values.  States at a program point are
kept apart only by (property flags, branch facts) and joined otherwise.  No code of /repo is run.
"""
import json
import os
import re
import sys
from collections import deque

import terms
from terms import (FALSE, K, T, TOP, TRUE, UNIT, contains, is_k, kids, leafset, leaves, mk, phi_join, show, shrink,
                   subterms)

sys.setrecursionlimit(20000)

CRATES = ["revmc_backend", "revmc_builtins", "revmc_codegen", "revmc_context", "revmc_llvm", "revmc_runtime"]


def strip_generics(n):
    out, i, d = [], 0, 0
    while i < len(n):
        if n.startswith("::<", i) and d == 0 and not n.startswith("::<impl", i):
            j = _bal(n, i + 2)
            i = j
            continue
        out.append(n[i])
        i += 1
    return "".join(out)


def _bal(n, i):
    d = 0
    while i < len(n):
        c = n[i]
        if c == "<":
            d += 1
        elif c == ">" and n[i - 1] not in "-=":
            d -= 1
            if d == 0:
                return i + 1
        i += 1
    return i


_INT = {"u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize"}


def _segs(n):
    segs, cur, d, i = [], "", 0, 0
    while i < len(n):
        c = n[i]
        if c == "<":
            d += 1
        elif c == ">" and n[i - 1] not in "-=":
            d -= 1
        if d == 0 and n.startswith("::", i):
            segs.append(cur)
            cur = ""
            i += 2
            continue
        cur += c
        i += 1
    segs.append(cur)
    return segs


def tyhead(t):
    """Last path segment of a type, without generics / references."""
    t = re.sub(r"'\w+ ?", "", t).lstrip("&").strip()
    t = re.sub(r"^(mut|dyn|const) ", "", t).strip()
    if t.startswith("[") or t.startswith("*"):
        return "slice" if t.startswith("[") else "ptr"
    t = t.split("<")[0].rstrip(":")
    h = t.split("::")[-1]
    return "int" if h in _INT else h


def short_name(n):
    n = strip_generics(n)
    segs = _segs(n)
    last = segs[-1]
    prev = segs[-2] if len(segs) > 1 else ""
    if prev.startswith("<impl"):
        inner = prev[5:-1].strip()
        inner = re.sub(r"^<[^>]*>", "", inner).strip()
        if " for " in inner:
            prev = tyhead(inner.split(" for ")[0])
        else:
            prev = tyhead(inner)
    elif prev.startswith("<"):
        inner = prev[1:-1]
        prev = tyhead(inner.split(" as ")[1]) if " as " in inner else tyhead(inner)
    return f"{prev}::{last}" if prev else last


class Body:
    def __init__(self, d, crate):
        self.d = d
        self.crate = crate
        self.id = d["id"]
        self.name = d["name"]
        self.blocks = d["blocks"]
        self.locals = d["locals"]
        self.nargs = d["args"]
        self.span = d["span"]
        self.file = d["span"].rsplit(":", 1)[0]
        self.names = {}
        for nm, pl in d.get("names", []):
            if len(pl) == 1:
                self.names.setdefault(nm, pl[0])
        self.kind = d["kind"]
        self.short = short_name(self.name)

    def __repr__(self):
        return f"<{self.name}>"


class Missing(Exception):
    """An anchor the rule needs is gone: the check fails closed with this as the violation."""


class Limit(Exception):
    pass


class Program:
    def __init__(self, facts_dir, crates=CRATES):
        self.bodies = {}
        self.by_name = {}
        self.adts = {}
        self.impls = []
        self.layouts = {}
        self.statics = {}
        self.crates = []
        self.foreign = []
        for c in crates:
            p = os.path.join(facts_dir, c + ".json")
            if not os.path.exists(p):
                continue
            d = json.load(open(p))
            self.crates.append(c)
            for b in d["bodies"]:
                bd = Body(b, c)
                self.bodies[bd.id] = bd
                self.by_name.setdefault(bd.name, []).append(bd)
            for k, a in d["adts"].items():
                self.adts.setdefault(k, a)
            self.impls += d["impls"]
            for k, l in d["layouts"].items():
                self.layouts.setdefault(k, l)
            for s in d["statics"]:
                self.statics[s["id"]] = s
            self.foreign += d.get("foreign", [])
        self._discr = {}
        for p, a in self.adts.items():
            if a.get("kind", "").lower() == "enum":
                self._discr[p] = [(v["name"], v.get("discr", i)) for i, v in enumerate(a["variants"])]
        self._from = {}
        for im in self.impls:
            if (im.get("trait") or "").split("<")[0].endswith("convert::From"):
                for nm, iid in im.get("items", []):
                    if nm == "from" and iid in self.bodies:
                        b = self.bodies[iid]
                        self._from[(norm_ty(b.locals[1]), norm_ty(b.locals[0]))] = iid

    def body(self, name):
        """Unique body by readable name (generic arguments ignored), or Missing."""
        l = self.by_name.get(name) or [b for b in self.bodies.values() if strip_generics(b.name) == name]
        l = [b for b in l if "promoted" not in b.id]
        if not l:
            raise Missing(f"function `{name}` not found")
        return l[0]

    def fn(self, short):
        """The body whose type-qualified name is `short` (a method or free function), or Missing."""
        l = self._by_short.get(short, []) if hasattr(self, "_by_short") else None
        if l is None:
            self._by_short = {}
            for b in self.bodies.values():
                if "promoted" not in b.id and b.kind != "Closure":
                    self._by_short.setdefault(b.short, []).append(b)
            l = self._by_short.get(short, [])
        if not l:
            raise Missing(f"function `{short}`")
        return l[0]

    def find(self, pred):
        return [b for b in self.bodies.values() if pred(b)]

    def discr_of(self, adt, vi):
        d = self._discr.get(adt)
        if d and vi < len(d):
            v = d[vi][1]
            return vi if v is None else int(v)
        return vi

    def variant_by_discr(self, adt, val):
        d = self._discr.get(adt)
        if not d:
            return None
        for i, (n, x) in enumerate(d):
            if int(x) == val:
                return i, n
        return None

    def variant_name(self, adt, vi):
        return self._discr[adt][vi][0]

    def enum(self, adt, vname, fields=()):
        d = self._discr.get(adt)
        if not d:
            raise Missing(f"enum `{adt}` not found")
        for i, (n, x) in enumerate(d):
            if n == vname:
                return mk("adt", adt, i, n, tuple(str(k) for k in range(len(fields))), *fields)
        raise Missing(f"variant `{vname}` of `{adt}` not found")

    def enum_path(self, suffix):
        l = [p for p in self._discr if p.endswith("::" + suffix)]
        if not l:
            raise Missing(f"enum `{suffix}` not found")
        return l[0]


def norm_ty(t):
    t = re.sub(r"'\w+ ?", "", t)
    # keep only last segments of paths
    return re.sub(r"(?:\w+::)+(\w+)", r"\1", t).replace(" ", "")


def const_int(v):
    """Big-integer / byte-word constants as one number (or one 32-byte value)."""
    p = v["adt"].rsplit("::", 1)[-1]
    if p == "Uint":
        l = list(v["fields"].values())
        l = l[0].get("array") if l and isinstance(l[0], dict) else None
        if l and all(isinstance(x, int) for x in l):
            return K(sum(x << (64 * i) for i, x in enumerate(l)))
    if p in ("EvmWord", "FixedBytes", "Address"):
        x = v
        while isinstance(x, dict) and "adt" in x and len(x.get("fields", {})) == 1:
            x = list(x["fields"].values())[0]
        l = x.get("array") if isinstance(x, dict) else None
        if l and all(isinstance(y, int) for y in l):
            if not any(l):
                return K(0)
            return mk("bytes", "".join(f"{y:02x}" for y in l))
    return None


class State:
    __slots__ = ("env", "facts", "flags", "trail")

    def __init__(self, env, facts, flags, trail=()):
        self.env = env
        self.facts = facts
        self.flags = flags
        self.trail = trail

    def copy(self):
        return State(dict(self.env), dict(self.facts), self.flags, self.trail)

    def show_facts(self):
        return [f"{show(k)} = {v}" for k, v in self.facts.items()]


class Frame:
    __slots__ = ("fid", "parent", "body", "dest", "target", "wrap", "chain", "depth", "gen")

    def generic(self, n):
        """The argument of the generic parameter n, as written at the call, or None."""
        f = self
        while f is not None:
            v = f.gen.get(n)
            if v is not None:
                return v
            f = f.parent
        return None


PURE = {
    "SpecId::is_enabled_in", "PartialEq::eq", "PartialEq::ne", "PartialOrd::lt", "PartialOrd::le", "PartialOrd::gt",
    "PartialOrd::ge", "Ord::cmp", "slice::len", "Vec::len", "Bytes::len", "str::len", "Uint::is_zero", "int::min", "Ord::min", "Ord::max",
    "int::saturating_add", "int::saturating_sub", "int::checked_add", "int::checked_sub", "int::wrapping_add",
    "int::checked_mul", "int::wrapping_sub", "int::saturating_mul", "slice::is_empty", "Vec::is_empty", "Bytes::is_empty",
    "Uint::as_limbs", "Uint::wrapping_div", "Uint::wrapping_rem", "Uint::checked_sub", "Uint::from", "bits::contains",
    "mem::size_of", "TryFrom::try_from", "TryInto::try_into", "Uint::saturating_to", "Uint::to", "int::abs_diff", "Option::is_some", "Option::is_none",
}

IDENT = {
    "Clone::clone", "Deref::deref", "DerefMut::deref_mut", "Into::into", "AsRef::as_ref", "AsMut::as_mut",
    "Borrow::borrow", "BorrowMut::borrow_mut", "ToOwned::to_owned", "hint::must_use", "convert::identity", "Option::copied",
    "Option::cloned", "IntoIterator::into_iter", "ptr::cast", "ptr::cast_mut", "ptr::cast_const", "NonZero::new_unchecked",
    "NonZero::get", "Pin::new", "Arc::as_ref", "NonNull::as_ptr", "NonNull::cast", "NonNull::new_unchecked",
    "NonNull::as_ref", "NonNull::as_mut", "Vec::as_slice", "slice::as_ref", "mem::transmute", "hint::black_box", "EvmWord::from", "Box::into_raw", "Box::from_raw",
    "slice::as_mut_ptr", "slice::as_ptr", "Vec::as_mut_ptr", "Vec::as_ptr", "ManuallyDrop::new", "ManuallyDrop::into_inner", "MaybeUninit::assume_init",
}

SKIP_DEFAULT = ("cold_path", "tracing", "__CALLSITE")


UWIDTH = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "u128": 128}
IWIDTH = {"i8": 8, "i16": 16, "i32": 32, "i64": 64, "isize": 64, "i128": 128}


def to_signed(v, w):
    v &= (1 << w) - 1
    return v - (1 << w) if v >> (w - 1) else v


def signed_fold(ty, r):
    """Constant signed arithmetic with a negative result."""
    if ty not in IWIDTH:
        return r
    op, a, b = r.a[0], r.a[1].a[0], r.a[2].a[0]
    if not isinstance(a, int) or not isinstance(b, int):
        return r
    v = {"Add": a + b, "Sub": a - b, "Mul": a * b}.get(op)
    return r if v is None else K(to_signed(v, IWIDTH[ty]))


class Hooks:
    typed = False
    models = {}

    """Property hooks. Any may mutate `st.flags` (replace it with a new hashable value)."""

    def on_call(self, eng, st, fr, short, fn, args, site):
        return None

    def on_store(self, eng, st, fr, root, proj, val, span):
        pass

    def on_edge(self, eng, st, fr, cond, val):
        pass

    def on_return(self, eng, st, fr, val):
        pass

    def on_drop(self, eng, st, fr, ty, val, span):
        pass

    def inline(self, eng, fr, body, args):
        return True

    def keep_fact(self, t):
        return True


PART = ("seq", "mapit", "filterit", "fmapit", "array")


def pkey(v):
    """What of a value's shape keeps states apart: iterator positions, sequence lengths, option variants."""
    return len(v.a) if v.op == "array" else v.a[2] if v.op == "adt" else v


class Cont:
    """Returned by a wrap to go on with further calls: f(engine, state) -> continuations."""

    def __init__(self, f):
        self.f = f


class Engine:
    def __init__(self, prog, hooks, max_part=96, max_depth=14, max_steps=150000, fact_cap=None, exact=False):
        self.exact = exact   # keep every path apart (shape-bounded inputs only): no joins, no term shrinking
        self.p = prog
        self.h = hooks
        self.max_part = max_part
        self.max_depth = max_depth
        self.max_steps = max_steps
        self.frames = {}
        self.fids = {}
        self.base = 0   # set in nested evaluations, so that their frames differ from the caller's
        self.steps = 0
        self.visited_bodies = set()
        self.sites = set()
        self.partitions = 0
        self.over = False

    # ---------------------------------------------------------------- frames
    def frame(self, parent, body, site, dest, target, wrap):
        key = (parent.fid if parent else None, body.id, site)
        fid = self.fids.get(key)
        if fid is None:
            fid = len(self.fids) + 1 + self.base
            self.fids[key] = fid
            fr = Frame()
            fr.fid = fid
            fr.parent = parent
            fr.body = body
            fr.dest = dest
            fr.target = target
            fr.wrap = wrap
            fr.chain = (parent.chain if parent else ()) + (body.id,)
            fr.depth = (parent.depth + 1) if parent else 0
            fr.gen = {}
            self.frames[fid] = fr
        return self.frames[fid]

    # ---------------------------------------------------------------- places
    def read_root(self, st, root):
        v = st.env.get(root)
        if v is not None:
            return v
        if root.op == "D":
            return mk("deref", root.a[0])
        if root.op == "V":
            return root.a[0]
        return mk("uninit")

    def project(self, t, p, st=None):
        o = t.op
        k = p[0]
        if o == "phi":
            if k == "v":
                c = [x for x in t.a[0] if not (x.op == "adt" and x.a[2] != p[1])]
                if not c:
                    return mk("dead")
            else:
                c = t.a[0]
            r = None
            for x in sorted(c, key=lambda x: x.id):
                y = self.project(x, p)
                r = y if r is None else phi_join(r, y)
            return r
        if o == "ovl":
            bp = t.a[1]
            if bp == p:
                return t.a[2]
            if k == "i" and bp[0] == "i":
                if is_k(p[1]) and is_k(bp[1]):
                    return self.project(t.a[0], p)
                return phi_join(t.a[2], self.project(t.a[0], p))
            return self.project(t.a[0], p)
        if k == "f":
            if o == "adt":
                names = t.a[3]
                if p[1] in names:
                    return t.a[4 + names.index(p[1])]
            elif o in ("tuple",):
                try:
                    return t.a[int(p[1])]
                except (ValueError, IndexError):
                    pass
            elif o == "closure":
                try:
                    return t.a[1 + p[2]]
                except (IndexError, TypeError):
                    pass
            elif o in ("box", "vbox") or (o == "array" and p[1] == "raw"):
                return t
            elif o in ("leafs", "top", "dead"):
                return t
            elif o == "k" and p[1] == "limbs" and isinstance(t.a[0], int):
                return mk("array", *[K(t.a[0] >> 64 * i & (1 << 64) - 1) for i in range(4)])
            return mk("fld", t, p[1])
        if k == "v":
            if o == "adt":
                return t if t.a[2] == p[1] else mk("dead")
            if o in ("leafs", "top", "dead"):
                return t
            return mk("var", t, p[1])
        if k == "i":
            if o == "array" and is_k(p[1]) and p[1].a[0] < len(t.a):
                return t.a[p[1].a[0]]
            if o == "array" and t.a:
                r = t.a[0]
                for x in t.a[1:]:
                    r = phi_join(r, x)
                return r if len(t.a) <= 8 else mk("idx", t, p[1])
            if o == "repeat":
                return t.a[0]
            return mk("idx", t, p[1])
        if k == "m" and o == "map" and p[1] in t.a[::2]:
            return t.a[t.a[::2].index(p[1]) * 2 + 1]
        return mk("proj", t, p[0])

    def read(self, st, root, proj):
        t = self.read_root(st, root)
        for p in proj:
            t = self.project(t, p)
        return t

    def setp(self, t, proj, val):
        if not proj:
            return val
        p, rest = proj[0], proj[1:]
        o = t.op
        if p == ("f", "raw") or p[:2] == ("f", "raw"):
            if o == "array":
                return self.setp(t, rest, val)
        if p[0] == "f" and o == "adt" and p[1] in t.a[3]:
            i = 4 + t.a[3].index(p[1])
            a = list(t.a)
            a[i] = self.setp(a[i], rest, val)
            return mk("adt", *a)
        if p[0] == "f" and o == "tuple" and p[1].isdigit() and int(p[1]) < len(t.a):
            a = list(t.a)
            a[int(p[1])] = self.setp(a[int(p[1])], rest, val)
            return mk("tuple", *a)
        if p[0] == "v" and o == "adt" and t.a[2] == p[1]:
            return self.setp(t, rest, val)
        if p[0] == "i" and o == "array" and is_k(p[1]) and p[1].a[0] < len(t.a):
            a = list(t.a)
            a[p[1].a[0]] = self.setp(a[p[1].a[0]], rest, val)
            return mk("array", *a)
        if p[0] == "m" and o == "map" and p[1] in t.a[::2]:
            a = list(t.a)
            i = t.a[::2].index(p[1]) * 2 + 1
            a[i] = self.setp(a[i], rest, val)
            return mk("map", *a)
        nv = self.setp(self.project(t, p), rest, val)
        base = t
        if o == "ovl" and t.a[1] == p:
            base = t.a[0]
        elif o == "ovl":
            # replace deeper overlay of the same projection to keep chains short
            chain = []
            b = t
            while b.op == "ovl":
                if b.a[1] != p:
                    chain.append((b.a[1], b.a[2]))
                b = b.a[0]
            base = b
            for q, v in reversed(chain):
                base = mk("ovl", base, q, v)
        return mk("ovl", base, p, nv)

    def write(self, st, root, proj, val):
        val = shrink(val)
        if not proj:
            st.env[root] = val
        else:
            st.env[root] = shrink(self.setp(self.read_root(st, root), proj, val))

    def deref(self, t):
        """Location behind pointer value t: (root, proj)."""
        if t.op == "ref":
            return t.a[0], t.a[1]
        if t.op == "vbox":
            return t.a[0], ()
        if t.op in ("rv", "box"):
            return mk("V", t.a[0]), ()
        if t.op == "ovl":
            # pointer-like value that was partially overwritten; treat as opaque
            return mk("D", t), ()
        return mk("D", t), ()

    def resolve(self, st, fr, place):
        root, proj = mk("L", fr.fid, place[0]), ()
        for e in place[1:]:
            if e == "*":
                v = self.read(st, root, proj)
                root, proj = self.deref(v)
                continue
            k = e[0]
            if k == "f":
                q = ("f", e[2] if e[2] is not None else str(e[1]), e[1])
                # closure upvars are positional
                v0 = None
                proj = proj + (q[:2],) if True else proj
                # remember position for closures
                if q[1] != str(e[1]) or True:
                    base = self.read(st, root, proj[:-1])
                    if base.op == "closure":
                        proj = proj[:-1] + (("f", q[1], e[1]),)
            elif k == "v":
                proj = proj + (("v", e[2] if len(e) > 2 and e[2] else str(e[1])),)
            elif k == "i":
                proj = proj + (("i", self.read(st, mk("L", fr.fid, e[1]), ())),)
            elif k == "ci":
                if e[3]:
                    proj = proj + (("i", mk("fromend", e[1])),)
                else:
                    proj = proj + (("i", K(e[1])),)
            elif k == "sub":
                proj = proj + (("sub", str(e[1:])),)
            else:
                proj = proj + ((str(k),),)
            # word i of an array behind an opaque pointer == pointer + i
            if len(proj) == 1 and proj[0][0] == "i" and root.op == "D" and is_k(proj[0][1]) and root.a[0].op in ("arg", "padd"):
                root, proj = mk("D", padd(root.a[0], proj[0][1])), ()
        return root, proj

    # ---------------------------------------------------------------- values
    def const(self, k):
        if "fn" in k:
            f = k["fn"]
            return mk("fn", f.get("rid") or f["id"], f["name"])
        if "closure" in k and k["closure"]:
            return mk("closure", k["closure"])
        if "v" in k:
            return self.cval(k["v"], k.get("ty", ""), k.get("named"))
        if "promoted" in k:
            b = self.p.bodies.get(k["promoted"])
            if b is not None:
                v = self.eval_promoted(b)
                if v is not None:
                    return v
            return mk("kn", k["promoted"])
        if "named" in k:
            b = self.p.bodies.get(k["named"])
            if b is not None and "::{constant#" in k["named"]:
                v = self.eval_promoted(b)
                if v is not None:
                    return v
            return mk("kn", k["named"])
        if "param" in k:
            return mk("kn", k["param"])
        m = re.search(r"Closure|closure", k.get("ty", ""))
        return mk("kn", "const:" + k.get("ty", "?"))

    def eval_promoted(self, b):
        # straight-line promoted bodies: evaluate as constants
        st = State({}, {}, ())
        fr = self.frame(None, b, "promoted", None, None, None)
        bb = 0
        for _ in range(20):
            blk = b.blocks[bb]
            for s in blk[0]:
                if s[0] == "=":
                    r, p = self.resolve(st, fr, s[1])
                    self.write(st, r, p, self.rvalue(st, fr, s[2]))
            t = blk[1]
            if t[0] == "ret":
                v = self.read(st, mk("L", fr.fid, 0), ())
                return self.snap(st, v)
            if t[0] == "goto":
                bb = t[1]
                continue
            if t[0] == "assert":
                bb = t[3]
                continue
            if t[0] == "call" and t[1][0] == "k" and "fn" in t[1][1] and t[1][1]["fn"]["name"].endswith("intrinsics::offset_of"):
                v = self.offset_of(t[1][1]["fn"]["targs"][0], [self.operand(st, fr, x) for x in t[2]])
                if v is None:
                    return None
                r, p = self.resolve(st, fr, t[3])
                self.write(st, r, p, v)
                bb = t[4]
                continue
            return None
        return None

    def offset_of(self, ty, args):
        l = self.p.layouts.get(ty) or self.p.layouts.get(re.sub("'[a-z_]+", "'_", ty)) or {}
        i = args[1].a[0] if len(args) == 2 and is_k(args[1]) else None
        fs = l.get("fields")
        return K(fs[i]["off"]) if i is not None and fs and i < len(fs) else None

    def cval(self, v, ty="", named=None):
        if isinstance(v, bool):
            return K(v)
        if isinstance(v, int):
            return K(v)
        if isinstance(v, str):
            return mk("str", v)
        if isinstance(v, list):
            return mk("array", *[self.cval(x) for x in v])
        if v is None:
            return mk("kn", named or ty)
        if "adt" in v:
            f = v.get("fields", {})
            z = const_int(v)
            if z is not None:
                return z
            names = tuple(f.keys()) if isinstance(f, dict) else tuple(str(i) for i in range(len(f)))
            vals = list(f.values()) if isinstance(f, dict) else f
            return mk("adt", v["adt"], v.get("vi", 0), v.get("var", ""), names, *[self.cval(x) for x in vals])
        if "tuple" in v:
            return mk("tuple", *[self.cval(x) for x in v["tuple"]])
        if "array" in v:
            return mk("array", *[self.cval(x) for x in v["array"]])
        if "ref" in v:
            return mk("rv", self.cval(v["ref"]))
        if "str" in v:
            return mk("str", v["str"])
        if "bytes" in v:
            return mk("array", *[K(x) for x in v["bytes"]])
        if "static" in v:
            return mk("static", v["static"])
        if "fn" in v:
            f = v["fn"]
            if isinstance(f, dict):
                return mk("fn", f.get("rid") or f["id"], f["name"])
            return mk("fn", f, f)
        return mk("kn", named or json.dumps(v, sort_keys=True)[:80])

    def operand(self, st, fr, op):
        if op[0] == "k":
            if "param" in op[1] and "v" not in op[1]:
                g = fr.generic(op[1]["param"].split("/")[0])
                if g is not None and g.isdigit():
                    return K(int(g))
            return self.const(op[1])
        root, proj = self.resolve(st, fr, op[1])
        return self.read(st, root, proj)

    def optype(self, fr, op):
        if op[0] == "k":
            return op[1].get("ty", "")
        if len(op[1]) == 1:
            return fr.body.locals[op[1][0]]
        return ""

    def binop(self, op, a, b):
        op0 = op
        for suf in ("WithOverflow", "Unchecked"):
            if op.endswith(suf):
                op0 = op[: -len(suf)]
        ka, kb = (a.a[0] if a.op == "k" else None), (b.a[0] if b.op == "k" else None)
        if op0 in ("Eq", "Ne"):
            r = eq(a, b)
            return r if op0 == "Eq" else neg(r)
        if op0 == "Lt":
            return lt(a, b)
        if op0 == "Gt":
            return lt(b, a)
        if op0 == "Le":
            return neg(lt(b, a))
        if op0 == "Ge":
            return neg(lt(a, b))
        if ka is not None and kb is not None:
            try:
                v = {"Add": lambda: ka + kb, "Sub": lambda: ka - kb, "Mul": lambda: ka * kb, "BitAnd": lambda: ka & kb,
                     "BitOr": lambda: ka | kb, "BitXor": lambda: ka ^ kb, "Shl": lambda: ka << min(kb, 300),
                     "Shr": lambda: ka >> min(kb, 300), "Div": lambda: ka // kb if kb else None,
                     "Rem": lambda: ka % kb if kb else None}.get(op0, lambda: None)()
            except (TypeError, OverflowError):
                v = None
            if v is not None and v >= 0:
                return K(v)
        if op0 == "Offset":
            return padd(a, b)
        if op0 == "BitOr":
            if ka == 0:
                return b
            if kb == 0:
                return a
            if a is TRUE and is_bool(b) or b is TRUE and is_bool(a):
                return TRUE
        if op0 == "BitAnd":
            if ka == 0 or kb == 0:
                return FALSE
            if a is TRUE and is_bool(b):
                return b
            if b is TRUE and is_bool(a):
                return a
        if op0 in ("Add", "BitOr", "BitAnd", "BitXor", "Mul"):
            if (a.id, ) > (b.id, ):
                a, b = b, a
            if op0 == "Add" and a.op == "k" and a.a[0] == 0:
                return b
            if op0 == "Add" and b.op == "k" and b.a[0] == 0:
                return a
        return mk("bin", op0, a, b)

    def rvalue(self, st, fr, rv):
        k = rv[0]
        if k == "use":
            return self.operand(st, fr, rv[1])
        if k == "ref":
            root, proj = self.resolve(st, fr, rv[1])
            if root.op == "V" and not proj:
                return mk("rv", root.a[0])
            if root.op == "V":
                return mk("rv", self.read(st, root, proj))
            if root.op == "D" and not proj and rv[2] != "mut" and False:
                return root.a[0]
            return mk("ref", root, proj, rv[2])
        if k == "bin":
            a = self.operand(st, fr, rv[2])
            b = self.operand(st, fr, rv[3])
            r = self.binop(rv[1], a, b)
            if self.h.typed and r.op == "bin" and a.op == "k" and b.op == "k":
                r = signed_fold(self.optype(fr, rv[2]) or self.optype(fr, rv[3]), r)
            if rv[1].endswith("WithOverflow"):
                return mk("tuple", r, mk("ovf", rv[1][:-12], a, b))
            return r
        if k == "un":
            a = self.operand(st, fr, rv[2])
            if rv[1] == "Not":
                ty = self.optype(fr, rv[2])
                if ty in UWIDTH:
                    if a.op == "k":
                        return K(~a.a[0] & ((1 << UWIDTH[ty]) - 1))
                    return mk("bin", "BitXor", a, K((1 << UWIDTH[ty]) - 1)) if self.h.typed else mk("un", "Not", a)
                if is_bool(a) or (a.op == "k" and a.a[0] in (0, 1)):
                    return neg(a)
                return neg(a) if ty == "bool" else mk("un", "Not", a)
            if rv[1] == "PtrMetadata":
                return self.len_of(st, a)
            if rv[1] == "Neg" and is_k(a) and self.h.typed:
                return K(-a.a[0])
            return mk("un", rv[1], a)
        if k == "cast":
            a = self.operand(st, fr, rv[2])
            ck, ty = rv[1], rv[3]
            if a.op == "k":
                if "Transmute" in ck:
                    for p in self.p._discr:
                        if norm_ty(ty) == p.split("::")[-1]:
                            v = self.p.variant_by_discr(p, a.a[0])
                            if v:
                                return mk("adt", p, v[0], v[1], ())
                    return a
                if "IntToInt" in ck:
                    if self.h.typed and ty in IWIDTH and isinstance(a.a[0], int):
                        return K(to_signed(a.a[0], IWIDTH[ty]))
                    bits = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "u128": 128, "i32": 32, "i64": 64, "isize": 64}.get(ty)
                    return K(a.a[0] & ((1 << bits) - 1)) if bits else a
                return a
            if "Transmute" in ck and a.op == "discr":
                return a.a[0]
            if "IntToInt" in ck:
                src = self.optype(fr, rv[2])
                if src == ty or {src, ty} <= {"u64", "usize"}:
                    return a
                return mk("cast", ty, a)
            if "Float" in ck:
                return mk("cast", ty, a)
            return a  # pointer casts, unsize, transmute, reify: identity
        if k == "agg":
            ops = [self.operand(st, fr, o) for o in rv[2]]
            h = rv[1]
            if h[0] == "tuple":
                return mk("tuple", *ops)
            if h[0] == "array":
                return mk("array", *ops)
            if h[0] == "adt":
                names = tuple(h[4])[: len(ops)] if len(h[4]) >= len(ops) else tuple(str(i) for i in range(len(ops)))
                return mk("adt", h[1], h[2], h[3], names, *ops)
            if h[0] == "closure":
                return mk("closure", h[1], *ops)
            return mk("agg", str(h[0]), *ops)
        if k == "discr":
            root, proj = self.resolve(st, fr, rv[1])
            return self.discr(st, self.read(st, root, proj), rv[2] if len(rv) > 2 else "")
        if k == "repeat":
            return mk("repeat", self.operand(st, fr, rv[1]))
        if k == "tls":
            return mk("static", str(rv[1]))
        if k == "len":
            root, proj = self.resolve(st, fr, rv[1])
            return self.len_of(st, self.read(st, root, proj))
        return mk("rv?", str(k))

    def len_of(self, st, a):
        if a.op == "rv":
            a = a.a[0]
        elif a.op == "ref":
            a = self.read(st, a.a[0], a.a[1])
        if a.op == "array":
            return K(len(a.a))
        return mk("len", a)

    def discr(self, st, v, ty=""):
        if v.op == "adt":
            return K(self.p.discr_of(v.a[0], v.a[1]))
        if v.op == "phi":
            ds = [self.discr(st, x, ty) for x in v.a[0]]
            r = ds[0]
            for d in ds[1:]:
                r = phi_join(r, d)
            return r
        return mk("discr", v)

    def snap(self, st, t, d=0):
        """Replace references to frame locals by snapshots of what they point to."""
        o = t.op
        if o == "ref" and t.a[0].op == "L":
            if d > 6:
                return TOP
            return mk("rv", self.snap(st, self.read(st, t.a[0], t.a[1]), d + 1))
        if o in ("adt", "tuple", "array", "closure", "box", "rv", "ovl", "phi", "mut") and d <= 6 and any(
                s.op == "ref" and s.a[0].op == "L" for s in subterms(t)):
            if o == "phi":
                return mk("phi", frozenset(self.snap(st, x, d + 1) for x in t.a[0]))
            return mk(o, *[self.snap(st, x, d + 1) if x.__class__ is T else x for x in t.a])
        return t

    # ---------------------------------------------------------------- facts
    def known(self, st, t):
        """Known integer value of t, or None; second: excluded set."""
        if t.op == "k":
            return t.a[0], None
        if t.op == "not":
            v, _ = self.known(st, t.a[0])
            return (None if v is None else 1 - v), None
        f = st.facts.get(t)
        if isinstance(f, int):
            return f, None
        if t.op == "eq":
            a, b = t.a
            for x, y in ((a, b), (b, a)):
                if y.op == "k":
                    v, ex = self.known(st, x)
                    if v is not None:
                        return int(v == y.a[0]), None
                    if ex and y.a[0] in ex:
                        return 0, None
        if t.op == "bin" and t.a[0] in ("BitAnd", "BitOr") and is_bool(t.a[1]) and is_bool(t.a[2]):
            va, _ = self.known(st, t.a[1])
            vb, _ = self.known(st, t.a[2])
            if t.a[0] == "BitAnd":
                if va == 0 or vb == 0:
                    return 0, None
                if va == 1 and vb == 1:
                    return 1, None
            else:
                if va == 1 or vb == 1:
                    return 1, None
                if va == 0 and vb == 0:
                    return 0, None
        if isinstance(f, tuple):
            return None, f[1]
        return None, None

    def assume(self, st, fr, t, v):
        """Record t == v (int). Returns False when contradictory."""
        if t.op == "k":
            return t.a[0] == v
        if t.op == "phi":
            ks = [x for x in t.a[0] if x.op == "k"]
            if len(ks) == len(t.a[0]) and all(x.a[0] != v for x in ks):
                return False
            return True
        if t.op == "not":
            return self.assume(st, fr, t.a[0], 1 - v)
        kv, ex = self.known(st, t)
        if kv is not None:
            return kv == v
        if ex and v in ex:
            return False
        if self.h.keep_fact(t):
            st.facts[t] = v
        if t.op == "eq":
            a, b = t.a
            for x, y in ((a, b), (b, a)):
                if y.op == "k" and x.op != "k":
                    if v == 1:
                        if not self.assume(st, fr, x, y.a[0]):
                            return False
                    else:
                        self.exclude(st, x, frozenset((y.a[0],)))
        if t.op == "bin" and is_bool(t.a[1]) and is_bool(t.a[2]):
            if t.a[0] == "BitAnd" and v == 1 or t.a[0] == "BitOr" and v == 0:
                return self.assume(st, fr, t.a[1], v) and self.assume(st, fr, t.a[2], v)
        return True

    def exclude(self, st, t, vals):
        f = st.facts.get(t)
        if isinstance(f, int):
            return f not in vals
        if not self.h.keep_fact(t):
            return True
        old = f[1] if isinstance(f, tuple) else frozenset()
        st.facts[t] = ("ne", old | vals)
        return True

    # ---------------------------------------------------------------- main loop
    def run(self, body, args=None, flags=(), facts=None, env=None):
        fr = self.frame(None, body, "root", None, None, None)
        st = State({}, dict(facts or {}), flags)
        for i in range(1, body.nargs + 1):
            st.env[mk("L", fr.fid, i)] = (args or {}).get(i) or mk("arg", i)
        if env:
            st.env.update(env)
        self.root = fr
        if self.exact:
            return self.run_exact(fr, st, body)
        nodes = {}
        joins = {}
        work = deque()

        def push(f, bb, s):
            nd = nodes.setdefault((f.fid, bb), {})
            key = (s.flags, frozenset(s.facts.items()))
            if self.h.typed:
                key += (frozenset((r, pkey(v)) for r, v in s.env.items() if v.op in PART or v.op == "adt" and v.a[0].endswith("option::Option")),)
            if key not in nd and len(nd) >= self.max_part:
                key = (s.flags, "*")
                self.over = True
            old = nd.get(key)
            if old is None:
                nd[key] = s
                self.partitions += 1
                work.append((f, bb, key))
                return
            n = joins.get((f.fid, bb, key), 0) + 1
            joins[(f.fid, bb, key)] = n
            if n > 40:
                return
            ch, ns = self.join(old, s, widen=n > 6)
            if ch:
                nd[key] = ns
                work.append((f, bb, key))

        push(fr, 0, st)
        while work:
            f, bb, key = work.popleft()
            self.steps += 1
            if self.steps > self.max_steps:
                raise Limit(f"analysis of {body.name} exceeded {self.max_steps} steps")
            s = nodes[(f.fid, bb)][key].copy()
            for nf, nbb, ns in self.block(f, bb, s):
                push(nf, nbb, ns)
        self.nodes = nodes
        return self

    def run_exact(self, fr, st, body):
        old, terms.MAXN = terms.MAXN, 1 << 30
        try:
            work = [(fr, 0, st)]
            while work:
                f, bb, s = work.pop()
                self.steps += 1
                if self.steps > self.max_steps:
                    raise Limit(f"analysis of {body.name} exceeded {self.max_steps} steps")
                for nf, nbb, ns in self.block(f, bb, s):
                    self.partitions += 1
                    work.append((nf, nbb, ns))
                if len(work) > self.max_part:
                    raise Limit(f"analysis of {body.name} exceeded {self.max_part} open paths; undecided: " + "; ".join(show(k)[:160] for k in list(work[-1][2].facts)[-3:]))
        finally:
            terms.MAXN = old
        self.nodes = {}
        return self

    def join(self, a, b, widen=False):
        env = {}
        ch = False
        for r in a.env.keys() | b.env.keys():
            x, y = a.env.get(r), b.env.get(r)
            if x is y:
                env[r] = x
                continue
            if x is None or y is None:
                if r.op == "D":
                    d = mk("deref", r.a[0])
                    x = x or d
                    y = y or d
                else:
                    env[r] = x or y
                    if x is None:
                        ch = True
                    continue
            j = phi_join(x, y)
            if widen and j is not x:
                j = leafset([x, y])
            if j is not x:
                ch = True
            env[r] = j
        facts = {}
        for t, v in a.facts.items():
            w = b.facts.get(t)
            if w == v:
                facts[t] = v
            elif isinstance(w, tuple) and isinstance(v, tuple):
                i = w[1] & v[1]
                if i:
                    facts[t] = ("ne", i)
        if facts != a.facts:
            ch = True
        return ch, State(env, facts, a.flags, a.trail)

    def block(self, fr, bb, st):
        self.visited_bodies.add(fr.body.id)
        blk = fr.body.blocks[bb]
        for s in blk[0]:
            k = s[0]
            if k == "=":
                v = self.rvalue(st, fr, s[2])
                root, proj = self.resolve(st, fr, s[1])
                if root.op != "L":
                    self.h.on_store(self, st, fr, root, proj, v, s[3])
                self.write(st, root, proj, v)
            elif k == "dead":
                st.env.pop(mk("L", fr.fid, s[1]), None)
            elif k == "setd":
                root, proj = self.resolve(st, fr, s[1])
                self.write(st, root, proj, mk("variant", s[2]))
        return self.term(fr, bb, st, blk[1])

    def term(self, fr, bb, st, t):
        k = t[0]
        if k == "goto":
            return [(fr, t[1], st)]
        if k == "switch":
            return self.switch(fr, bb, st, t)
        if k == "ret":
            return self.ret(fr, st)
        if k == "drop":
            root, proj = self.resolve(st, fr, t[1])
            self.h.on_drop(self, st, fr, t[4] if len(t) > 4 else "", self.read(st, root, proj), t[3])
            return [(fr, t[2], st)]
        if k == "assert":
            c = self.operand(st, fr, t[1])
            kv, _ = self.known(st, c)
            exp = 1 if t[2] else 0
            if kv is not None and kv != exp:
                return []
            if c.op != "ovf" and not (c.op == "not" and c.a[0].op == "ovf"):
                self.assume(st, fr, c, exp)
            return [(fr, t[3], st)]
        if k in ("call", "tailcall"):
            return self.call(fr, bb, st, t)
        if k == "asm":
            self.h.on_call(self, st, fr, "asm!", None, [], (fr.body.id, bb))
            return [(fr, x, st) for x in (t[3] if isinstance(t[3], list) else [])]
        return []

    def switch(self, fr, bb, st, t):
        c = self.operand(st, fr, t[1])
        kv, ex = self.known(st, c)
        out = []
        vals = [v for v, _ in t[2]]
        isb = len(t) > 5 and t[5] == "bool"
        if kv is not None:
            for v, b in t[2]:
                if v == kv:
                    return [(fr, b, st)]
            return [(fr, t[3], st)] if t[3] is not None else []
        phiks = None
        if c.op == "phi" and all(x.op == "k" for x in c.a[0]):
            phiks = {x.a[0] for x in c.a[0]}
        for v, b in t[2]:
            if ex and v in ex:
                continue
            if phiks is not None and v not in phiks:
                continue
            s = st.copy()
            if self.assume(s, fr, c, v):
                self.h.on_edge(self, s, fr, c, v)
                out.append((fr, b, s))
        if t[3] is not None and not self.is_unreach(fr.body, t[3]):
            s = st.copy()
            ok = True
            if phiks is not None and not (phiks - set(vals)):
                ok = False
            elif isb and vals == [0]:
                ok = self.assume(s, fr, c, 1)
                if ok:
                    self.h.on_edge(self, s, fr, c, 1)
            else:
                if c.op != "not":
                    ok = self.exclude(s, c, frozenset(vals))
                if ok:
                    self.h.on_edge(self, s, fr, c, ("ne", frozenset(vals)))
            if ok:
                out.append((fr, t[3], s))
        return out

    def is_unreach(self, body, bb):
        b = body.blocks[bb]
        return b[1][0] == "unreach" and not b[0]

    def ret(self, fr, st):
        v = self.read(st, mk("L", fr.fid, 0), ())
        v = self.snap_frame(st, fr, v)
        if fr.parent is None:
            self.h.on_return(self, st, fr, v)
            return []
        for r in [r for r in st.env if r.op == "L" and r.a[0] == fr.fid]:
            del st.env[r]
        if fr.wrap is not None:
            v = fr.wrap(self, st, v)
        return self.finish_any(fr.parent, st, fr.dest, fr.target, v)

    def finish_any(self, fr, st, dest, target, v):
        if isinstance(v, list):  # wrap yields several continuations
            out = []
            for s2, v2 in v:
                out += self.finish_any(fr, s2, dest, target, v2)
            return out
        if isinstance(v, Cont):
            return v.f(self, st)
        return self.finish(fr, st, dest, target, v)

    def snap_frame(self, st, fr, t, d=0):
        """Only refs into this frame's locals dangle on return: snapshot them."""
        if any(s.op == "ref" and s.a[0].op == "L" and s.a[0].a[0] == fr.fid for s in subterms(t)):
            return self.snap(st, t)
        return t

    def finish(self, fr, st, dest, target, v):
        if target is None:
            return []
        if dest is not None:
            root, proj = self.resolve(st, fr, dest)
            if root.op != "L":
                self.h.on_store(self, st, fr, root, proj, v, "")
            self.write(st, root, proj, v)
        return [(fr, target, st)]

    # ---------------------------------------------------------------- calls
    def call(self, fr, bb, st, t):
        fop, argops, dest = t[1], t[2], t[3]
        target = t[4] if len(t) > 4 else None
        span = t[5] if len(t) > 5 else ""
        args = [self.operand(st, fr, a) for a in argops]
        tys = [self.optype(fr, a) for a in argops]
        site = f"{fr.body.id}#{bb}"
        self.sites.add(site)
        if fop[0] == "k" and "fn" in fop[1]:
            fn = fop[1]["fn"]
        else:
            ft = self.operand(st, fr, fop)
            if ft.op == "fn":
                fn = {"id": ft.a[0], "name": ft.a[1]}
            elif ft.op == "closure":
                return self.enter_closure(fr, st, ft, args, dest, target, site, None) or []
            else:
                fn = {"id": "?indirect", "name": "?indirect"}
                args = [ft] + args
                tys = [""] + tys
        return self.invoke(fr, st, fn, args, tys, dest, target, site, span)

    def invoke(self, fr, st, fn, args, tys, dest, target, site, span="", wrap=None):
        short = short_name(fn["name"])
        self.cur_span = span
        if short in ("PartialOrd::le", "__macro_support::__is_enabled") and "tracing" in (str(fn.get("targs")) + fn["name"]):
            return self.fin_wrap(fr, st, dest, target, FALSE, wrap)  # logging is assumed off: it has no effect on the program
        r = self.h.on_call(self, st, fr, short, fn, args, site)
        if r is not None:
            if r == "stop":
                return []
            if isinstance(r, T):
                return self.fin_wrap(fr, st, dest, target, r, wrap)
            if isinstance(r, list):  # [(state, value)]
                out = []
                for s2, v2 in r:
                    out += self.fin_wrap(fr, s2, dest, target, v2, wrap)
                return out
        mm = self.h.models.get(short)
        if mm is not None:
            o = mm(self, fr, st, fn, args, dest, target, site, wrap)
            if o is not None:
                return o
        # closures called through Fn* traits
        rid = fn.get("rid") or fn["id"]
        last = short.split("::")[-1]
        if last in ("call_once", "call_mut", "call") and short.split("::")[0] in ("FnOnce", "FnMut", "Fn") and args:
            c = self.peel(st, args[0])
            targs = list(args[1].a) if len(args) > 1 and args[1].op == "tuple" else list(args[1:])
            if c.op == "closure":
                o = self.enter_closure(fr, st, c, targs, dest, target, site, wrap, args[0])
                if o is not None:
                    return o
            elif c.op == "fn":
                return self.invoke(fr, st, {"id": c.a[0], "name": c.a[1]}, targs, [""] * len(targs), dest, target, site + "f", span, wrap)
            elif rid in self.p.bodies and self.p.bodies[rid].kind == "Closure":
                o = self.enter(fr, st, self.p.bodies[rid], [args[0]] + targs, dest, target, site, wrap)
                if o is not None:
                    return o
            return self.opaque(fr, st, short, fn, args, tys, dest, target, site, wrap)
        body = self.p.bodies.get(rid)
        if body is None and not fn.get("virtual"):
            body = self.p.bodies.get(fn["id"])
        if body is not None and fn.get("virtual"):
            body = None
        if body is not None and self.h.inline(self, fr, body, args):
            a2 = args
            if body.kind == "Closure" and len(args) == 2 and args[1].op == "tuple" and body.nargs != 2:
                a2 = [args[0]] + list(args[1].a)
            o = self.enter(fr, st, body, a2, dest, target, site, wrap)
            if o is not None:
                g, ta = body.d.get("generics") or [], fn.get("targs") or []
                if "rid" not in fn and len(g) == len(ta):
                    for n, v in zip(g, ta):
                        if v.isdigit() or v in (fr.gen or {}):
                            o[0][0].gen[n] = v if v.isdigit() else fr.gen[v]
                return o
        if self.h.typed:
            r = typed_int(self, st, short, fn, args)
            if r is not None:
                return self.fin_wrap(fr, st, dest, target, r, wrap)
        m = MODELS.get(short) or MODELS.get("*::" + last)
        if m is not None:
            o = m(self, fr, st, fn, args, dest, target, site, wrap)
            if o is not None:
                return o
        if short in IDENT and args:
            v = args[0]
            if short not in ("Into::into",) or True:
                if short in ("Clone::clone", "Option::copied", "Option::cloned", "ToOwned::to_owned"):
                    v = self.peel(st, v)
                    if v.op == "adt" and v.a[2] == "Some" and len(v.a) == 5:
                        v = mk("adt", *v.a[:4], self.peel(st, v.a[4]))
                if short == "Into::into":
                    o = self.convert(fr, st, fn, v, dest, target, site, wrap)
                    if o is not None:
                        return o
                if short in ("Deref::deref", "DerefMut::deref_mut", "AsRef::as_ref", "AsMut::as_mut", "Borrow::borrow"):
                    # &Box<T>/&Arc<T>/&Vec<T> -> &T : stay on the same location unless a box
                    w = self.peel1(st, v)
                    if w is not None and w.op in ("ref", "rv") and ("mapref" in (fn.get("rname") or "") or "MutexGuard" in (fn.get("rname") or "")):
                        v = w
                    elif w is not None and w.op == "box":
                        v = mk("rv", w.a[0])
                    elif w is not None and ("Arc<" in (fn.get("rname") or "") or "Box<" in (fn.get("rname") or "") or "Cow<" in (fn.get("rname") or "")):
                        v = w if w.op in ("ref", "rv") else mk("ref", mk("D", w), (), "mut")
                return self.fin_wrap(fr, st, dest, target, v, wrap)
        return self.opaque(fr, st, short, fn, args, tys, dest, target, site, wrap)

    def convert(self, fr, st, fn, v, dest, target, site, wrap):
        ta = fn.get("targs") or []
        if len(ta) >= 2:
            src, dst = norm_ty(ta[0]), norm_ty(ta[1])
            if src == dst:
                return self.fin_wrap(fr, st, dest, target, v, wrap)
            iid = self.p._from.get((src, dst))
            if iid and iid in self.p.bodies:
                return self.enter(fr, st, self.p.bodies[iid], [v], dest, target, site + "into", wrap)
            if dst in ("EvmWord", "U256") or src.startswith("&") or "Uint" in dst or dst.startswith("Option") or "Bytes" in dst or "String" in dst or "Box" in dst or dst in _INT:
                return None
            return self.fin_wrap(fr, st, dest, target, mk("conv", dst, v), wrap)
        return None

    def fin_wrap(self, fr, st, dest, target, v, wrap):
        if wrap is not None:
            v = wrap(self, st, v)
        return self.finish_any(fr, st, dest, target, v)

    def peel1(self, st, t):
        if t.op == "ref":
            return self.read(st, t.a[0], t.a[1])
        if t.op in ("rv",):
            return t.a[0]
        return None

    def peel(self, st, t, n=6):
        while n and t.op in ("ref", "rv"):
            t = self.read(st, t.a[0], t.a[1]) if t.op == "ref" else t.a[0]
            n -= 1
        return t

    def enter_closure(self, fr, st, c, targs, dest, target, site, wrap, selfarg=None):
        b = self.p.bodies.get(c.a[0])
        if b is None:
            return None
        ty = b.locals[1] if len(b.locals) > 1 else ""
        me = c
        if ty.startswith("&"):
            if selfarg is not None and selfarg.op in ("ref", "rv"):
                me = selfarg
                # strip extra reference levels
                while True:
                    inner = self.peel1(st, me)
                    if inner is not None and inner.op in ("ref", "rv"):
                        me = inner
                    else:
                        break
            else:
                me = mk("rv", c)
        return self.enter(fr, st, b, [me] + targs, dest, target, site, wrap)

    def enter(self, fr, st, body, args, dest, target, site, wrap):
        if body.id in fr.chain or fr.depth >= self.max_depth:
            return None
        nf = self.frame(fr, body, site, dest, target, wrap)
        nf.wrap = wrap
        for i in range(1, body.nargs + 1):
            st.env[mk("L", nf.fid, i)] = args[i - 1] if i - 1 < len(args) else TOP
        return [(nf, 0, st)]

    def opaque(self, fr, st, short, fn, args, tys, dest, target, site, wrap):
        snaps = [shrink(self.snap(st, a)) for a in args]
        pure = short in PURE
        if pure:
            snaps = [self.peel(st, a) if a.op in ("ref", "rv") else a for a in snaps]
            if short in ("PartialEq::eq", "PartialEq::ne") and len(snaps) == 2:
                while all(x.op in ("ref", "rv") for x in snaps):
                    snaps = [self.peel1(st, x) for x in snaps]
                r = eq(*snaps)
                return self.fin_wrap(fr, st, dest, target, r if short.endswith("eq") else neg(r), wrap)
            if short in ("PartialOrd::lt", "PartialOrd::gt", "PartialOrd::le", "PartialOrd::ge"):
                r = self.binop(short[-2:].capitalize(), *snaps)
                return self.fin_wrap(fr, st, dest, target, r, wrap)
        if not pure:
            snaps = [leafset([a]) if has_site(a, site) else a for a in snaps]
        v = mk("call", short, "" if pure else site, *snaps)
        if not pure:
            for f in [f for f in st.facts if has_site(f, site)]:
                del st.facts[f]
            self.havoc(st, short, site, args, tys)
        cl = None
        if target is not None and short not in NOCLOSURE:
            for i, a in enumerate(args):
                c = self.peel(st, a)
                if c.op == "closure" and c.a[0] in self.p.bodies and "__CALLSITE" not in c.a[0]:
                    cl = (i, c, a)
        out = []
        if cl is not None:
            i, c, a = cl
            b = self.p.bodies[c.a[0]]
            syms = [mk("fld", mk("var", mk("call", short + "$item", site, *[x for j, x in enumerate(snaps) if j != i]), "item"), str(j)) for j in range(b.nargs - 1)]
            s2 = st.copy()
            o = self.enter_closure(fr, s2, c, syms, dest, target, site + "$c", lambda eng, s, r, v=v, w=wrap: (w(eng, s, mk("call", v.a[0], v.a[1], *v.a[2:], r)) if w else shrink(mk("call", v.a[0], v.a[1], *v.a[2:], r))), a)
            if o is not None:
                out += o
        return out + self.fin_wrap(fr, st, dest, target, v, wrap)

    def havoc(self, st, short, site, args, tys):
        locs = []
        for i, a in enumerate(args):
            for s in subterms(a):
                if s.op == "ref" and s.a[2] in ("mut", "raw"):
                    locs.append((s.a[0], s.a[1]))
            ty = tys[i] if i < len(tys) else ""
            if a.op not in ("ref", "rv", "k", "fn", "str", "static") and (ty.startswith("&mut") or ty.startswith("*mut")):
                locs.append((mk("D", a), ()))
        others = [shrink(self.snap(st, a)) for a in args]
        for root, proj in locs:
            if root.op == "V":
                continue
            old = self.read(st, root, proj)
            oth = [o for o, a in zip(others, args) if not (a.op == "ref" and (a.a[0], a.a[1]) == (root, proj))]
            so = self.snap(st, old) if old.op != "deref" else old
            if has_site(so, site):
                nv = mk("mut", short, site, leafset([so] + oth))
            else:
                nv = mk("mut", short, site, so, *oth)
            self.write(st, root, proj, shrink(nv))
            # facts about the old contents are stale
            if root.op == "D":
                path = old
                for f in [f for f in st.facts if contains_t(f, path)]:
                    if path.op in ("deref", "fld", "mut"):
                        del st.facts[f]


NOCLOSURE = {"thread::spawn", "Builder::spawn", "Builder::spawn_unchecked"}


_sitec = {}


def sites_in(t):
    r = _sitec.get(t)
    if r is None:
        s = set()
        if t.op in ("call", "mut") and t.a[1]:
            s.add(t.a[1])
        for k in kids(t):
            s |= sites_in(k)
        r = _sitec[t] = frozenset(s)
    return r


def has_site(t, site):
    return site in sites_in(t)


def contains_t(t, x):
    return t is x or (t.n > x.n and x in subterms(t))


def padd(p, k, sign=1):
    """pointer + k words."""
    if k.op == "k" and p.op == "padd" and p.a[1].op == "k":
        v = p.a[1].a[0] + sign * k.a[0]
        return p.a[0] if v == 0 else mk("padd", p.a[0], mk("k", v), *p.a[2:])
    if k.op == "k":
        if k.a[0] == 0:
            return p
        return mk("padd", p, mk("k", sign * k.a[0]))
    # symbolic: keep the constant part outermost
    if p.op == "padd" and p.a[1].op == "k":
        return padd(padd(p.a[0], k, sign), p.a[1])
    if p.op == "padd" and sign == -1 and p.a[1] is k and len(p.a) == 3 and p.a[2] == 1:
        return p.a[0]
    return mk("padd", p, k, sign)


def is_bool(t):
    return t.op in ("eq", "lt", "not", "ovf") or (t.op == "k" and t.a[0] in (0, 1)) or (
        t.op == "bin" and t.a[0] in ("BitAnd", "BitOr", "BitXor") and is_bool(t.a[1]) and is_bool(t.a[2])) or (
        t.op == "call" and t.a[0] in BOOLCALLS)


BOOLCALLS = {"SpecId::is_enabled_in", "slice::is_empty", "Vec::is_empty", "Bytes::is_empty", "Gas::record_regular_cost",
             "Gas::record_state_cost", "Host::is_amsterdam_eip8037_enabled", "InstFlags::contains", "bits::contains"}


def neg(t):
    if t.op == "not":
        return t.a[0]
    if t.op == "k":
        return K(1 - t.a[0]) if t.a[0] in (0, 1) else mk("not", t)
    return mk("not", t)


def eq_fields(x, y):
    """Equality of two field lists when it is decided or rests on one field."""
    if len(x) != len(y) or any(t.op in ("top", "leafs", "dead", "phi") for t in x + y):
        return None
    es = [eq(p, q) for p, q in zip(x, y)]
    if any(e == FALSE for e in es):
        return FALSE
    rest = [e for e in es if e != TRUE]
    if not rest:
        return TRUE
    return rest[0] if len(rest) == 1 else None


def eq(a, b):
    if a.op == "k" and b.op == "k":
        return K(a.a[0] == b.a[0])
    if a is b and a.op in ("sym", "sym2"):
        return TRUE
    # booleans compared with constants
    for x, y in ((a, b), (b, a)):
        if y.op == "k" and y.a[0] in (0, 1) and is_bool(x):
            return x if y.a[0] == 1 else neg(x)
    if a.op == "adt" and b.op == "adt" and a.a[0] == b.a[0]:
        if a is b and not contains(a, lambda t: t.op == "top"):
            return TRUE
        if a.a[1] != b.a[1]:
            return FALSE
        r = eq_fields(a.a[4:], b.a[4:])
        if r is not None:
            return r
    if a.op == "tuple" and b.op == "tuple" and len(a.a) == len(b.a):
        r = eq_fields(a.a, b.a)
        if r is not None:
            return r
    if a.op == "adt" and b.op != "adt" and len(a.a) == 4 or b.op == "adt" and a.op != "adt" and len(b.a) == 4:
        # fieldless variant against an opaque value: compare discriminants
        if a.op == "adt":
            a, b = b, a
        if a.op != "phi":
            return mk("eq", mk("discr", a), K(DISCR(b.a[0], b.a[1])))
    if a.op == "str" and b.op == "str":
        return K(a.a[0] == b.a[0])
    if a.id > b.id:
        a, b = b, a
    return mk("eq", a, b)


def lt(a, b):
    if a.op == "k" and b.op == "k":
        return K(a.a[0] < b.a[0])
    if b.op == "k" and b.a[0] == 0:
        return FALSE
    if a.op == "k" and a.a[0] == 0:
        return neg(eq(b, K(0)))  # 0 < b  <=>  b != 0 (unsigned)
    if b.op == "k" and b.a[0] == 1:
        return eq(a, K(0))
    return mk("lt", a, b)


_PROG = [None]


def DISCR(adt, vi):
    p = _PROG[0]
    return p.discr_of(adt, vi) if p else vi


def load(facts_dir):
    p = Program(facts_dir)
    _PROG[0] = p
    return p


# -------------------------------------------------------------------- models of std combinators
OPT = "core::option::Option"
RES = "core::result::Result"
CF = "core::ops::control_flow::ControlFlow"


def some(v):
    return mk("adt", OPT, 1, "Some", ("0",), v)


NONE = mk("adt", OPT, 0, "None", ())


def ok(v):
    return mk("adt", RES, 0, "Ok", ("0",), v)


def err(v):
    return mk("adt", RES, 1, "Err", ("0",), v)


def split(eng, fr, st, x, kind):
    """[(state, variant name, payload)] for an Option ('O') or Result ('R') value x."""
    names = {"O": ((1, "Some"), (0, "None")), "R": ((0, "Ok"), (1, "Err"))}[kind]
    if x.op == "adt":
        return [(st, x.a[2], x.a[4] if len(x.a) > 4 else UNIT)]
    if x.op == "phi" and all(y.op == "adt" for y in x.a[0]):
        out = []
        for d, n in names:
            pl = [y for y in x.a[0] if y.a[2] == n]
            if pl:
                v = None
                for y in sorted(pl, key=lambda y: y.id):
                    w = y.a[4] if len(y.a) > 4 else UNIT
                    v = w if v is None else phi_join(v, w)
                out.append((st.copy(), n, v))
        return out
    out = []
    d = mk("discr", x)
    kv, ex = eng.known(st, d)
    for v, n in names:
        if kv is not None and kv != v:
            continue
        s = st.copy()
        if kv is None and not eng.assume(s, fr, d, v):
            continue
        pl = UNIT if n == "None" else eng.project(eng.project(x, ("v", n)), ("f", "0"))
        out.append((s, n, pl))
    return out


def kind_of(fn):
    s = (fn.get("rname") or "") + fn["name"]
    return "O" if "ption" in s.split(" as ")[0] and "esult" not in s.split(" as ")[0] else "R"


def _multi(eng, fr, res, dest, target, wrap):
    out = []
    for s, v in res:
        out += eng.fin_wrap(fr, s, dest, target, v, wrap)
    return out


def m_branch(eng, fr, st, fn, args, dest, target, site, wrap):
    k = kind_of(fn)
    x = args[0]
    if "ControlFlow" in (fn.get("rname") or "").split(" as ")[0]:
        return None
    res = []
    for s, n, pl in split(eng, fr, st, x, k):
        if n in ("Ok", "Some"):
            res.append((s, mk("adt", CF, 0, "Continue", ("0",), pl)))
        else:
            res.append((s, mk("adt", CF, 1, "Break", ("0",), NONE if n == "None" else err(pl))))
    return _multi(eng, fr, res, dest, target, wrap)


def m_from_residual(eng, fr, st, fn, args, dest, target, site, wrap):
    x = args[0]
    if x.op != "adt":
        return None
    if x.a[2] == "None":
        return eng.fin_wrap(fr, st, dest, target, NONE, wrap)
    e = x.a[4]
    ta = fn.get("targs") or []
    if len(ta) == 2:
        m1 = re.search(r"Result<(.*)>$", norm_ty(ta[0]))
        m2 = re.search(r"Result<!,(.*)>$", norm_ty(ta[1]))
        if m1 and m2:
            dst = split_targs(m1.group(1))[-1]
            src = m2.group(1)
            if src == dst:
                return eng.fin_wrap(fr, st, dest, target, err(e), wrap)
            iid = eng.p._from.get((src, dst))
            if iid and iid in eng.p.bodies:
                w = (lambda en, s, v: wrap(en, s, err(v))) if wrap else (lambda en, s, v: err(v))
                return eng.enter(fr, st, eng.p.bodies[iid], [e], dest, target, site + "from", w)
            return eng.fin_wrap(fr, st, dest, target, err(mk("conv", dst, e)), wrap)
    return eng.fin_wrap(fr, st, dest, target, err(e), wrap)


def split_targs(s):
    out, cur, d = [], "", 0
    for i, c in enumerate(s):
        if c in "<([":
            d += 1
        elif c in ")]" or (c == ">" and s[i - 1] not in "-="):
            d -= 1
        if c == "," and d == 0:
            out.append(cur)
            cur = ""
        else:
            cur += c
    out.append(cur)
    return out


def call_f(eng, fr, st, f, fargs, dest, target, site, wrap):
    """Call a closure / fn value; falls back to an opaque application."""
    c = eng.peel(st, f)
    if c.op == "closure":
        o = eng.enter_closure(fr, st, c, fargs, dest, target, site, wrap, f)
        if o is not None:
            return o
    if c.op == "fn":
        # tuple-struct / variant constructors
        nm = c.a[1].split("::")[-1]
        if nm in ("Some", "Ok", "Err"):
            return eng.fin_wrap(fr, st, dest, target, {"Some": some, "Ok": ok, "Err": err}[nm](fargs[0]), wrap)
        own = "::".join(c.a[1].split("::")[:-1])
        for p in [p for p in eng.p.adts if p == own or p.endswith("::" + own)] if own and nm[:1].isupper() else []:
            for i, v in enumerate(eng.p.adts[p].get("variants", ())):
                if v["name"] == nm and len(v["fields"]) == len(fargs):
                    return eng.fin_wrap(fr, st, dest, target, mk("adt", p, i, nm, tuple(str(k) for k in range(len(fargs))), *fargs), wrap)
        return eng.invoke(fr, st, {"id": c.a[0], "name": c.a[1]}, fargs, [""] * len(fargs), dest, target, site, "", wrap)
    return eng.fin_wrap(fr, st, dest, target, mk("call", "apply", site, c, *fargs), wrap)


def comp(wrap, f):
    return (lambda en, s, v: wrap(en, s, f(v))) if wrap else (lambda en, s, v: f(v))


def m_map(eng, fr, st, fn, args, dest, target, site, wrap):
    k = "O" if short_name(fn["name"]).startswith("Option") else "R"
    out = []
    for s, n, pl in split(eng, fr, st, args[0], k):
        if n in ("Some", "Ok"):
            out += call_f(eng, fr, s, args[1], [pl], dest, target, site + "m", comp(wrap, some if k == "O" else ok))
        else:
            out += eng.fin_wrap(fr, s, dest, target, NONE if k == "O" else err(pl), wrap)
    return out


def m_map_err(eng, fr, st, fn, args, dest, target, site, wrap):
    out = []
    for s, n, pl in split(eng, fr, st, args[0], "R"):
        if n == "Err":
            out += call_f(eng, fr, s, args[1], [pl], dest, target, site + "m", comp(wrap, err))
        else:
            out += eng.fin_wrap(fr, s, dest, target, ok(pl), wrap)
    return out


def m_and_then(eng, fr, st, fn, args, dest, target, site, wrap):
    k = "O" if short_name(fn["name"]).startswith("Option") else "R"
    out = []
    for s, n, pl in split(eng, fr, st, args[0], k):
        if n in ("Some", "Ok"):
            out += call_f(eng, fr, s, args[1], [pl], dest, target, site + "m", wrap)
        else:
            out += eng.fin_wrap(fr, s, dest, target, NONE if k == "O" else err(pl), wrap)
    return out


def m_ok_or(eng, fr, st, fn, args, dest, target, site, wrap):
    out = []
    for s, n, pl in split(eng, fr, st, args[0], "O"):
        if n == "Some":
            out += eng.fin_wrap(fr, s, dest, target, ok(pl), wrap)
        elif short_name(fn["name"]).endswith("else"):
            out += call_f(eng, fr, s, args[1], [], dest, target, site + "m", comp(wrap, err))
        else:
            out += eng.fin_wrap(fr, s, dest, target, err(args[1]), wrap)
    return out


def m_unwrap(eng, fr, st, fn, args, dest, target, site, wrap):
    k = "O" if short_name(fn["name"]).startswith("Option") else "R"
    want = ("Err",) if "err" in short_name(fn["name"]).split("::")[-1] else ("Some", "Ok")
    out = []
    for s, n, pl in split(eng, fr, st, args[0], k):
        if n in want:
            out += eng.fin_wrap(fr, s, dest, target, pl, wrap)
    return out


def m_unwrap_or(eng, fr, st, fn, args, dest, target, site, wrap):
    sn = short_name(fn["name"])
    k = "O" if sn.startswith("Option") else "R"
    out = []
    for s, n, pl in split(eng, fr, st, args[0], k):
        if n in ("Some", "Ok"):
            out += eng.fin_wrap(fr, s, dest, target, pl, wrap)
        elif sn.endswith("_else"):
            out += call_f(eng, fr, s, args[1], [pl] if k == "R" else [], dest, target, site + "m", wrap)
        elif sn.endswith("_default"):
            ty = (fn.get("targs") or [""])[0]
            db = [b for b in eng.p.bodies.values() if b.short == "Default::default" and b.locals and b.locals[0] == ty]
            if default_of(eng, ty) is not None:
                out += eng.fin_wrap(fr, s, dest, target, default_of(eng, ty), wrap)
            elif len(db) == 1 and eng.h.typed:
                out += eng.enter(fr, s, db[0], [], dest, target, site + "d", wrap)
            else:
                out += eng.fin_wrap(fr, s, dest, target, mk("default"), wrap)
        else:
            out += eng.fin_wrap(fr, s, dest, target, args[1], wrap)
    return out


def m_map_or(eng, fr, st, fn, args, dest, target, site, wrap):
    sn = short_name(fn["name"])
    k = "O" if sn.startswith("Option") else "R"
    out = []
    for s, n, pl in split(eng, fr, st, args[0], k):
        if n in ("Some", "Ok"):
            out += call_f(eng, fr, s, args[2], [pl], dest, target, site + "m", wrap)
        elif sn.endswith("_else"):
            out += call_f(eng, fr, s, args[1], [pl] if k == "R" else [], dest, target, site + "n", wrap)
        else:
            out += eng.fin_wrap(fr, s, dest, target, args[1], wrap)
    return out


def m_inspect(eng, fr, st, fn, args, dest, target, site, wrap):
    """Option/Result inspect and inspect_err: the closure sees the payload, the value passes through."""
    sn = short_name(fn["name"])
    k = "O" if sn.startswith("Option") else "R"
    want = ("Err",) if sn.endswith("_err") else ("Some", "Ok")
    out = []
    for s, n, pl in split(eng, fr, st, args[0], k):
        v = NONE if n == "None" else {"Some": some, "Ok": ok, "Err": err}[n](pl)
        if n in want:
            out += call_f(eng, fr, s, args[1], [pl if pl.op in ("ref", "rv") else mk("rv", pl)], dest, target, site + "i", lambda en, s2, r, v=v: wrap(en, s2, v) if wrap else v)
        else:
            out += eng.fin_wrap(fr, s, dest, target, v, wrap)
    return out


def m_and(eng, fr, st, fn, args, dest, target, site, wrap):
    k = "O" if short_name(fn["name"]).startswith("Option") else "R"
    out = []
    for s, n, pl in split(eng, fr, st, args[0], k):
        out += eng.fin_wrap(fr, s, dest, target, args[1] if n in ("Some", "Ok") else NONE if k == "O" else err(pl), wrap)
    return out


def m_xor(eng, fr, st, fn, args, dest, target, site, wrap):
    res = []
    for s, n, pl in split(eng, fr, st, args[0], "O"):
        for s2, n2, pl2 in split(eng, fr, s, args[1], "O"):
            res.append((s2, NONE if n == n2 else some(pl) if n == "Some" else some(pl2)))
    return _multi(eng, fr, res, dest, target, wrap)


def m_transpose(eng, fr, st, fn, args, dest, target, site, wrap):
    res = []
    if short_name(fn["name"]).startswith("Option"):
        for s, n, pl in split(eng, fr, st, args[0], "O"):
            if n == "None":
                res.append((s, ok(NONE)))
                continue
            for s2, n2, pl2 in split(eng, fr, s, pl, "R"):
                res.append((s2, ok(some(pl2)) if n2 == "Ok" else err(pl2)))
    else:
        for s, n, pl in split(eng, fr, st, args[0], "R"):
            if n == "Err":
                res.append((s, some(err(pl))))
                continue
            for s2, n2, pl2 in split(eng, fr, s, pl, "O"):
                res.append((s2, some(ok(pl2)) if n2 == "Some" else NONE))
    return _multi(eng, fr, res, dest, target, wrap)


def m_get_or_insert(eng, fr, st, fn, args, dest, target, site, wrap):
    x = args[0]
    if x.op != "ref":
        return None
    here = mk("ref", x.a[0], x.a[1] + (("v", "Some"), ("f", "0")), "mut")
    v = eng.read(st, x.a[0], x.a[1])
    if v.op != "adt":
        return None
    if v.a[2] == "Some":
        return eng.fin_wrap(fr, st, dest, target, here, wrap)

    def w(en, s, val):
        en.h.on_store(en, s, fr, x.a[0], x.a[1], some(val), "insert")
        en.write(s, x.a[0], x.a[1], some(val))
        return wrap(en, s, here) if wrap else here
    if short_name(fn["name"]).endswith("_with"):
        return call_f(eng, fr, st, args[1], [], dest, target, site + "g", w)
    return eng.fin_wrap(fr, st, dest, target, args[1], w)


def m_is_err_and(eng, fr, st, fn, args, dest, target, site, wrap):
    out = []
    for s, n, pl in split(eng, fr, st, args[0], "R"):
        if n == "Err":
            out += call_f(eng, fr, s, args[1], [pl], dest, target, site + "m", wrap)
        else:
            out += eng.fin_wrap(fr, s, dest, target, FALSE, wrap)
    return out


def m_is(eng, fr, st, fn, args, dest, target, site, wrap):
    sn = short_name(fn["name"])
    x = eng.peel(st, args[0])
    want = {"is_some": 1, "is_none": 0, "is_ok": 0, "is_err": 1}[sn.split("::")[1]]
    return eng.fin_wrap(fr, st, dest, target, eq(eng.discr(st, x), K(want)), wrap)


def m_is_and(eng, fr, st, fn, args, dest, target, site, wrap):
    sn = short_name(fn["name"])
    k = "O" if sn.startswith("Option") else "R"
    out = []
    none_or = sn.endswith("is_none_or")
    for s, n, pl in split(eng, fr, st, args[0], k):
        if n in ("Some", "Ok"):
            out += call_f(eng, fr, s, args[1], [pl], dest, target, site + "m", wrap)
        else:
            out += eng.fin_wrap(fr, s, dest, target, TRUE if none_or else FALSE, wrap)
    return out


def m_ok(eng, fr, st, fn, args, dest, target, site, wrap):
    out = []
    for s, n, pl in split(eng, fr, st, args[0], "R"):
        want = "Ok" if short_name(fn["name"]).endswith("::ok") else "Err"
        out += eng.fin_wrap(fr, s, dest, target, some(pl) if n == want else NONE, wrap)
    return out


def m_or_else(eng, fr, st, fn, args, dest, target, site, wrap):
    sn = short_name(fn["name"])
    k = "O" if sn.startswith("Option") else "R"
    out = []
    for s, n, pl in split(eng, fr, st, args[0], k):
        if n in ("Some", "Ok"):
            out += eng.fin_wrap(fr, s, dest, target, some(pl) if k == "O" else ok(pl), wrap)
        elif sn.endswith("else"):
            out += call_f(eng, fr, s, args[1], [pl] if k == "R" else [], dest, target, site + "m", wrap)
        else:
            out += eng.fin_wrap(fr, s, dest, target, args[1], wrap)
    return out


def m_filter(eng, fr, st, fn, args, dest, target, site, wrap):
    out = []
    for s, n, pl in split(eng, fr, st, args[0], "O"):
        if n == "None":
            out += eng.fin_wrap(fr, s, dest, target, NONE, wrap)
            continue

        def w(en, s2, v, pl=pl):
            res = []
            kv, _ = en.known(s2, v)
            for b in (1, 0):
                if kv is not None and kv != b:
                    continue
                s3 = s2.copy()
                if kv is None and not en.assume(s3, fr, v, b):
                    continue
                r = some(pl) if b else NONE
                if wrap:
                    r = wrap(en, s3, r)
                    if isinstance(r, list):
                        res += r
                        continue
                res.append((s3, r))
            return res
        out += call_f(eng, fr, s, args[1], [mk("rv", pl)], dest, target, f"{site}m{pl.id}", w)
    return out


def m_as_ref(eng, fr, st, fn, args, dest, target, site, wrap):
    x0 = args[0]
    x = eng.peel1(st, x0)
    if x is None:
        x = mk("deref", x0)
    k = "O" if "ption" in short_name(fn["name"]) else "R"
    if x.op == "adt":
        if len(x.a) > 4:
            v = mk("adt", *x.a[:4], mk("rv", x.a[4]) if x0.op != "ref" or x0.a[0].op == "V" else mk(
                "ref", x0.a[0], x0.a[1] + (("v", x.a[2]), ("f", "0")), x0.a[2]))
        else:
            v = x
        return eng.fin_wrap(fr, st, dest, target, v, wrap)
    out = []
    for s, n, pl in split(eng, fr, st, x, k):
        if n == "None":
            v = NONE
        else:
            r = mk("ref", x0.a[0], x0.a[1] + (("v", n), ("f", "0")), x0.a[2]) if x0.op == "ref" and x0.a[0].op != "V" else mk("rv", pl)
            v = {"Some": some, "Ok": ok, "Err": err}[n](r)
        out += eng.fin_wrap(fr, s, dest, target, v, wrap)
    return out


def m_take(eng, fr, st, fn, args, dest, target, site, wrap):
    x0 = args[0]
    root, proj = eng.deref(x0)
    old = eng.read(st, root, proj)
    eng.h.on_store(eng, st, fr, root, proj, NONE, "take")
    eng.write(st, root, proj, NONE)
    return eng.fin_wrap(fr, st, dest, target, old, wrap)


def m_replace(eng, fr, st, fn, args, dest, target, site, wrap):
    x0 = args[0]
    root, proj = eng.deref(x0)
    old = eng.read(st, root, proj)
    sn = short_name(fn["name"])
    if sn == "mem::take":
        nv = default_of(eng, (fn.get("targs") or [""])[0]) or mk("default")
    elif sn in ("Option::replace", "Option::insert"):
        nv = some(args[1])
    else:
        nv = args[1]
    if root.op != "L":
        eng.h.on_store(eng, st, fr, root, proj, nv, "replace")
    eng.write(st, root, proj, nv)
    if sn == "Option::insert":
        return eng.fin_wrap(fr, st, dest, target, mk("ref", root, proj + (("v", "Some"), ("f", "0")), "mut"), wrap)
    return eng.fin_wrap(fr, st, dest, target, old, wrap)


def m_swap(eng, fr, st, fn, args, dest, target, site, wrap):
    (r1, p1), (r2, p2) = eng.deref(args[0]), eng.deref(args[1])
    a, b = eng.read(st, r1, p1), eng.read(st, r2, p2)
    for r, p, v in ((r1, p1, b), (r2, p2, a)):
        if r.op != "L":
            eng.h.on_store(eng, st, fr, r, p, v, "swap")
        eng.write(st, r, p, v)
    return eng.fin_wrap(fr, st, dest, target, UNIT, wrap)


def m_box(eng, fr, st, fn, args, dest, target, site, wrap):
    return eng.fin_wrap(fr, st, dest, target, mk("box", eng.snap(st, args[0])), wrap)


def m_then(eng, fr, st, fn, args, dest, target, site, wrap):
    sn = short_name(fn["name"])
    out = []
    kv, _ = eng.known(st, args[0])
    for b in (1, 0):
        if kv is not None and kv != b:
            continue
        s = st.copy()
        if kv is None and not eng.assume(s, fr, args[0], b):
            continue
        eng.h.on_edge(eng, s, fr, args[0], b)
        if not b:
            out += eng.fin_wrap(fr, s, dest, target, NONE, wrap)
        elif sn.endswith("some"):
            out += eng.fin_wrap(fr, s, dest, target, some(args[1]), wrap)
        else:
            out += call_f(eng, fr, s, args[1], [], dest, target, site + "m", comp(wrap, some))
    return out


def m_range_new(eng, fr, st, fn, args, dest, target, site, wrap):
    r = mk("adt", "core::ops::range::RangeInclusive", 0, "RangeInclusive", ("start", "end", "exhausted"), args[0], args[1], K(0))
    return eng.fin_wrap(fr, st, dest, target, r, wrap)


def m_range_contains(eng, fr, st, fn, args, dest, target, site, wrap):
    """Membership of an unsigned integer in a range: a chain of comparisons, decided path by path."""
    r = eng.snap(st, eng.peel(st, args[0]))
    x = eng.snap(st, eng.peel(st, args[1]))
    ta = " ".join(fn.get("targs") or [])
    if r.op != "adt" or "Range" not in r.a[2] or not any(u in ta.split() for u in UWIDTH):
        return None
    d = dict(zip(r.a[3], r.a[4:]))
    if any(v.op in ("ref", "rv") for v in d.values()):
        return None
    conds = []
    if "start" in d:
        conds.append(neg(lt(x, d["start"])))
    if "end" in d:
        conds.append(lt(x, d["end"]) if "Inclusive" not in r.a[2] else neg(lt(d["end"], x)))
    out, live = [], [st]
    for c in conds:
        nxt = []
        for s0 in live:
            kv, _ = eng.known(s0, c)
            for b in (1, 0):
                if kv is not None and kv != b:
                    continue
                s = s0.copy()
                if kv is None and not eng.assume(s, fr, c, b):
                    continue
                eng.h.on_edge(eng, s, fr, c, b)
                if b:
                    nxt.append(s)
                else:
                    out += eng.fin_wrap(fr, s, dest, target, FALSE, wrap)
        live = nxt
    for s in live:
        out += eng.fin_wrap(fr, s, dest, target, TRUE, wrap)
    return out


def m_padd(sign):
    def f(eng, fr, st, fn, args, dest, target, site, wrap):
        b = as_ptr(args[0])
        if b.op == "ref" and b.a[0].op == "L":
            v = eng.read(st, b.a[0], b.a[1])
            if v.op in ("call", "fld", "mut"):
                b = eng.snap(st, v)  # a smart pointer held in a local: what it points to is its value
        return eng.fin_wrap(fr, st, dest, target, padd(b, args[1], sign), wrap)
    return f


def as_ptr(t):
    """&*p is p."""
    if t.op == "ref" and t.a[0].op == "D" and not t.a[1]:
        return t.a[0].a[0]
    return t


def m_ptr_read(eng, fr, st, fn, args, dest, target, site, wrap):
    root, proj = eng.deref(args[0])
    return eng.fin_wrap(fr, st, dest, target, eng.read(st, root, proj), wrap)


def m_ptr_write(eng, fr, st, fn, args, dest, target, site, wrap):
    root, proj = eng.deref(args[0])
    if root.op != "L":
        eng.h.on_store(eng, st, fr, root, proj, args[1], "write")
    eng.write(st, root, proj, args[1])
    return eng.fin_wrap(fr, st, dest, target, UNIT, wrap)


def m_is_zero(eng, fr, st, fn, args, dest, target, site, wrap):
    return eng.fin_wrap(fr, st, dest, target, eq(eng.peel(st, args[0]), K(0)), wrap)


def m_len(eng, fr, st, fn, args, dest, target, site, wrap):
    x = eng.peel(st, args[0])
    return eng.fin_wrap(fr, st, dest, target, K(len(x.a)) if x.op == "array" else mk("len", x), wrap)


def m_is_empty(eng, fr, st, fn, args, dest, target, site, wrap):
    x = eng.peel(st, args[0])
    if x.op == "array":
        return eng.fin_wrap(fr, st, dest, target, K(len(x.a) == 0), wrap)
    return eng.fin_wrap(fr, st, dest, target, eq(mk("len", x), K(0)), wrap)


def m_copy(eng, fr, st, fn, args, dest, target, site, wrap):
    root, proj = eng.deref(args[1])
    old = eng.read(st, root, proj)
    v = mk("copied", eng.snap(st, args[0]), args[2], eng.snap(st, old))
    if root.op != "L":
        eng.h.on_store(eng, st, fr, root, proj, v, "copy")
    eng.write(st, root, proj, v)
    return eng.fin_wrap(fr, st, dest, target, UNIT, wrap)


def m_const(v):
    def f(eng, fr, st, fn, args, dest, target, site, wrap):
        return eng.fin_wrap(fr, st, dest, target, v, wrap)
    return f


def int_width(fn):
    n = fn.get("rname") or fn["name"]
    mm = re.search(r"<impl ([ui])(8|16|32|64|128|size)>", n)
    if not mm:
        return None
    return mm.group(1), 64 if mm.group(2) == "size" else int(mm.group(2))


def m_intop(eng, fr, st, fn, args, dest, target, site, wrap):
    """Integer methods on constants; otherwise left symbolic."""
    w = int_width(fn)
    op = fn["name"].split("::")[-1]
    if w is None or w[0] != "u" or not all(x.op == "k" for x in args):
        return None
    lim = 1 << w[1]
    v = [x.a[0] for x in args]
    kind, _, o = op.partition("_")
    if o in ("shl", "shr") and len(v) == 2 and kind in ("wrapping", "checked"):
        if kind == "checked" and v[1] >= w[1]:
            return eng.fin_wrap(fr, st, dest, target, NONE, wrap)
        n = v[1] % w[1]
        r = K((v[0] << n) % lim if o == "shl" else v[0] >> n)
        return eng.fin_wrap(fr, st, dest, target, some(r) if kind == "checked" else r, wrap)
    f = {"add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b}.get(o)
    if f is None or len(v) != 2:
        return None
    r = f(*v)
    if kind == "wrapping":
        out = K(r % lim)
    elif kind == "saturating":
        out = K(min(max(r, 0), lim - 1))
    elif kind == "checked":
        out = some(K(r)) if 0 <= r < lim else NONE
    else:
        return None
    return eng.fin_wrap(fr, st, dest, target, out, wrap)


def typed_int(eng, st, short, fn, args):
    """Integer methods and fallible integer conversions as terms that keep their width."""
    if short in ("TryInto::try_into", "TryFrom::try_from"):
        ta = fn.get("targs") or []
        if len(ta) == 2 and all(x in UWIDTH or x in IWIDTH for x in ta):
            src, dst = ta if short.startswith("TryInto") else ta[::-1]
            v = args[0]
            if v.op == "k":
                w = UWIDTH.get(dst) or IWIDTH[dst]
                lo, hi = (0, (1 << w) - 1) if dst in UWIDTH else (-(1 << (w - 1)), (1 << (w - 1)) - 1)
                return ok(v) if lo <= v.a[0] <= hi else err(mk("k", "TryFromIntError"))
            return mk("tryint", dst, v)
        if len(ta) == 2:
            src, dst = ta if short.startswith("TryInto") else ta[::-1]
            if "Uint<256" in src and (dst in UWIDTH or dst in IWIDTH):
                v = eng.peel(st, args[0])
                if v.op == "k" and dst in UWIDTH:
                    return ok(v) if 0 <= v.a[0] < 1 << UWIDTH[dst] else err(mk("k", "FromUintError"))
                return mk("tryint", dst, args[0])
        return None
    if short in ("Ord::cmp", "PartialOrd::partial_cmp") and len(args) == 2:
        x, y = eng.peel(st, args[0]), eng.peel(st, args[1])
        if x.op == "k" and y.op == "k" and isinstance(x.a[0], int) and isinstance(y.a[0], int):
            i = (x.a[0] > y.a[0]) - (x.a[0] < y.a[0]) + 1
            o = mk("adt", "core::cmp::Ordering", i, ("Less", "Equal", "Greater")[i], ())
            return o if short == "Ord::cmp" else some(o)
        return None
    if short in ("PartialEq::eq", "PartialEq::ne") and len(args) == 2:
        x, y = eng.peel(st, args[0]), eng.peel(st, args[1])
        if x.op == "k" and y.op == "k" and isinstance(x.a[0], int) and isinstance(y.a[0], int):
            return K(int((x.a[0] == y.a[0]) == (short == "PartialEq::eq")))
        if x.op == y.op and x.op in ("adt", "str"):
            r = eq(x, y)
            if r.op == "k":
                return r if short == "PartialEq::eq" else K(1 - r.a[0])
        return None
    if short in ("Ord::max", "Ord::min", "cmp::max", "cmp::min") and len(args) == 2:
        x, y = args
        if x.op == "k" and y.op == "k" and isinstance(x.a[0], int) and isinstance(y.a[0], int):
            return K((max if short.endswith("max") else min)(x.a[0], y.a[0]))
        return None
    if short == "Uint::is_zero":
        x = eng.peel(st, args[0])
        return K(int(x.a[0] == 0)) if x.op == "k" and isinstance(x.a[0], int) else None
    if short == "Default::default":
        return default_of(eng, (fn.get("targs") or [""])[0])
    if short.startswith("int::") and not all(x.op == "k" for x in args):
        n = fn.get("rname") or fn["name"]
        mm = re.search(r"<impl ([ui](?:8|16|32|64|128|size))>", n)
        if mm and short.split("::")[1] in INTOPS:
            return mk("iop", short.split("::")[1], mm.group(1), *args)
    return None


INTOPS = {f"{a}_{b}" for a in ("wrapping", "saturating", "checked", "overflowing") for b in ("add", "sub", "mul", "next_multiple_of")} | {
    "div_ceil", "next_multiple_of", "abs_diff", "checked_next_multiple_of", "is_power_of_two", "leading_zeros", "trailing_zeros", "count_ones", "pow",
    "checked_div", "checked_rem", "saturating_pow", "unsigned_abs", "checked_add_signed", "saturating_add_signed", "wrapping_add_signed"}


def default_of(eng, ta):
    if ta in UWIDTH or ta in IWIDTH or ta == "bool":
        return K(0)
    if ta == "()":
        return UNIT
    if ta.startswith(("std::option::Option<", "core::option::Option<")):
        return NONE
    head = ta.split("<")[0].split("::")[-1]
    if eng.exact and head in ("HashMap", "BTreeMap", "IndexMap", "FxHashMap", "HashSet", "BTreeSet", "DashMap"):
        return mk("map")
    if eng.exact and head == "Bytes":
        return mk("bytes0")
    if eng.exact and head in ("Vec", "SmallVec", "VecDeque", "IndexVec"):
        return mk("array")
    return None


def m_drop(eng, fr, st, fn, args, dest, target, site, wrap):
    eng.h.on_drop(eng, st, fr, (fn.get("targs") or [""])[0], args[0], site)
    return eng.fin_wrap(fr, st, dest, target, UNIT, wrap)


def m_zip(eng, fr, st, fn, args, dest, target, site, wrap):
    res = []
    for s, n, pl in split(eng, fr, st, args[0], "O"):
        if n == "None":
            res.append((s, NONE))
            continue
        for s2, n2, pl2 in split(eng, fr, s, args[1], "O"):
            res.append((s2, NONE if n2 == "None" else some(mk("tuple", pl, pl2))))
    return _multi(eng, fr, res, dest, target, wrap)


_INTM = {f"int::{k}_{o}": m_intop for k in ("wrapping", "saturating", "checked") for o in ("add", "sub", "mul", "shl", "shr")}


def m_flatten(eng, fr, st, fn, args, dest, target, site, wrap):
    v = eng.peel(st, args[0])
    if v.op == "adt" and v.a[2] == "None":
        return eng.fin_wrap(fr, st, dest, target, v, wrap)
    if v.op == "adt" and v.a[2] == "Some":
        return eng.fin_wrap(fr, st, dest, target, v.a[4], wrap)
    return None


MODELS = {
    **_INTM, "Option::zip": m_zip, "Option::flatten": m_flatten,
    "Try::branch": m_branch, "FromResidual::from_residual": m_from_residual,
    "Option::map": m_map, "Result::map": m_map, "Result::map_err": m_map_err,
    "Option::and_then": m_and_then, "Result::and_then": m_and_then,
    "Option::ok_or": m_ok_or, "Option::ok_or_else": m_ok_or,
    "Option::unwrap": m_unwrap, "Option::expect": m_unwrap, "Result::unwrap": m_unwrap, "Result::expect": m_unwrap,
    "Option::unwrap_unchecked": m_unwrap, "Result::unwrap_unchecked": m_unwrap, "Result::unwrap_err": m_unwrap,
    "Option::unwrap_or": m_unwrap_or, "Option::unwrap_or_else": m_unwrap_or, "Option::unwrap_or_default": m_unwrap_or,
    "Result::unwrap_or": m_unwrap_or, "Result::unwrap_or_else": m_unwrap_or, "Result::unwrap_or_default": m_unwrap_or,
    "Option::inspect": m_inspect, "Result::inspect": m_inspect, "Result::inspect_err": m_inspect, "Option::and": m_and, "Result::and": m_and, "Option::xor": m_xor,
    "Option::transpose": m_transpose, "Result::transpose": m_transpose, "Option::get_or_insert": m_get_or_insert, "Option::get_or_insert_with": m_get_or_insert,
    "Result::is_err_and": m_is_err_and, "Result::map_or_else": m_map_or, "Result::or": m_or_else, "Result::as_mut": m_as_ref,
    "Option::map_or": m_map_or, "Option::map_or_else": m_map_or, "Result::map_or": m_map_or,
    "Option::is_some": m_is, "Option::is_none": m_is, "Result::is_ok": m_is, "Result::is_err": m_is,
    "Option::is_some_and": m_is_and, "Result::is_ok_and": m_is_and, "Option::is_none_or": m_is_and,
    "Result::ok": m_ok, "Result::err": m_ok, "Option::or_else": m_or_else, "Option::or": m_or_else, "Result::or_else": m_or_else,
    "Option::filter": m_filter, "Option::as_ref": m_as_ref, "Option::as_mut": m_as_ref, "Result::as_ref": m_as_ref,
    "Option::as_deref": m_as_ref, "Option::as_deref_mut": m_as_ref,
    "RangeInclusive::new": m_range_new, **{f"{t}::contains": m_range_contains for t in ("Range", "RangeInclusive", "RangeFrom", "RangeTo", "RangeToInclusive", "RangeBounds")},
    "Option::take": m_take, "mem::replace": m_replace, "mem::take": m_replace, "mem::drop": m_drop, "Option::replace": m_replace, "Option::insert": m_replace,
    "mem::swap": m_swap,
    "Box::new": m_box, "Arc::new": m_box, "Rc::new": m_box,
    "bool::then": m_then, "bool::then_some": m_then,
    "ptr::add": m_padd(1), "ptr::sub": m_padd(-1), "ptr::offset": m_padd(1), "ptr::read": m_ptr_read, "ptr::write": m_ptr_write,
    "ptr::as_ref": None, "ptr::copy_nonoverlapping": m_copy, "intrinsics::copy_nonoverlapping": m_copy,
    "Uint::is_zero": m_is_zero,
    "slice::len": m_len, "Vec::len": m_len, "Bytes::len": m_len, "str::len": m_len, "String::len": m_len,
    "slice::is_empty": m_is_empty, "Vec::is_empty": m_is_empty, "Bytes::is_empty": m_is_empty, "str::is_empty": m_is_empty,
    "hint::cold_path": m_const(UNIT),
}
MODELS = {k: v for k, v in MODELS.items() if v}
