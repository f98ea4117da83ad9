"""Helpers for deciding finite-domain functions of the compiler by conditional constant propagation over MIR."""
import mirlib as m
from terms import FALSE, K, T, TOP, TRUE, UNIT, contains, is_k, leaves, mk, show, subterms

OPTION = "core::option::Option"


class Collect(m.Hooks):
    """Collects (facts, value) of every return; `calls` maps short names to functions (eng, st, fr, args, site) -> value."""
    typed = True

    def __init__(self, calls=None, noinline=(), models=None):
        self.models = models or {}
        self.calls = calls or {}
        self.res = []
        self.seen = []
        self.noinline = set(noinline)

    def inline(self, eng, fr, body, args):
        return body.short not in self.noinline

    def on_call(self, eng, st, fr, short, fn, args, site):
        if fn is None:
            return None
        f = self.calls.get(short)
        if f is None:
            b = eng.p.bodies.get(fn.get("rid") or "")
            if b is not None:
                f = self.calls.get(b.short)
        if f is not None:
            return f(eng, st, fr, args, site)
        self.seen.append(short)
        return None

    def on_return(self, eng, st, fr, val):
        self.res.append((dict(st.facts), eng.snap(st, val), st.flags))


def run(prog, body, args=None, calls=None, noinline=(), facts=None, max_part=2000, max_steps=60000, models=None):
    h = Collect(calls, noinline, models)
    e = m.Engine(prog, h, max_part=max_part, max_steps=max_steps)
    e.run(body, args=args or {}, flags=(), facts=facts)
    return h.res, e, h


def struct(prog, path, **fields):
    """A struct value with the given fields and symbolic others."""
    adt = prog.adts[path]
    v = adt["variants"][0]
    names = tuple(f[0] if isinstance(f, (list, tuple)) else f["name"] for f in v["fields"])
    for n in fields:
        if n not in names:
            raise m.Missing(f"field {n} of {path}")
    vals = [fields.get(n) if n in fields else mk("sym", n) for n in names]
    return mk("adt", path, 0, v["name"], names, *vals)


def path_of(prog, suffix):
    c = [p for p in prog.adts if p.split("::")[-1] == suffix]
    if not c:
        raise m.Missing(f"type {suffix}")
    return sorted(c, key=lambda p: (not p.startswith("revmc"), len(p)))[0]


def flag_bits(prog, name, ty="InstFlags"):
    for n, s in prog.statics.items():
        if n.endswith("::" + name) and str(s.get("ty", "")).endswith(ty):
            return dig(s["v"])
    raise m.Missing(f"flag {name}")


def dig(v):
    while isinstance(v, dict):
        if "fields" in v:
            v = list(v["fields"].values())[0]
        elif "int" in v:
            v = v["int"]
        else:
            break
    return v


def flags_term(prog, bits, ty="InstFlags"):
    """The bitflags value with the given bits, shaped like one of its declared constants."""
    p = path_of(prog, ty)
    for n, st in prog.statics.items():
        v = st.get("v")
        if str(st.get("ty", "")).endswith(ty) and isinstance(v, dict) and v.get("adt", "").endswith(ty):
            def build(v):
                if isinstance(v, dict) and "adt" in v:
                    return mk("adt", v["adt"], v["vi"], v["var"], tuple(v["fields"]), *[build(x) for x in v["fields"].values()])
                return K(bits)
            return build(v)
    raise m.Missing(f"flags type {p}")


def bits_of(v):
    """The bits of a bitflags term, or None when they are not constant."""
    while v.op == "adt" and len(v.a) == 5:
        v = v.a[4]
    return v.a[0] if v.op == "k" else None


def inst(prog, opcode, bits=0, **kw):
    p = path_of(prog, "InstData")
    return struct(prog, p, opcode=K(opcode), flags=flags_term(prog, bits), **kw)


def ref(v):
    return mk("rv", v)


def only(res):
    """The single constant value of all paths, or None."""
    vals = {v for _, v, *_ in res}
    if len(vals) == 1:
        v = next(iter(vals))
        return v
    return None


def kbool(res):
    v = only(res)
    return bool(v.a[0]) if v is not None and v.op == "k" else None
