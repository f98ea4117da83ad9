"""Hash-consed provenance terms: the value domain of the dataflow engine."""


class T:
    __slots__ = ("op", "a", "n", "id", "_s")

    def __repr__(self):
        return show(self)


_tab = {}


def mk(op, *a):
    k = (op, a)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        n = 1
        for x in a:
            if x.__class__ is T:
                n += x.n
            elif x.__class__ is frozenset:
                for y in x:
                    if y.__class__ is T:
                        n += y.n
        t.n = n
        t.id = len(_tab)
        t._s = None
        _tab[k] = t
    return t


TOP = mk("top")
UNIT = mk("tuple")
MAXN = 600


def K(v):
    return mk("k", int(v))


TRUE = K(1)
FALSE = K(0)


def is_k(t):
    return t.op == "k"


def kval(t):
    return t.a[0] if t.op == "k" else None


def kids(t):
    for x in t.a:
        if x.__class__ is T:
            yield x
        elif x.__class__ is frozenset or x.__class__ is tuple:
            for y in x:
                if y.__class__ is T:
                    yield y


def show(t, d=6):
    if t.__class__ is not T:
        return str(t)
    if d <= 0:
        return "…"
    o, a = t.op, t.a
    s = lambda x: show(x, d - 1)
    if o == "k":
        return str(a[0]) if a[0] < 2**63 else hex(a[0])
    if o == "arg":
        return f"arg{a[0]}"
    if o == "fld":
        return f"{s(a[0])}.{a[1]}"
    if o == "var":
        return f"{s(a[0])}<{a[1]}>"
    if o == "deref":
        return f"*{s(a[0])}"
    if o == "ref":
        return f"&{s(a[0])}{''.join('.' + str(p[-1]) if p[0] != 'i' else '[' + s(p[1]) + ']' for p in a[1])}"
    if o == "L":
        return f"local{a[1]}"
    if o == "D":
        return f"*{s(a[0])}"
    if o == "adt":
        v = a[2]
        return f"{a[0].split('::')[-1]}::{v}{{{', '.join(f'{n}: {s(x)}' for n, x in zip(a[3], a[4:]))}}}"
    if o in ("tuple", "array"):
        b = ", ".join(s(x) for x in a)
        return f"({b})" if o == "tuple" else f"[{b}]"
    if o == "call":
        return f"{a[0]}({', '.join(s(x) for x in a[2:])})"
    if o == "phi":
        return "{" + " | ".join(sorted(s(x) for x in a[0])) + "}"
    if o == "closure":
        return f"closure<{a[0].split('::')[-2] if '::' in a[0] else a[0]}>"
    if o == "fn":
        return f"fn {a[0]}"
    return f"{o}({', '.join(s(x) for x in a)})"


def subterms(t, seen=None):
    """All distinct subterms (iterative)."""
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        st.extend(kids(x))
    return seen


def contains(t, pred):
    return any(pred(x) for x in subterms(t))


def phi_join(a, b):
    if a is b:
        return a
    if a is TOP or b is TOP:
        return TOP
    # structural join of same-shape aggregates
    if a.op == b.op and a.op in ("adt", "tuple", "array", "closure"):
        if a.op == "adt" and a.a[:4] == b.a[:4]:
            return mk("adt", *a.a[:4], *[phi_join(x, y) for x, y in zip(a.a[4:], b.a[4:])])
        if a.op in ("tuple", "array") and len(a.a) == len(b.a):
            return mk(a.op, *[phi_join(x, y) for x, y in zip(a.a, b.a)])
        if a.op == "closure" and a.a[0] == b.a[0] and len(a.a) == len(b.a):
            return mk("closure", a.a[0], *[phi_join(x, y) for x, y in zip(a.a[1:], b.a[1:])])
    sa = a.a[0] if a.op == "phi" else frozenset((a,))
    sb = b.a[0] if b.op == "phi" else frozenset((b,))
    s = sa | sb
    if len(s) > 8 or sum(x.n for x in s) > MAXN:
        return leafset(s)
    return mk("phi", s)


def leafset(ts):
    r = set()
    for t in ts:
        r |= leaves(t)
    return mk("leafs", frozenset(r))


def shrink(t):
    if t.n <= MAXN or t.op in ("closure",):
        return t
    return leafset([t])


_leafc = {}


def leaves(t):
    """Provenance leaves: arguments, constants, loads (field paths from an argument), named callees."""
    r = _leafc.get(t)
    if r is not None:
        return r
    o = t.op
    if o in ("k", "arg", "str", "kn", "fn", "top", "sym", "static"):
        r = frozenset((t,))
    elif o == "leafs":
        r = t.a[0]
    elif o in ("fld", "deref", "var"):
        # a pure access path is itself a leaf
        b = t
        while b.op in ("fld", "deref", "var"):
            b = b.a[0]
        if b.op in ("arg", "sym", "static"):
            r = frozenset((t,))
        else:
            r = leaves(t.a[0])
    elif o == "ref":
        root = t.a[0]
        if root.op == "D":
            r = frozenset((mk("path", root.a[0], tuple(t.a[1])),)) | leaves(root.a[0])
        else:
            r = frozenset((t,))
    elif o == "call":
        s = {mk("callname", t.a[0])}
        for x in t.a[2:]:
            s |= leaves(x)
        r = frozenset(s)
    else:
        s = set()
        for x in kids(t):
            s |= leaves(x)
        r = frozenset(s)
    _leafc[t] = r
    return r
