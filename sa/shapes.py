"""Models of std/index-vector containers for path-sensitive analysis: elements of a named container are abstract objects elt(container, index)."""
import cg
import mirlib as m
from terms import FALSE, K, TOP, TRUE, UNIT, is_k, mk, subterms

NONE = m.NONE if hasattr(m, "NONE") else None


def none():
    return mk("adt", cg.OPTION, 0, "None", ())


def cname(eng, st, a):
    """The name of the container a (reference or value): its last field name, or None."""
    n = 0
    while n < 8:
        n += 1
        if a.op == "ref":
            fs = [p for p in a.a[1] if p[0] == "f"]
            nm = [p[1] for p in fs if p[1] not in ("raw", "0")]
            if nm:
                return nm[-1]
            v = eng.read(st, a.a[0], a.a[1])
            if v is a or v.op == "uninit":
                return None
            a = v
            continue
        if a.op in ("rv", "box"):
            a = a.a[0]
            continue
        if a.op == "deref":
            a = a.a[0]
            continue
        if a.op == "fld":
            if a.a[1] in ("raw", "0"):
                a = a.a[0]
                continue
            return a.a[1]
        if a.op == "var":
            a = a.a[0]
            continue
        if a.op in ("sym", "cont"):
            return a.a[0]
        if a.op in ("mut", "ovl"):
            a = a.a[3] if a.op == "mut" and len(a.a) > 3 else a.a[0]
            if not hasattr(a, "op"):
                return None
            continue
        if a.op == "call" and a.a[0] in VIEW:
            a = a.a[2]
            continue
        return None
    return None


VIEW = {"Deref::deref", "DerefMut::deref_mut", "IndexVec::as_slice", "Vec::as_slice", "AsRef::as_ref", "IndexSlice::as_raw_slice", "IndexVec::iter", "slice::iter"}


def elt(name, idx, mut="mut"):
    return mk("ref", mk("D", mk("elt", name, idx)), (), mut)


def norm_idx(eng, st, i):
    i = eng.snap(st, i)
    while i.op in ("rv", "ref"):
        i = eng.peel1(st, i)
    return i


def is_range(i):
    return i.op == "adt" and i.a[0].startswith("core::ops::") and "Range" in i.a[2]


def m_index(names):
    def f(eng, st, fr, args, site):
        n = cname(eng, st, args[0])
        if n not in names:
            return None
        i = norm_idx(eng, st, args[1])
        if is_range(i):
            d = dict(zip(i.a[3], i.a[4:]))
            return mk("rv", mk("slice", n, d.get("start", K(0)), d.get("end", mk("end"))))
        return elt(n, i)
    return f


def m_get(names):
    """Checked element access: Some(element) or None."""
    def f(eng, st, fr, args, site):
        n = cname(eng, st, args[0])
        if n not in names:
            return None
        i = norm_idx(eng, st, args[1])
        return mk("optelt", n, i)
    return f


def index_calls(*names):
    names = set(names)
    return {k: m_index(names) for k in ("Index::index", "IndexMut::index_mut")}


# ------------------------------------------------------------------------------------------------ sequences and iterators
ITERS = {"seq", "mapit", "filterit", "fmapit", "enumit"}
VECS = ("Vec", "SmallVec", "IndexVec", "IndexSlice", "slice", "VecDeque", "ArrayVec", "BitVec", "BitSlice")


def bfork(eng, fr, st, v):
    """[(state, bool)] for a boolean term."""
    kv, _ = eng.known(st, v)
    if kv is not None:
        return [(st, bool(kv))]
    out = []
    for b in (1, 0):
        s = st.copy()
        if eng.assume(s, fr, v, b):
            out.append((s, bool(b)))
    return out


def refs_of(eng, st, a):
    """References to the elements of the sequence behind reference a, or None."""
    loc = a
    for _ in range(6):
        if loc.op == "ref":
            v = eng.read(st, loc.a[0], loc.a[1])
            if v.op == "array":
                return [mk("ref", loc.a[0], loc.a[1] + (("i", K(j)),), loc.a[2]) for j in range(len(v.a))]
            loc = v
        elif loc.op in ("rv", "box"):
            v = loc.a[0]
            if v.op == "array":
                return [mk("rv", x) for x in v.a]
            loc = v
        else:
            return None
    return None


def to_iter(eng, st, a, conv=None):
    """An iterator term for value a, or None."""
    if a.op in ITERS:
        return a
    if a.op == "array":
        return mk("seq", *a.a)
    if a.op in ("ref", "rv"):
        r = refs_of(eng, st, a)
        if r is not None:
            return mk("seq", *r)
        p = eng.peel(st, a)
        if p.op in ITERS:
            return p
    p = eng.peel(st, a)
    if p.op == "adt" and p.a[2] in ("Left", "Right") and len(p.a) == 5:
        return to_iter(eng, st, p.a[4], conv)
    if p.op == "adt" and p.a[0].endswith("::Option"):
        return mk("seq", *p.a[4:])
    if p.op == "adt" and p.a[2] in ("Range", "RangeInclusive"):
        d = dict(zip(p.a[3], p.a[4:]))
        s, e = d.get("start"), d.get("end")
        if s is not None and e is not None and is_k(s) and is_k(e) and e.a[0] - s.a[0] < 300:
            return mk("seq", *[K(i) for i in range(s.a[0], e.a[0] + (p.a[2] == "RangeInclusive"))])
    if conv is not None:
        r = conv(eng, st, p)
        if r is not None:
            return mk("seq", *r)
    return None


class Iters:
    """CPS iterator models; conv(eng, st, term) -> list of elements or None interprets iterators over containers the check abstracts."""

    def __init__(self, conv=None):
        self.conv = conv
        self.n = 0

    def step(self, eng, fr, st, it, site, dest, target, k):
        """k(eng, st, item or None, rest) -> continuations"""
        if it.op == "seq":
            if not it.a:
                return k(eng, st, None, it)
            return k(eng, st, it.a[0], mk("seq", *it.a[1:]))
        if it.op == "mapit":
            def k2(en, s, item, rest):
                if item is None:
                    return k(en, s, None, mk("mapit", rest, it.a[1]))
                w = lambda en2, s2, v: m.Cont(lambda e3, s3: k(e3, s3, v, mk("mapit", rest, it.a[1])))
                return m.call_f(en, fr, s, it.a[1], [item], dest, target, f"{site}@{item.id}.{rest.id}", w)
            return self.step(eng, fr, st, it.a[0], site, dest, target, k2)
        if it.op == "filterit":
            def k3(en, s, item, rest):
                nx = mk("filterit", rest, it.a[1])
                if item is None:
                    return k(en, s, None, nx)

                def w(en2, s2, v):
                    def c(e3, s3):
                        out = []
                        for s4, b in bfork(e3, fr, s3, v):
                            out += k(e3, s4, item, nx) if b else self.step(e3, fr, s4, nx, site, dest, target, k)
                        return out
                    return m.Cont(c)
                return m.call_f(en, fr, s, it.a[1], [mk("rv", item)], dest, target, f"{site}@{item.id}.{rest.id}", w)
            return self.step(eng, fr, st, it.a[0], site, dest, target, k3)
        if it.op == "fmapit":
            def k4(en, s, item, rest):
                nx = mk("fmapit", rest, it.a[1])
                if item is None:
                    return k(en, s, None, nx)

                def w(en2, s2, v):
                    def c(e3, s3):
                        out = []
                        for s4, n, pl in m.split(e3, fr, s3, v, "O"):
                            out += k(e3, s4, pl, nx) if n == "Some" else self.step(e3, fr, s4, nx, site, dest, target, k)
                        return out
                    return m.Cont(c)
                return m.call_f(en, fr, s, it.a[1], [item], dest, target, f"{site}@{item.id}.{rest.id}", w)
            return self.step(eng, fr, st, it.a[0], site, dest, target, k4)
        raise m.Limit(f"iterator {it.op}")

    def models(self):
        I = self

        def src(eng, st, a):
            return to_iter(eng, st, a, I.conv)

        def mod(f):
            def g(eng, fr, st, fn, args, dest, target, site, wrap):
                it = src(eng, st, args[0])
                if it is None:
                    return None
                return f(eng, fr, st, it, args, dest, target, site, wrap)
            return g

        def ret(v):
            return lambda eng, fr, st, dest, target, wrap: eng.fin_wrap(fr, st, dest, target, v, wrap)

        def simple(f):
            def g(eng, fr, st, it, args, dest, target, site, wrap):
                r = f(eng, st, it, args)
                return None if r is None else eng.fin_wrap(fr, st, dest, target, r, wrap)
            return mod(g)

        def nxt(eng, fr, st, it, args, dest, target, site, wrap):
            loc = args[0]
            while loc.op == "ref":
                v = eng.read(st, loc.a[0], loc.a[1])
                if v.op in ("ref",):
                    loc = v
                    continue
                break

            def k(en, s, item, rest):
                if loc.op == "ref":
                    en.write(s, loc.a[0], loc.a[1], rest)
                return en.fin_wrap(fr, s, dest, target, none() if item is None else m.some(item), wrap)
            return I.step(eng, fr, st, it, site, dest, target, k)

        def nxtback(eng, fr, st, it, args, dest, target, site, wrap):
            if it.op != "seq":
                return None
            loc = args[0]
            item = it.a[-1] if it.a else None
            if loc.op == "ref":
                eng.write(st, loc.a[0], loc.a[1], mk("seq", *it.a[:-1]))
            return eng.fin_wrap(fr, st, dest, target, none() if item is None else m.some(item), wrap)

        def flat(eng, st, it, args):
            if it.op != "seq":
                return None
            out = []
            for x in it.a:
                x = eng.peel(st, x) if x.op in ("ref", "rv") and eng.peel(st, x).op in ("adt", "array", "seq") else x
                if x.op == "adt" and x.a[2] == "Some":
                    out.append(x.a[4])
                elif x.op == "adt" and x.a[2] == "None":
                    pass
                elif x.op in ("array", "seq"):
                    out += x.a
                else:
                    return None
            return mk("seq", *out)

        def whole(en, fr, s, itr, site, dest, target, done, acc=()):
            """Run a lazy iterator to its end, then done(engine, state, sequence)."""
            if itr.op == "seq":
                return done(en, s, mk("seq", *(acc + itr.a)))

            def k(en2, s2, item, rest):
                if item is None:
                    return done(en2, s2, mk("seq", *acc))
                return whole(en2, fr, s2, rest, site, dest, target, done, acc + (item,))
            return I.step(en, fr, s, itr, site, dest, target, k)

        def seqonly(f):
            def g(eng, fr, st, it, args, dest, target, site, wrap):
                def done(en, s, seq):
                    r = f(en, s, seq, args)
                    return None if r is None else en.fin_wrap(fr, s, dest, target, r, wrap)
                return whole(eng, fr, st, it, site, dest, target, done)
            return mod(g)

        def peelall(eng, st, it, args):
            return mk("seq", *[eng.peel1(st, x) if x.op in ("ref", "rv") else x for x in it.a])

        def lazy(op):
            return simple(lambda eng, st, it, args: mk(op, it, eng.peel(st, args[1]) if args[1].op == "rv" else args[1]))

        def quant(stop, dflt):
            """any/all"""
            def f(eng, fr, st, it, args, dest, target, site, wrap):
                def k(en, s, item, rest):
                    if item is None:
                        return en.fin_wrap(fr, s, dest, target, K(dflt), wrap)

                    def w(en2, s2, v):
                        def c(e3, s3):
                            out = []
                            for s4, b in bfork(e3, fr, s3, v):
                                if b == stop:
                                    out += e3.fin_wrap(fr, s4, dest, target, K(int(stop)), wrap)
                                else:
                                    out += I.step(e3, fr, s4, rest, site, dest, target, k)
                            return out
                        return m.Cont(c)
                    return m.call_f(en, fr, s, args[1], [item], dest, target, f"{site}@{item.id}.{rest.id}", w)
                return I.step(eng, fr, st, it, site, dest, target, k)
            return mod(f)

        def find(eng, fr, st, it, args, dest, target, site, wrap):
            def k(en, s, item, rest):
                if item is None:
                    return en.fin_wrap(fr, s, dest, target, none(), wrap)

                def w(en2, s2, v):
                    def c(e3, s3):
                        out = []
                        for s4, b in bfork(e3, fr, s3, v):
                            if b:
                                out += e3.fin_wrap(fr, s4, dest, target, m.some(item), wrap)
                            else:
                                out += I.step(e3, fr, s4, rest, site, dest, target, k)
                        return out
                    return m.Cont(c)
                return m.call_f(en, fr, s, args[1], [mk("rv", item)], dest, target, f"{site}@{item.id}.{rest.id}", w)
            return I.step(eng, fr, st, it, site, dest, target, k)

        def fold(eng, fr, st, it, args, dest, target, site, wrap):
            def go(en, s, acc, itr):
                def k(en2, s2, item, rest):
                    if item is None:
                        return en2.fin_wrap(fr, s2, dest, target, acc, wrap)
                    w = lambda e3, s3, v: m.Cont(lambda e4, s4: go(e4, s4, v, rest))
                    return m.call_f(en2, fr, s2, args[2], [acc, item], dest, target, f"{site}@{item.id}.{rest.id}.{acc.id}", w)
                return I.step(en, fr, s, itr, site, dest, target, k)
            return go(eng, st, args[1], it)

        def foreach(eng, fr, st, it, args, dest, target, site, wrap):
            def k(en, s, item, rest):
                if item is None:
                    return en.fin_wrap(fr, s, dest, target, UNIT, wrap)
                w = lambda e3, s3, v: m.Cont(lambda e4, s4: I.step(e4, fr, s4, rest, site, dest, target, k))
                return m.call_f(en, fr, s, args[1], [item], dest, target, f"{site}@{item.id}.{rest.id}", w)
            return I.step(eng, fr, st, it, site, dest, target, k)

        def collect(eng, fr, st, it, args, dest, target, site, wrap):
            def go(en, s, acc, itr):
                def k(en2, s2, item, rest):
                    if item is None:
                        return en2.fin_wrap(fr, s2, dest, target, mk("array", *acc), wrap)
                    return go(en2, s2, acc + (item,), rest)
                return I.step(en, fr, s, itr, site, dest, target, k)
            return go(eng, st, (), it)

        def extend(eng, fr, st, fn, args, dest, target, site, wrap):
            loc = args[0]
            if loc.op != "ref":
                return None
            it = src(eng, st, args[1])
            base = eng.read(st, loc.a[0], loc.a[1])
            if it is None or base.op != "array":
                return None

            def go(en, s, acc, itr):
                def k(en2, s2, item, rest):
                    if item is None:
                        en2.write(s2, loc.a[0], loc.a[1], mk("array", *(base.a + acc)))
                        return en2.fin_wrap(fr, s2, dest, target, UNIT, wrap)
                    return go(en2, s2, acc + (item,), rest)
                return I.step(en, fr, s, itr, site, dest, target, k)
            return go(eng, st, (), it)

        def fromfn(eng, fr, st, fn, args, dest, target, site, wrap):
            n = next((x for x in (fr.generic(t) or t for t in fn.get("targs") or []) if x.isdigit()), None)
            if n is None:
                return None
            it = mk("mapit", mk("seq", *[K(i) for i in range(int(n))]), eng.peel(st, args[0]) if args[0].op == "rv" else args[0])
            return collect(eng, fr, st, it, args, dest, target, site, wrap)

        def kk(a):
            return a.a[0] if is_k(a) else None

        def once(eng, fr, st, fn, args, dest, target, site, wrap):
            return eng.fin_wrap(fr, st, dest, target, mk("seq", args[0]), wrap)

        def two(f):
            def g(eng, fr, st, fn, args, dest, target, site, wrap):
                x, y = src(eng, st, args[0]), src(eng, st, args[1])
                if x is None or y is None:
                    return None
                return whole(eng, fr, st, x, site, dest, target, lambda e2, s2, xs: whole(e2, fr, s2, y, site, dest, target, lambda e3, s3, ys: e3.fin_wrap(fr, s3, dest, target, f(xs, ys), wrap)))
            return g
        chainit = two(lambda x, y: mk("seq", *(x.a + y.a)))
        zipit = two(lambda x, y: mk("seq", *[mk("tuple", p, q) for p, q in zip(x.a, y.a)]))
        M = {
            "IntoIterator::into_iter": simple(lambda eng, st, it, args: it),
            "Iterator::next": mod(nxt), "DoubleEndedIterator::next_back": mod(nxtback),
            "Iterator::flatten": simple(flat),
            "Iterator::rev": seqonly(lambda e, s, it, a: mk("seq", *it.a[::-1])),
            "Iterator::enumerate": seqonly(lambda e, s, it, a: mk("seq", *[mk("tuple", K(i), x) for i, x in enumerate(it.a)])),
            "Iterator::copied": seqonly(peelall), "Iterator::cloned": seqonly(peelall),
            "Iterator::by_ref": lambda eng, fr, st, fn, args, dest, target, site, wrap: eng.fin_wrap(fr, st, dest, target, args[0], wrap),
            "Iterator::skip": seqonly(lambda e, s, it, a: mk("seq", *it.a[kk(a[1]):]) if kk(a[1]) is not None else None),
            "Iterator::take": seqonly(lambda e, s, it, a: mk("seq", *it.a[:kk(a[1])]) if kk(a[1]) is not None else None),
            "Iterator::map": lazy("mapit"), "Iterator::filter": lazy("filterit"), "Iterator::filter_map": lazy("fmapit"),
            "Iterator::any": quant(True, 0), "Iterator::all": quant(False, 1), "Iterator::find": mod(find),
            "Iterator::fold": mod(fold), "Iterator::for_each": mod(foreach), "Iterator::collect": mod(collect),
            "Iterator::chain": chainit, "Iterator::zip": zipit, "once::once": once, "iter::once": once,
            "Iterator::count": seqonly(lambda e, s, it, a: K(len(it.a))),
            "Iterator::last": seqonly(lambda e, s, it, a: m.some(it.a[-1]) if it.a else none()),
            "array::from_fn": fromfn, "Extend::extend": extend, "Vec::extend_from_slice": extend,
        }
        for t in VECS:
            for n in ("iter", "iter_mut", "into_iter", "drain_all"):
                M[f"{t}::{n}"] = M["IntoIterator::into_iter"]
        return M


def vec_calls():
    """Vec-like operations on fixed-shape sequences (array terms)."""
    def loc_arr(e, st, a):
        for _ in range(6):
            if a.op == "ref" and a.a[0].op == "D" and a.a[0].a[0].op == "subslice" and not a.a[1]:
                a = a.a[0].a[0]
            elif a.op == "ref":
                v = e.read(st, a.a[0], a.a[1])
                if v.op == "array":
                    return a, v
                a = v
            elif a.op in ("rv", "box"):
                if a.a[0].op == "array":
                    return a, a.a[0]
                a = a.a[0]
            elif a.op == "array":
                return a, a
            elif a.op == "subslice":
                _, v = loc_arr(e, st, a.a[0])
                return (a, mk("array", *v.a[a.a[1]:a.a[2]])) if v is not None else (None, None)
            else:
                break
        return None, None

    def put(e, st, loc, v):
        if loc.op == "subslice":
            _, w = loc_arr(e, st, loc.a[0])
            return put(e, st, loc.a[0], mk("array", *(w.a[:loc.a[1]] + v.a + w.a[loc.a[2]:])))
        if loc.op == "ref":
            e.write(st, loc.a[0], loc.a[1], v)

    def op(f):
        def g(e, st, fr, a, site):
            loc, v = loc_arr(e, st, a[0])
            if v is None:
                return None
            return f(e, st, loc, v, a)
        return g

    def eltref(loc, j):
        if loc.op == "subslice":
            return eltref(loc.a[0], loc.a[1] + j)
        return mk("ref", loc.a[0], loc.a[1] + (("i", K(j)),), loc.a[2]) if loc.op == "ref" else None

    def at(loc, v, j):
        return eltref(loc, j) or mk("rv", v.a[j])

    def kidx(e, st, i):
        i = norm_idx(e, st, i)
        while i.op == "cast":
            i = i.a[1]
        return i

    def push(e, st, loc, v, a):
        put(e, st, loc, mk("array", *(v.a + (a[1],))))
        return K(len(v.a))

    def pop(e, st, loc, v, a):
        if not v.a:
            return none()
        put(e, st, loc, mk("array", *v.a[:-1]))
        return m.some(v.a[-1])

    def popf(e, st, loc, v, a):
        if not v.a:
            return none()
        put(e, st, loc, mk("array", *v.a[1:]))
        return m.some(v.a[0])

    def trunc(e, st, loc, v, a):
        n = kidx(e, st, a[1])
        if not is_k(n):
            return None
        put(e, st, loc, mk("array", *v.a[:n.a[0]]))
        return UNIT

    def resize(e, st, loc, v, a):
        n = kidx(e, st, a[1])
        if not is_k(n):
            return None
        put(e, st, loc, mk("array", *(v.a + (a[2],) * (n.a[0] - len(v.a)))[:n.a[0]]))
        return UNIT

    def swap(e, st, loc, v, a):
        i, j = kidx(e, st, a[1]), kidx(e, st, a[2])
        if not (is_k(i) and is_k(j)):
            return None
        i, j = i.a[0], j.a[0]
        if i >= len(v.a) or j >= len(v.a):
            return "stop"
        L = list(v.a)
        L[i], L[j] = L[j], L[i]
        put(e, st, loc, mk("array", *L))
        return UNIT

    def get(e, st, loc, v, a):
        i = kidx(e, st, a[1])
        if is_range(i):
            b = bounds(i, len(v.a))
            if b is None:
                return None
            return m.some(mk("rv", mk("array", *v.a[b[0]:b[1]]))) if b[0] <= b[1] <= len(v.a) else none()
        if not is_k(i):
            return None
        return m.some(at(loc, v, i.a[0])) if i.a[0] < len(v.a) else none()

    def bounds(r, n):
        d = dict(zip(r.a[3], r.a[4:]))
        s, e = d.get("start", K(0)), d.get("end", K(n))
        if not (is_k(s) and is_k(e)):
            return None
        return s.a[0], e.a[0] + (1 if "Inclusive" in r.a[2] else 0)

    def index_mut(e, st, loc, v, a):
        i = kidx(e, st, a[1])
        b = bounds(i, len(v.a)) if is_range(i) else None
        if b is not None and loc.op in ("ref", "subslice") and b[0] <= b[1] <= len(v.a):
            return mk("subslice", loc, b[0], b[1])
        return index(e, st, loc, v, a)

    def index(e, st, loc, v, a):
        i = kidx(e, st, a[1])
        if is_range(i):
            b = bounds(i, len(v.a))
            if b is None:
                return None
            if not b[0] <= b[1] <= len(v.a):
                return "stop"
            return mk("rv", mk("array", *v.a[b[0]:b[1]]))
        if not is_k(i):
            return None
        if i.a[0] >= len(v.a):
            return "stop"  # panics
        return at(loc, v, i.a[0])

    def first(k):
        return op(lambda e, st, loc, v, a: (m.some(at(loc, v, len(v.a) - 1 if k else 0)) if v.a else none()))

    def insert(e, st, loc, v, a):
        i = kidx(e, st, a[1])
        if not is_k(i):
            return None
        put(e, st, loc, mk("array", *(v.a[:i.a[0]] + (a[2],) + v.a[i.a[0]:])))
        return UNIT

    def clear(e, st, loc, v, a):
        put(e, st, loc, mk("array"))
        return UNIT

    def ext(e, st, loc, v, a):
        _, w = loc_arr(e, st, a[1])
        if w is None:
            return None
        put(e, st, loc, mk("array", *(v.a + w.a)))
        return UNIT

    def fill(e, st, loc, v, a):
        put(e, st, loc, mk("array", *([a[1]] * len(v.a))))
        return UNIT

    def krange(e, st, i, n):
        i = kidx(e, st, i)
        return bounds(i, n) if is_range(i) else (0, n) if i.op == "adt" and i.a[2] == "RangeFull" else None

    def drain(e, st, loc, v, a):
        b = krange(e, st, a[1], len(v.a))
        if b is None or not b[0] <= b[1] <= len(v.a):
            return None
        put(e, st, loc, mk("array", *(v.a[:b[0]] + v.a[b[1]:])))
        return mk("array", *v.a[b[0]:b[1]])

    def splice(e, st, loc, v, a):
        b = krange(e, st, a[1], len(v.a))
        w = a[2]
        if w.op != "array" or b is None:
            _, w = loc_arr(e, st, a[2])
        if b is None or w is None or not b[0] <= b[1] <= len(v.a):
            return None
        put(e, st, loc, mk("array", *(v.a[:b[0]] + w.a + v.a[b[1]:])))
        return mk("array", *v.a[b[0]:b[1]])

    def contains(e, st, loc, v, a):
        x = norm_idx(e, st, a[1])
        if all(is_k(y) for y in v.a) and is_k(x):
            return K(int(x in v.a))
        return None

    def splitlast(e, st, loc, v, a):
        return m.some(mk("tuple", mk("rv", v.a[-1]), mk("rv", mk("array", *v.a[:-1])))) if v.a else none()

    def splitfirst(e, st, loc, v, a):
        return m.some(mk("tuple", mk("rv", v.a[0]), mk("rv", mk("array", *v.a[1:])))) if v.a else none()
    c = {}
    for t in VECS:
        c.update({f"{t}::push": op(push), f"{t}::push_back": op(push), f"{t}::pop": op(pop), f"{t}::pop_back": op(pop), f"{t}::pop_front": op(popf),
                  f"{t}::truncate": op(trunc), f"{t}::resize": op(resize), f"{t}::swap": op(swap), f"{t}::get": op(get), f"{t}::get_mut": op(get),
                  f"{t}::first": first(0), f"{t}::last": first(1), f"{t}::last_mut": first(1), f"{t}::first_mut": first(0), f"{t}::insert": op(insert), f"{t}::clear": op(clear),
                  f"{t}::len": op(lambda e, st, loc, v, a: K(len(v.a))), f"{t}::is_empty": op(lambda e, st, loc, v, a: K(int(not v.a))),
                  f"{t}::as_slice": op(lambda e, st, loc, v, a: a[0]), f"{t}::as_mut_slice": op(lambda e, st, loc, v, a: a[0]),
                  f"{t}::split_first": op(splitfirst), f"{t}::split_last": op(splitlast), f"{t}::extend_from_slice": op(ext), f"{t}::fill": op(fill), f"{t}::drain": op(drain), f"{t}::splice": op(splice),
                  f"{t}::contains": op(contains),
                  f"{t}::new": lambda e, st, fr, a, site: mk("array") if not a else None,
                  f"{t}::with_capacity": lambda e, st, fr, a, site: mk("array"),
                  f"{t}::to_vec": op(lambda e, st, loc, v, a: v), f"{t}::into_vec": op(lambda e, st, loc, v, a: v), f"{t}::reserve": op(lambda e, st, loc, v, a: UNIT)})
    c["iter::repeat_n"] = c["source::repeat_n"] = c["repeat_n::repeat_n"] = lambda e, st, fr, a, site: mk("array", *([a[0]] * kidx(e, st, a[1]).a[0])) if is_k(kidx(e, st, a[1])) and kidx(e, st, a[1]).a[0] < 4096 else None
    c["Index::index"] = op(index)
    c["IndexMut::index_mut"] = op(index_mut)
    return c


def chain(*fs):
    """First model that answers."""
    def f(e, st, fr, a, site):
        for g in fs:
            r = g(e, st, fr, a, site)
            if r is not None:
                return r
        return None
    return f


def merge(*ds):
    out = {}
    for d in ds:
        for k, v in d.items():
            out[k] = chain(out[k], v) if k in out else v
    return out


# ------------------------------------------------------------------------------------------------ maps and bit vectors
MAPS = ("HashMap", "BTreeMap", "FxHashMap", "IndexMap", "AHashMap", "DashMap")


def loc_of(e, st, a, ops):
    """(location or None, term) of a container value behind references."""
    loc = None
    for _ in range(6):
        if a.op == "ref":
            v = e.read(st, a.a[0], a.a[1])
            if v.op in ops:
                return a, v
            a = v
        elif a.op in ("rv", "box"):
            a = a.a[0]
        elif a.op in ops:
            return loc, a
        else:
            break
    return None, None


def as_entry(e, st, x):
    """The map slot an entry value stands for."""
    for _ in range(4):
        if x.op == "adt" and len(x.a) == 5 and x.a[2] in ("Occupied", "Vacant"):
            x = x.a[4]
        elif x.op in ("ref", "rv"):
            x = e.peel1(st, x)
    return x if x.op == "entry" else None


def clone_from_calls():
    def cf(e, st, fr, a, site):
        loc = a[0]
        while loc.op == "ref":
            v = e.read(st, loc.a[0], loc.a[1])
            if v.op != "ref":
                break
            loc = v
        if loc.op != "ref":
            return None
        e.write(st, loc.a[0], loc.a[1], e.snap(st, e.peel(st, a[1])))
        return UNIT
    return {"Clone::clone_from": cf}


def map_calls():
    """Keyed maps whose keys are constants: mk("map", k1, v1, k2, v2, ...)."""
    def items(v):
        return list(zip(v.a[::2], v.a[1::2]))

    def pack(d):
        return mk("map", *[x for kv in d for x in kv])

    def key(e, st, a):
        k = norm_idx(e, st, a)
        k = e.snap(st, e.peel(st, k)) if not is_k(k) else k
        return k

    def op(f):
        def g(e, st, fr, a, site):
            loc, v = loc_of(e, st, a[0], ("map",))
            return None if v is None else f(e, st, loc, v, a)
        return g

    def put(e, st, loc, v):
        if loc is not None:
            e.write(st, loc.a[0], loc.a[1], v)

    def get(e, st, loc, v, a):
        k = key(e, st, a[1])
        for x, y in items(v):
            if x == k:
                return m.some(mk("rv", y))
        return none()

    def remove(e, st, loc, v, a):
        k = key(e, st, a[1])
        d = items(v)
        hit = [y for x, y in d if x == k]
        put(e, st, loc, pack([(x, y) for x, y in d if x != k]))
        return m.some(hit[0]) if hit else none()

    def insert(e, st, loc, v, a):
        k = key(e, st, a[1])
        d = items(v)
        hit = [y for x, y in d if x == k]
        val = e.snap(st, a[2])
        put(e, st, loc, pack([(x, val if x == k else y) for x, y in d] + ([] if hit else [(k, val)])))
        return m.some(hit[0]) if hit else none()

    def index(e, st, loc, v, a):
        r = get(e, st, loc, v, a)
        return r.a[4] if r.a[2] == "Some" else "stop"

    def get_mut(e, st, loc, v, a):
        k = key(e, st, a[1])
        if loc is None:
            return get(e, st, loc, v, a)
        return m.some(mk("ref", loc.a[0], loc.a[1] + (("m", k),), "mut")) if k in v.a[::2] else none()

    def entry(t):
        def g(e, st, loc, v, a):
            if loc is None:
                return None
            k = key(e, st, a[1])
            occ = k in v.a[::2]
            # variant order: the B-tree's entry lists Vacant first
            return mk("adt", f"{t}::Entry", int(occ == (t == "BTreeMap")), "Occupied" if occ else "Vacant", ("0",), mk("entry", loc, k))
        return g

    def on_entry(f):
        def g(e, st, fr, a, site):
            x = as_entry(e, st, a[0])
            if x is None:
                return None
            loc, k = x.a
            v = e.read(st, loc.a[0], loc.a[1])
            return f(e, st, loc, k, v, a) if v.op == "map" else None
        return g

    def slot(e, st, loc, k, v, a):
        return mk("ref", loc.a[0], loc.a[1] + (("m", k),), "mut")

    def occ_insert(e, st, loc, k, v, a):
        old = dict(items(v))[k]
        put(e, st, loc, mk("map", *[z for x, y in items(v) for z in (x, e.snap(st, a[1]) if x == k else y)]))
        return old

    def vac_insert(e, st, loc, k, v, a):
        put(e, st, loc, mk("map", *v.a, k, e.snap(st, a[1])))
        return slot(e, st, loc, k, v, a)

    def occ_remove(both):
        def g(e, st, loc, k, v, a):
            old = dict(items(v))[k]
            put(e, st, loc, mk("map", *[z for x, y in items(v) if x != k for z in (x, y)]))
            return mk("tuple", k, old) if both else old
        return g

    def or_put(val):
        def g(e, st, fr, a, site):
            x = as_entry(e, st, a[0])
            if x is None:
                return None
            loc, k = x.a
            v = e.read(st, loc.a[0], loc.a[1])
            if v.op != "map":
                return None
            if k not in v.a[::2]:
                nv = val(e, st, a)
                if nv is None:
                    return None
                put(e, st, loc, mk("map", *v.a, k, nv))
            return mk("ref", loc.a[0], loc.a[1] + (("m", k),), "mut")
        return g
    c = {}
    for t in MAPS:
        c.update({f"{t}::get_mut": op(get_mut), f"{t}::entry": op(entry(t))})
        c.update({f"{t}::get": op(get), f"{t}::remove": op(remove), f"{t}::insert": op(insert),
                  f"{t}::contains_key": op(lambda e, st, loc, v, a: K(int(key(e, st, a[1]) in v.a[::2]))),
                  f"{t}::len": op(lambda e, st, loc, v, a: K(len(v.a) // 2)), f"{t}::is_empty": op(lambda e, st, loc, v, a: K(int(not v.a))),
                  f"{t}::keys": op(lambda e, st, loc, v, a: mk("seq", *[mk("rv", x) for x in v.a[::2]])),
                  f"{t}::values": op(lambda e, st, loc, v, a: mk("seq", *[mk("rv", x) for x in v.a[1::2]])),
                  f"{t}::iter": op(lambda e, st, loc, v, a: mk("seq", *[mk("tuple", mk("rv", x), mk("rv", y)) for x, y in items(v)])),
                  f"{t}::clear": op(lambda e, st, loc, v, a: (put(e, st, loc, mk("map")), UNIT)[1]),
                  f"{t}::new": lambda e, st, fr, a, site: mk("map"), f"{t}::default": lambda e, st, fr, a, site: mk("map")})
        c.update({f"{t}::{n}": lambda e, st, fr, a, site: mk("map") for n in ("with_capacity", "with_hasher", "with_capacity_and_hasher")})
        c.update({f"{t}::{n}": op(lambda e, st, loc, v, a: UNIT) for n in ("reserve", "shrink_to_fit", "shrink_to")})
    for t in ("HashSet", "BTreeSet"):
        c.update({f"{t}::insert": op(lambda e, st, loc, v, a: K(int(insert(e, st, loc, v, [a[0], a[1], UNIT]).a[2] == "None"))), f"{t}::remove": op(lambda e, st, loc, v, a: K(int(remove(e, st, loc, v, a).a[2] == "Some"))),
                  f"{t}::contains": op(lambda e, st, loc, v, a: K(int(key(e, st, a[1]) in v.a[::2]))), f"{t}::len": op(lambda e, st, loc, v, a: K(len(v.a) // 2)),
                  f"{t}::is_empty": op(lambda e, st, loc, v, a: K(int(not v.a))), f"{t}::clear": op(lambda e, st, loc, v, a: (put(e, st, loc, mk("map")), UNIT)[1]),
                  f"{t}::new": lambda e, st, fr, a, site: mk("map")})
        c.update({f"{t}::{n}": lambda e, st, fr, a, site: mk("map") for n in ("with_capacity", "with_hasher", "with_capacity_and_hasher")})
    c["Index::index"] = op(index)
    for t in ("OccupiedEntry", "VacantEntry", "Entry"):
        c[f"{t}::key"] = on_entry(lambda e, st, loc, k, v, a: mk("rv", k))
    c.update({f"OccupiedEntry::{n}": on_entry(slot) for n in ("get", "get_mut", "into_mut")})
    c.update({"OccupiedEntry::insert": on_entry(occ_insert), "OccupiedEntry::remove": on_entry(occ_remove(False)), "OccupiedEntry::remove_entry": on_entry(occ_remove(True)),
              "VacantEntry::insert": on_entry(vac_insert)})
    c["Entry::or_insert"] = or_put(lambda e, st, a: e.snap(st, a[1]))
    c["Entry::or_default"] = or_put(lambda e, st, a: mk("array"))  # collections only
    return c


def bit_calls():
    """Bit vectors as arrays of 0/1."""
    def rep(e, st, fr, a, site):
        n = norm_idx(e, st, a[1])
        return mk("array", *([a[0]] * n.a[0])) if is_k(n) and n.a[0] < 4096 else None

    def setb(e, st, fr, a, site):
        loc, v = loc_of(e, st, a[0], ("array",))
        i = norm_idx(e, st, a[1])
        if v is None or loc is None or not is_k(i):
            return None
        if i.a[0] >= len(v.a):
            return "stop"
        e.write(st, loc.a[0], loc.a[1], mk("array", *(v.a[:i.a[0]] + (a[2],) + v.a[i.a[0] + 1:])))
        return UNIT

    def getb(e, st, fr, a, site):
        loc, v = loc_of(e, st, a[0], ("array",))
        i = norm_idx(e, st, a[1])
        if v is None or not is_k(i):
            return None
        return m.some(mk("rv", v.a[i.a[0]])) if i.a[0] < len(v.a) else none()
    return {"BitVec::repeat": rep, "BitSlice::set": setb, "BitVec::set": setb, "BitSlice::get": getb, "BitSlice::len": lambda e, st, fr, a, site: (lambda v: None if v is None else K(len(v.a)))(loc_of(e, st, a[0], ("array",))[1])}


def index_vec_calls(newtype=None):
    """IndexVec-specific operations on array terms."""
    def arr(e, st, a):
        return loc_of(e, st, a, ("array",))

    def indices(e, st, fr, a, site):
        _, v = arr(e, st, a[0])
        return None if v is None else mk("seq", *[K(i) for i in range(len(v.a))])

    def enum(e, st, fr, a, site):
        r = refs_of(e, st, a[0])
        return None if r is None else mk("seq", *[mk("tuple", K(i), x) for i, x in enumerate(r)])

    def length(e, st, fr, a, site):
        _, v = arr(e, st, a[0])
        return None if v is None else K(len(v.a))
    ident = lambda e, st, fr, a, site: a[0] if a[0].op == "array" else None
    c = {}
    for t in ("IndexVec", "IndexSlice"):
        c.update({f"{t}::indices": indices, f"{t}::iter_enumerated": enum, f"{t}::iter_mut_enumerated": enum, f"{t}::len_idx": length, f"{t}::from_vec": ident,
                  f"{t}::as_raw_slice": lambda e, st, fr, a, site: a[0] if arr(e, st, a[0])[1] is not None else None})
    return c
