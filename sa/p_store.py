"""P21 (second half): the in-process artifact store, abstractly interpreted with a modelled file system over every short history of store, load,
delete and clear on keys that differ in a single component."""
import itertools

import mirlib as m
import p_coord
import par
import rt
import shapes
from mirlib import K, UNIT, mk, show
from p_front import Bad
from rt import NONE, enum, field, ref, rkey, struct

ST, FS = mk("D", mk("sym", "artifact_store")), mk("D", mk("sym", "fs"))


def calls(prog, fail):
    def ev(st, *x):
        st.flags = st.flags + (x,)

    def write(e, st, fr, a, site):
        if fail[0]:
            return m.err(mk("sym", "io_error"))
        p, d = e.snap(st, e.peel(st, a[0])), e.snap(st, e.peel(st, a[1]))
        f = e.read(st, FS, ())
        kv = dict(zip(f.a[::2], f.a[1::2]))
        kv[p] = d
        e.write(st, FS, (), mk("map", *[z for x in kv.items() for z in x]))
        return m.ok(UNIT)

    def unlink(e, st, fr, a, site):
        p = e.snap(st, e.peel(st, a[0]))
        f = e.read(st, FS, ())
        kv = dict(zip(f.a[::2], f.a[1::2]))
        hit = kv.pop(p, None)
        e.write(st, FS, (), mk("map", *[z for x in kv.items() for z in x]))
        return m.ok(UNIT) if hit is not None else m.err(mk("sym", "not_found"))

    def remove(e, st, fr, a, site):
        loc, v = shapes.loc_of(e, st, a[0], ("map",))
        if loc is None:
            return None
        k = e.snap(st, e.peel(st, a[1]))
        hit = [y for x, y in zip(v.a[::2], v.a[1::2]) if x == k]
        e.write(st, loc.a[0], loc.a[1], mk("map", *[z for x, y in zip(v.a[::2], v.a[1::2]) if x != k for z in (x, y)]))
        return m.some(mk("tuple", k, hit[0])) if hit else NONE

    def it(e, st, fr, a, site):
        loc, v = shapes.loc_of(e, st, a[0], ("map",))
        return None if v is None else mk("seq", *[mk("mref", x, y) for x, y in zip(v.a[::2], v.a[1::2])])

    def part(i):
        def f(e, st, fr, a, site):
            v = e.peel(st, a[0])
            if v.op == "mref":
                return mk("rv", v.a[i])
            return a[0] if i == 1 else None
        return f

    def value(e, st, fr, a, site):
        v = a[0]
        for _ in range(4):
            if v.op == "mref":
                return mk("rv", v.a[1])
            w = e.peel1(st, v)
            if w is None:
                break
            if w.op == "adt":
                return v
            v = w
        return None

    def deref(e, st, fr, a, site):
        v = e.peel(st, a[0])
        return mk("rv", v.a[1]) if v.op == "mref" else None

    def join(e, st, fr, a, site):
        return mk("sym2", "path", e.snap(st, e.peel(st, a[0])), e.snap(st, e.peel(st, a[1])))
    return {"fs::write": write, "fs::remove_file": unlink, "DashMap::remove": remove, "DashMap::iter": it, "RefMulti::key": part(0), "RefMulti::value": value, "Ref::value": value, "Ref::key": part(0),
            "Deref::deref": deref, "TempDir::path": lambda e, st, fr, a, site: mk("rv", mk("sym", "dir")), "Path::join": join}


def akey(prog, i):
    """i: (contract and fork, backend, level)."""
    k, b, l = i
    return struct(prog, "ArtifactKey", runtime=rkey(prog, k), backend=enum(prog, "BackendSelection", b), opt_level=enum(prog, "OptimizationLevel", l))


KEYS = [(1, "Llvm", "Default"), (2, "Llvm", "Default"), (11, "Llvm", "Default"), (1, "Auto", "Default"), (1, "Llvm", "Aggressive")]


def history(prog, rep, ops):
    fail = [False]
    h = {ST: struct(prog, "RuntimeArtifactStore", dir=mk("sym", "tempdir"), artifacts=mk("map")), FS: mk("map")}
    model = {}
    T = "RuntimeArtifactStore as ArtifactStore"
    span = prog.fn("RuntimeArtifactStore::artifact_path").span
    for n, op in enumerate(ops):
        name = " ".join(map(str, ops[:n + 1]))
        fail[0] = op[0] == "fail"
        args = {1: ref(ST)}
        if len(op) > 1:
            args[2] = mk("rv", akey(prog, KEYS[op[1]]))
        fn = {"store": "store", "fail": "store", "load": "load", "delete": "delete", "clear": "clear", "all": "load_all"}[op[0]]
        if fn == "store":
            man = struct(prog, "ArtifactManifest", artifact_key=akey(prog, KEYS[op[1]]), symbol_name=mk("sym2", "symbol", n))
            args[3], args[4] = mk("rv", man), mk("rv", mk("sym2", "bytes", n))
        b = impl(prog, fn)
        mods = dict(shapes.Iters().models())
        hd = rt.Ev(shapes.merge(calls(prog, fail), rt.models(prog, rt.Env()), rt.shape_calls(prog)), (), models=mods, final=[(r, (r, ())) for r in h])
        e = m.Engine(prog, hd, max_part=50, max_steps=20000, exact=True)
        try:
            e.run(b, args=args, flags=(), env=dict(h))
        except m.Limit as u:
            raise Bad(str(u)[:300])
        if len(hd.res) != 1:
            raise Bad(f"{fn} has {len(hd.res)} outcomes" + (f" depending on {[show(k)[:200] for k in hd.res[0][0]]}" if hd.res else ""))
        ret, h = hd.res[0][1], dict(hd.res[0][3])
        if op[0] == "store":
            model[op[1]] = n
        elif op[0] == "fail":
            rep.check(ret.a[2] == "Err", "a failed write is reported", name, f"after {name}: store answers {ret.a[2]}", b.span)
        elif op[0] == "delete":
            model.pop(op[1], None)
        elif op[0] == "clear":
            model = {}
        if op[0] != "fail":
            rep.check(ret.a[2] == "Ok", "store operations succeed", name, f"after {name}: {op[0]} answers {ret.a[2]}", b.span)
        fs = dict(zip(h[FS].a[::2], h[FS].a[1::2]))

        def matches(art, i):
            return field(field(art, "manifest"), "symbol_name") == mk("sym2", "symbol", i) and fs.get(field(art, "dylib_path")) == mk("sym2", "bytes", i)
        if op[0] == "load":
            v = ret.a[4]
            want = model.get(op[1])
            ok = (v.a[2] == "None") if want is None else v.a[2] == "Some" and matches(v.a[4], want)
            rep.check(ok, "a load finds exactly what was last stored under that key", name, f"after {name}: load of key {op[1]} gives {show(v)[:200]}, last stored by step {want}", b.span)
        if op[0] == "all":
            got = {}
            for x in ret.a[4].a:
                ks = [i for i, k in enumerate(KEYS) if akey(prog, k) == x.a[0]]
                got[ks[0] if ks else None] = x.a[1]
            rep.check(set(got) == set(model) and all(matches(got[i], model[i]) for i in model if i in got), "listing gives exactly the stored artifacts", name, f"after {name}: lists {sorted(map(str, got))}, stored {sorted(model)}", b.span)
        rep.check(len(fs) == len(model), "files exist exactly for the stored artifacts", name, f"after {name}: {len(fs)} files for {len(model)} artifacts", b.span)


def impl(prog, fn):
    c = [b for b in prog.bodies.values() if b.name.endswith("::" + fn) and "RuntimeArtifactStore" in b.name and "{closure" not in b.id and "test" not in b.id]
    if len(c) != 1:
        raise m.Missing(f"RuntimeArtifactStore::{fn}: {len(c)} candidates")
    return c[0]


def files(prog, rep):
    ops = [("store", i) for i in range(len(KEYS))] + [("load", 0), ("delete", 0), ("delete", 1), ("clear",), ("all",), ("fail", 0)]
    items = [list(x) for x in itertools.product(ops, repeat=2)]
    items += [[("store", a), ("store", b), x, y] for a in range(3) for b in range(len(KEYS)) for x in ops for y in [("load", a), ("load", b), ("all",)]]

    def one(rep, it):
        try:
            history(prog, rep, it)
        except Bad as u:
            rep.violation("store:undecided", f"{it}: {u}", prog.fn("RuntimeArtifactStore::artifact_path").span)
    par.pmap(rep, one, items)


def store(prog, rep):
    p_coord.store(prog, rep)
    files(prog, rep)
