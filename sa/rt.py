"""Abstract interpretation of the runtime's coordinator: its handlers are interpreted over an abstract heap (keyed maps, queues, counters)
with opaque programs, code bytes, notifiers and libraries, and scripted answers of the environment (worker pool, linker, store, clock)."""
import cg
import mirlib as m
import shapes
from mirlib import K, UNIT, is_k, mk, show
from p_blocks import field, set_calls, shape_calls, smallvec_calls
from p_sections import Ev

SELF, SHARED, STATS, JOBS, STORE = (mk("D", mk("sym", x)) for x in ("self", "shared", "stats", "jobs", "store"))
NONE = shapes.none()


def ref(root):
    return mk("ref", root, (), "mut")


def sub_eval(e, st, clo, args):
    """Result values of a closure on the given arguments, interpreted to the end on a copy of the heap; None when it cannot be decided."""
    c = e.peel(st, clo)
    if c.op != "closure":
        return None
    body = e.p.bodies.get(c.a[0])
    if body is None:
        return None
    h = Ev(e.h.calls, e.h.noinline, models=e.h.models, final=())
    e2 = m.Engine(e.p, h, max_part=e.max_part, max_steps=20000, exact=True)
    e2.base = e.base + 100000
    env = {r: v for r, v in st.env.items()}
    me = clo if clo.op in ("ref", "rv") else mk("rv", c)
    e2.run(body, args={1: me, **{i + 2: a for i, a in enumerate(args)}}, flags=(), env=env)
    if len(h.res) != 1:
        return None
    return h.res[0][1]


def struct(prog, name, **kw):
    return cg.struct(prog, cg.path_of(prog, name), **kw)


class Env:
    """Scripted answers."""

    def __init__(self, now=0, accept=True, link=True, store_err=False, dlopen=True, per=100, should=True, load_err=False):
        self.__dict__.update(locals())


def models(prog, env):
    def ev(e, st, *x):
        st.flags = st.flags + (x,)

    def key(e, st, a):
        return e.snap(st, e.peel(st, a))

    def try_send(e, st, fr, a, site):
        job = e.snap(st, a[1])
        if not env.accept:
            return m.err(job)
        j = e.read(st, JOBS, ())
        e.write(st, JOBS, (), mk("array", *j.a, job))
        return m.ok(UNIT)

    def send(e, st, fr, a, site):
        sh = e.read(st, SHARED, ())
        ev(e, st, "send", e.snap(st, e.peel(st, a[0])), e.snap(st, a[1]) if len(a) > 1 else None, field(sh, "resident").a[::2] if sh.op == "adt" else ())
        return m.ok(UNIT)

    def atomic(f):
        def g(e, st, fr, a, site):
            loc, v = shapes.loc_of(e, st, a[0], ("k",))
            if loc is None:
                return None
            return f(e, st, loc, v, a)
        return g

    aload = atomic(lambda e, st, loc, v, a: v)

    def fadd(sgn):
        def g(e, st, loc, v, a):
            e.write(st, loc.a[0], loc.a[1], K(v.a[0] + sgn * e.peel(st, a[1]).a[0]))
            return v
        return atomic(g)

    def dur(e, st, fr, a, site):
        x, y = e.peel(st, a[0]), e.peel(st, a[1])
        return K(max(0, x.a[0] - y.a[0])) if is_k(x) and is_k(y) else None

    def elapsed(e, st, fr, a, site):
        x = e.peel(st, a[0])
        return K(max(0, env.now - x.a[0])) if is_k(x) else None

    def cmp(f):
        def g(e, st, fr, a, site):
            x, y = e.peel(st, a[0]), e.peel(st, a[1])
            return K(int(f(x.a[0], y.a[0]))) if is_k(x) and is_k(y) else None
        return g

    def jit_bytes(e, st, fr, a, site):
        s = e.read(st, SHARED, ())
        r = field(s, "resident")
        n = sum(1 for p in r.a[1::2] if "Jit" in show(field(unarc(e, st, p), "kind")))
        return K(env.per * n)

    def unarc(e, st, p):
        p = e.peel(st, p)
        while p.op in ("box", "rv"):
            p = p.a[0]
        return p

    def arc_new(e, st, fr, a, site):
        return mk("box", e.snap(st, a[0]))

    def arc_clone(e, st, fr, a, site):
        v = a[0]
        for _ in range(4):
            if v.op in ("box",) or v.op == "ref" and v.a[0].op == "D" and v.a[0].a[0].op == "sym" and not v.a[1]:
                return v
            w = e.peel1(st, v)
            if w is None:
                break
            v = w
        return None

    def ident(e, st, fr, a, site):
        return e.snap(st, e.peel(st, a[0]))

    def load(e, st, fr, a, site):
        if env.load_err:
            return m.err(mk("sym", "load_error"))
        k = key(e, st, a[1])
        s = e.read(st, STORE, ())
        for x, y in zip(s.a[::2], s.a[1::2]):
            if x == k:
                return m.ok(m.some(struct(prog, "StoredArtifact", manifest=y, dylib_path=mk("sym2", "path", k))))
        return m.ok(NONE)

    def store(e, st, fr, a, site):
        k, man, data = key(e, st, a[1]), key(e, st, a[2]), key(e, st, a[3])
        ev(e, st, "persist", k, man, data)
        if env.store_err:
            return m.err(mk("sym", "store_error"))
        s = e.read(st, STORE, ())
        d = {x: y for x, y in zip(s.a[::2], s.a[1::2])}
        d[k] = man
        e.write(st, STORE, (), mk("map", *[z for kv in d.items() for z in kv]))
        return m.ok(UNIT)

    def sclear(e, st, fr, a, site):
        ev(e, st, "store-clear")
        e.write(st, STORE, (), mk("map"))
        return m.ok(UNIT)

    def dlopen(e, st, fr, a, site):
        p = key(e, st, a[0])
        return m.ok(mk("sym2", "lib", p)) if env.dlopen else m.err(mk("sym", "dlopen_error"))

    def dlsym(e, st, fr, a, site):
        return m.ok(mk("rv", mk("sym2", "func", key(e, st, a[0]), key(e, st, a[1]))))

    def link(e, st, fr, a, site):
        s = key(e, st, a[1])
        return m.ok(mk("tuple", mk("sym2", "linked", s), mk("sym2", "backing", s))) if env.link else m.err(mk("sym", "link_error"))

    def qpop(e, st, fr, a, site):
        loc, v = shapes.loc_of(e, st, a[0], ("array",))
        if loc is None:
            return None
        if not v.a:
            return NONE
        e.write(st, loc.a[0], loc.a[1], mk("array", *v.a[1:]))
        return m.some(v.a[0])

    def drain(e, st, fr, a, site):
        loc, v = shapes.loc_of(e, st, a[0], ("map",))
        if loc is None:
            return None
        e.write(st, loc.a[0], loc.a[1], mk("map"))
        return mk("seq", *[mk("tuple", x, y) for x, y in zip(v.a[::2], v.a[1::2])])

    def retain(e, st, fr, a, site):
        loc, v = shapes.loc_of(e, st, a[0], ("map",))
        if loc is None:
            return None
        out = []
        for x, y in zip(v.a[::2], v.a[1::2]):
            r = sub_eval(e, st, a[1], [mk("rv", x), mk("ref", loc.a[0], loc.a[1] + (("m", x),), "mut")])
            if r is None or not is_k(r):
                return None
            if r.a[0]:
                out += [x, y]
        e.write(st, loc.a[0], loc.a[1], mk("map", *out))
        return UNIT

    def sort_by_key(e, st, fr, a, site):
        loc, v = shapes.loc_of(e, st, a[0], ("array",))
        if loc is None:
            return None
        ks = [sub_eval(e, st, a[1], [mk("rv", x)]) for x in v.a]
        ks = [None if k is None else order_key(k) for k in ks]
        if any(k is None for k in ks):
            return None
        order = sorted(range(len(ks)), key=lambda i: ks[i])
        e.write(st, loc.a[0], loc.a[1], mk("array", *[v.a[i] for i in order]))
        return UNIT

    def sort_by(e, st, fr, a, site):
        import functools
        loc, v = shapes.loc_of(e, st, a[0], ("array",))
        if loc is None:
            return None

        def c(x, y):
            r = sub_eval(e, st, a[1], [mk("rv", x), mk("rv", y)])
            if r is None or r.op != "adt":
                raise m.Limit("comparison not decided")
            return {"Less": -1, "Equal": 0, "Greater": 1}[r.a[2]]
        e.write(st, loc.a[0], loc.a[1], mk("array", *sorted(v.a, key=functools.cmp_to_key(c))))
        return UNIT

    def empty(e, st, fr, a, site):
        v = e.snap(st, e.peel(st, a[0]))
        return K(int(v == mk("bytes0"))) if v.op in ("bytes0", "sym2") else None

    def new_uninit(e, st, fr, a, site):
        r = mk("D", mk("sym2", "uninit", f"{fr.fid}:{site}"))
        e.write(st, r, (), mk("uninit"))
        return mk("vbox", r)

    def into_vec(e, st, fr, a, site):
        if a[0].op != "vbox":
            return None
        v = e.snap(st, e.read(st, a[0].a[0], (("f", "value"), ("f", "value"))))
        return v if v.op == "array" else None

    def callback(e, st, fr, a, site):
        if e.peel(st, a[0]) != mk("sym", "callback"):
            return None
        ev(e, st, "callback", e.snap(st, a[1]))
        return UNIT
    now = lambda e, st, fr, a, site: K(env.now)
    unit = lambda e, st, fr, a, site: UNIT
    c = {"WorkerPool::try_send": try_send, "Sender::send": send, "AtomicU64::fetch_add": fadd(1), "AtomicUsize::fetch_add": fadd(1), "AtomicU64::fetch_sub": fadd(-1), "AtomicUsize::fetch_sub": fadd(-1), "Atomic::fetch_add": fadd(1), "Atomic::fetch_sub": fadd(-1),
         "WorkerPool::cancel_in_flight": lambda e, st, fr, a, site: (ev(e, st, "cancel"), UNIT)[1],
         "WorkerPool::pause": lambda e, st, fr, a, site: (ev(e, st, "pause"), UNIT)[1], "WorkerPool::resume": lambda e, st, fr, a, site: (ev(e, st, "resume"), UNIT)[1],
         "Instant::now": now, "SystemTime::now": now, "SystemTime::duration_since": lambda e, st, fr, a, site: m.ok(mk("sym", "since_epoch")), "Instant::duration_since": dur, "Instant::saturating_duration_since": dur, "Instant::elapsed": elapsed, "Sub::sub": dur,
         "PartialOrd::gt": cmp(lambda x, y: x > y), "PartialOrd::lt": cmp(lambda x, y: x < y), "PartialOrd::ge": cmp(lambda x, y: x >= y), "PartialOrd::le": cmp(lambda x, y: x <= y),
         "backend::jit_total_bytes": jit_bytes, "JitObjectLinker::link": link, "ArtifactStore::load": load, "ArtifactStore::store": store, "ArtifactStore::clear": sclear,
         "Library::new": dlopen, "Library::get": dlsym, "ArrayQueue::pop": qpop, "HashMap::drain": drain, "HashMap::retain": retain,
         "slice::sort_by_key": sort_by_key, "slice::sort_unstable_by_key": sort_by_key, "slice::sort_by": sort_by, "Vec::sort_by_key": sort_by_key,
         "Arc::new": arc_new, "LoadedLibrary::new": lambda e, st, fr, a, site: mk("sym2", "loaded", e.snap(st, a[0])),
         "Clone::clone": chain2(arc_clone, ident), "Bytes::is_empty": empty, "slice::is_empty": empty,
         "RuntimeTuning::should_compile": lambda e, st, fr, a, site: K(int(env.should)),
         "hash::keccak256": lambda e, st, fr, a, site: mk("adt", "FixedBytes", 0, "FixedBytes", ("0",), mk("sym2", "keccak", key(e, st, a[0]))),
         "AtomicU64::load": aload, "AtomicUsize::load": aload, "Atomic::load": aload, "revmc_llvm::jit_memory_usage": lambda e, st, fr, a, site: NONE,
         "Fn::call": callback, "Box::new_uninit": new_uninit, "boxed::box_assume_init_into_vec_unsafe": into_vec}
    return c


def order_key(t):
    if is_k(t):
        return t.a[0]
    if t.op in ("rv", "box"):
        return order_key(t.a[0])
    if t.op == "tuple":
        r = tuple(order_key(x) for x in t.a)
        return None if None in r else r
    if t.op == "adt" and t.a[0].endswith("Reverse"):
        r = order_key(t.a[4])
        return -r if isinstance(r, int) else None
    return None


def chain2(f, g):
    def h(e, st, fr, a, site):
        r = f(e, st, fr, a, site)
        return g(e, st, fr, a, site) if r is None else r
    return h


def m_or_insert_with(eng, fr, st, fn, args, dest, target, site, wrap):
    x = shapes.as_entry(eng, st, args[0])
    if x is None:
        return None
    loc, k = x.a
    v = eng.read(st, loc.a[0], loc.a[1])
    r = mk("ref", loc.a[0], loc.a[1] + (("m", k),), "mut")
    if k in v.a[::2]:
        return eng.fin_wrap(fr, st, dest, target, r, wrap)

    def w(en, s, val):
        v = en.read(s, loc.a[0], loc.a[1])
        en.write(s, loc.a[0], loc.a[1], mk("map", *v.a, k, en.snap(s, val)))
        return wrap(en, s, r) if wrap else r
    return m.call_f(eng, fr, st, args[1], [], dest, target, site + "e", w)


def run(prog, fn, heap, args, env, extra=None, max_steps=60000, max_part=200):
    """heap: {root: value}; results: (facts, return value, events, {root: value})."""
    b = prog.fn(fn)
    roots = list(heap)
    mods = dict(shapes.Iters().models())
    mods["Entry::or_insert_with"] = m_or_insert_with
    h = Ev(shapes.merge(extra or {}, models(prog, env), shape_calls(prog)), (), models=mods, final=[(r, (r, ())) for r in roots])
    e = m.Engine(prog, h, max_part=max_part, max_steps=max_steps, exact=True)
    e.run(b, args=args, flags=(), env=dict(heap))
    return h, b


def enum(prog, name, var, *vals):
    return prog.enum(prog.enum_path(name), var, vals)


def tuning(prog, **kw):
    f = dict(max_events_per_drain=K(64), jit_hot_threshold=K(1), jit_max_pending_jobs=K(2), jit_opt_level=mk("sym", "jit_opt"), aot_opt_level=mk("sym", "aot_opt"),
             resident_code_cache_bytes=K(0), idle_evict_duration=NONE, eviction_sweep_interval=K(1))
    f.update(kw)
    return struct(prog, "RuntimeTuning", **f)


def rkey(prog, i):
    return struct(prog, "RuntimeCacheKey", code_hash=mk("sym", f"hash{i % 10}"), spec_id=mk("sym", f"spec{i // 10}"))


def heap(prog, aot=False, store=True, tune=None, callback=False):
    st = struct(prog, "RuntimeStats", **{(f[0] if isinstance(f, (list, tuple)) else f["name"]): K(0) for f in prog.adts[cg.path_of(prog, "RuntimeStats")]["variants"][0]["fields"]})
    sh = struct(prog, "BackendShared", resident=mk("map"), events=mk("array"), pause_depth=K(0), stats=ref(STATS))
    s = struct(prog, "BackendState", inner=ref(SHARED), resident_meta=mk("map"), entries=mk("map"), store=m.some(mk("rv", mk("sym", "store_handle"))) if store else NONE, tuning=tune or tuning(prog),
               aot=K(int(aot)), pending_jobs=K(0), generation=K(0), last_sweep=K(0), on_compilation=m.some(mk("rv", mk("sym", "callback"))) if callback else NONE)
    return {SELF: s, SHARED: sh, STATS: st, JOBS: mk("array"), STORE: mk("map")}


def code(i):
    return mk("sym2", "code", i)


def notifier(prog, n):
    return struct(prog, "SyncNotifier", **{"0": m.some(mk("sym2", "waiter", n)) if n is not None else NONE})
