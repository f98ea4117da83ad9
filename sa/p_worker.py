"""P23 (configuration and eligibility) and P24 (worker pool), abstractly interpreted for every case class of their inputs."""
import itertools

import cg
import mirlib as m
import par
import rt
import shapes
from mirlib import K, UNIT, is_k, mk, show
from p_coord import keynum, setf, unbox
from p_front import Bad
from rt import NONE, SELF, Env, code, enum, field, notifier, ref, rkey, struct, sub_eval, tuning

CFG, QUEUED, SHUT, SLOT = (mk("D", mk("sym", x)) for x in ("config", "queued", "shutdown", "slot"))


def run(prog, fn, h, args, calls, env=None, noinline=()):
    b = fn if not isinstance(fn, str) else prog.fn(fn)
    mods = dict(shapes.Iters().models())
    mods["Entry::or_insert_with"] = rt.m_or_insert_with
    hd = rt.Ev(shapes.merge(calls, rt.models(prog, env or Env()), rt.shape_calls(prog)), noinline, models=mods, final=[(r, (r, ())) for r in h])
    e = m.Engine(prog, hd, max_part=100, max_steps=30000, exact=True)
    try:
        e.run(b, args=args, flags=(), env=dict(h))
    except m.Limit as u:
        raise Bad(f"{b.name} could not be evaluated: {str(u)[:300]}")
    if len(hd.res) != 1:
        raise Bad(f"{b.name} has {len(hd.res)} outcomes" + (f" depending on {[show(k)[:200] for k in hd.res[0][0]][:3]}" if hd.res else ""))
    return hd.res[0][1], [x for x in hd.res[0][2] if x[0] not in ("store", "guard")], dict(hd.res[0][3]), b


# ------------------------------------------------------------------------------------------------ configuration
def eligibility(prog, rep):
    b = prog.fn("RuntimeTuning::should_compile")
    lens = (0, 1, 2, 3, 99, 100, 101, 24575, 24576, 24577, 1 << 20)
    for limit in (0, 1, 2, 100, 24576):
        for n in lens:
            c = {"slice::is_empty": lambda e, st, fr, a, site, n=n: K(int(n == 0)), "slice::len": lambda e, st, fr, a, site, n=n: K(n), "[T]::len": lambda e, st, fr, a, site, n=n: K(n)}
            got, evs, _, _ = run(prog, b, {SELF: tuning(prog, jit_max_bytecode_len=K(limit))}, {1: ref(SELF), 2: mk("rv", mk("bytes", n))}, c)
            got = resolve(got, n)
            want = int(n > 0 and (limit == 0 or n <= limit))
            rep.check(got == K(want), "eligibility by code length", f"limit {limit} length {n}", f"code of {n} bytes with limit {limit}: eligible={show(got)}, expected {want}", b.span)


def resolve(t, n):
    return t


VARS = {"REVMC_JIT_MODE": "jit_mode", "REVMC_JIT_HELPER_PATH": "jit_helper_path", "REVMC_JIT_HELPER_MEMORY_LIMIT_BYTES": "jit_helper_memory_limit_bytes", "REVMC_JIT_HELPER_CPU_COUNT": "jit_helper_cpu_count"}


def overrides(prog, rep):
    b = prog.fn("RuntimeConfig::with_env_overrides")
    for combo in itertools.product((None, "good", "bad"), repeat=4):
        envv = dict(zip(VARS, combo))

        def name_of(e, st, a):
            v = e.snap(st, e.peel(st, a))
            while v.op in ("D", "rv", "deref"):
                v = v.a[0]
            if v.op == "str" or v.op == "k":
                return v.a[0] if isinstance(v.a[0], str) else bytes(v.a[0]).decode()
            raise m.Limit(f"name of an environment variable: {v.op} {v.a!r}")

        def var(e, st, fr, a, site):
            n = name_of(e, st, a[0])
            v = envv.get(n)
            return m.ok(mk("sym2", "value", n, v)) if v else m.err(mk("sym", "not_present"))

        def var_os(e, st, fr, a, site):
            n = name_of(e, st, a[0])
            v = envv.get(n)
            return m.some(mk("sym2", "value", n, v)) if v else NONE

        def parse(e, st, fr, a, site):
            v = e.snap(st, e.peel(st, a[0]))
            if v.op != "sym2" or v.a[0] != "value":
                return None
            return m.ok(mk("sym2", "parsed", v.a[1])) if v.a[2] == "good" else m.err(mk("sym2", "parse_error", v.a[1]))
        ident = lambda e, st, fr, a, site: e.snap(st, e.peel(st, a[0]))
        c = {"env::var": var, "env::var_os": var_os, "str::parse": parse, "String::parse": parse, "PathBuf::from": ident, "From::from": ident,
             "Path::canonicalize": lambda e, st, fr, a, site: m.ok(mk("sym2", "canonical", e.snap(st, e.peel(st, a[0]))))}
        cfg = struct(prog, "RuntimeConfig", tuning=struct(prog, "RuntimeTuning"), jit_helper_path=mk("sym", "jit_helper_path"))
        ret, evs, _, _ = run(prog, b, {}, {1: cfg}, c)
        # an invalid value of a parsed variable is an error; a path has no invalid value
        bad = any(v == "bad" for n, v in envv.items() if n != "REVMC_JIT_HELPER_PATH")
        name = " ".join(f"{n}={v}" for n, v in envv.items() if v) or "nothing set"
        rep.check((ret.a[2] == "Err") == bad, "an invalid override is rejected, others are not", name, f"{name}: {ret.a[2]}", b.span)
        if ret.a[2] == "Ok" and not bad:
            got = ret.a[4]
            t = field(got, "tuning")
            for n, f in VARS.items():
                v = field(t, f) if f in t.a[3] else field(got, f)
                sub = [x for x in m.subterms(v) if x.op == "sym2" and x.a[0] in ("parsed", "value")]
                if envv[n]:
                    ok = len(sub) == 1 and sub[0].a[1] == n
                else:
                    ok = v == mk("sym", f)
                rep.check(ok, "an override reaches its own setting", f"{name} {f}", f"{name}: {f} is {show(v)[:120]}", b.span)
            for tt, base in ((got, cfg), (t, field(cfg, "tuning"))):
                for f in tt.a[3]:
                    if f not in VARS.values() and f != "tuning":
                        rep.check(field(tt, f) == field(base, f), "other settings are kept", f"{name} {f}", f"{name}: {f} is {show(field(tt, f))[:120]}", b.span)


def modes(prog, rep):
    """The textual mode names."""
    c = [b for b in prog.bodies.values() if b.name.endswith("::from_str") and "JitMode" in b.name and "{closure" not in b.id]
    if len(c) != 1:
        raise m.Missing(f"JitMode::from_str: {len(c)} candidates")
    b = c[0]
    for s, want in (("in-process", "InProcess"), ("out-of-process", "OutOfProcess"), ("", None), ("in_process", None), ("out-of-proces", None), ("OutOfProcess", None)):
        def eq(e, st, fr, a, site):
            x, y = (e.snap(st, e.peel(st, z)) for z in a[:2])
            return K(int(text(x) == text(y))) if text(x) is not None and text(y) is not None else None
        ret, _, _, _ = run(prog, b, {}, {1: mk("rv", mk("str", s))}, {"PartialEq::eq": eq, "str::eq": eq})
        got = ret.a[4].a[2] if ret.a[2] == "Ok" else None
        rep.check(got == want, "mode names", s, f"`{s}` is read as {got}, expected {want}", b.span)


def text(t):
    if t.op in ("str", "k") and isinstance(t.a[0], str):
        return t.a[0]
    if t.op == "k" and isinstance(t.a[0], (bytes, tuple)):
        return bytes(t.a[0]).decode()
    return None


def config(prog, rep):
    for f in (eligibility, overrides, modes):
        try:
            f(prog, rep)
        except Bad as u:
            rep.violation(f"{f.__name__}:undecided", str(u), prog.fn("RuntimeTuning::should_compile").span)


# ------------------------------------------------------------------------------------------------ worker pool
def job(prog, i=1, kind="Jit"):
    return struct(prog, "CompileJob", kind=enum(prog, "CompilationKind", kind), key=rkey(prog, i), bytecode=code(i), symbol_name=mk("sym2", "symbol", i), opt_level=mk("sym2", "level", i),
                  sync_notifier=notifier(prog, i), generation=mk("sym2", "generation", i))


def ev(st, *x):
    st.flags = st.flags + (x,)


def atomics(script):
    """script: values another thread writes between a load and the exchange that follows."""
    left = list(script)

    def load(e, st, fr, a, site):
        loc, v = shapes.loc_of(e, st, a[0], ("k",))
        return v if loc is not None else None

    def store(e, st, fr, a, site):
        r = a[0]
        while r.op == "ref" and e.read(st, r.a[0], r.a[1]).op == "ref":
            r = e.read(st, r.a[0], r.a[1])
        if r.op != "ref":
            return None
        e.write(st, r.a[0], r.a[1], e.snap(st, a[1]))
        ev(st, "set", r.a[0])
        return UNIT

    def cas(e, st, fr, a, site):
        loc, v = shapes.loc_of(e, st, a[0], ("k",))
        x, y = e.peel(st, a[1]), e.peel(st, a[2])
        if loc is None or not is_k(x) or not is_k(y):
            return None
        n = sum(1 for f in st.flags if f[0] == "cas")
        if n < len(left):
            v = K(left[n])
            e.write(st, loc.a[0], loc.a[1], v)
        ev(st, "cas")
        if v != x:
            return m.err(v)
        e.write(st, loc.a[0], loc.a[1], y)
        return m.ok(v)

    def fetch_update(e, st, fr, a, site):
        loc, v = shapes.loc_of(e, st, a[0], ("k",))
        if loc is None:
            return None
        while True:
            r = sub_eval(e, st, a[3], [v])
            if r is None or r.op != "adt":
                return None
            if r.a[2] == "None":
                return m.err(v)
            n = sum(1 for f in st.flags if f[0] == "cas")
            ev(st, "cas")
            if n < len(left) and K(left[n]) != v:
                v = K(left[n])
                e.write(st, loc.a[0], loc.a[1], v)
                continue
            e.write(st, loc.a[0], loc.a[1], r.a[4])
            return m.ok(v)
    c = {}
    for t in ("AtomicBool", "AtomicUsize", "AtomicU64", "Atomic"):
        c.update({t + "::load": load, t + "::store": store, t + "::compare_exchange_weak": cas, t + "::compare_exchange": cas, t + "::fetch_update": fetch_update, t + "::try_update": fetch_update})
    return c


def pool(prog, has=True, shut=0, queued=0, cap=2):
    return {SELF: struct(prog, "WorkerPool", pool=m.some(mk("sym", "threads")) if has else NONE, out_of_process_helper=NONE, result_tx=mk("sym", "result_tx"), config=ref(CFG), queued=ref(QUEUED), queue_capacity=K(cap), shutdown=ref(SHUT)),
            CFG: mk("sym", "config"), QUEUED: K(queued), SHUT: K(shut)}


def submission(prog, rep):
    b = prog.fn("WorkerPool::try_send")

    def spawn(e, st, fr, a, site):
        c = a[-1]
        ev(st, "spawn", e.snap(st, c))
        return UNIT

    def compile_job(e, st, fr, a, site):
        ev(st, "compile", e.snap(st, a[0]), e.snap(st, e.peel(st, a[1])), e.read(st, QUEUED, ()))
        return mk("sym2", "result", e.snap(st, field(a[0] if a[0].op == "adt" else e.peel(st, a[0]), "symbol_name")))

    def send(e, st, fr, a, site):
        ev(st, "send", e.snap(st, e.peel(st, a[0])), e.snap(st, a[1]))
        return m.ok(UNIT)
    n = 0
    for has, shut, queued, cap, script in itertools.product((True, False), (0, 1), (0, 1, 2), (0, 1, 2), ((), (0,), (1,), (2,), (1, 0), (0, 1), (1, 2), (2, 1))):
        if script and (queued >= cap or any(x > cap for x in script)):
            continue
        name = f"pool={has} shutdown={shut} queued={queued} capacity={cap} meanwhile={script}"
        calls = dict(atomics(script), **{"ThreadPool::spawn_fifo": spawn, "ThreadPool::spawn": spawn, "worker::compile_job": compile_job, "Sender::send": send})
        h = pool(prog, has, shut, queued, cap)
        j = job(prog)
        try:
            ret, evs, h2, _ = run(prog, b, h, {1: ref(SELF), 2: j}, calls)
        except Bad as u:
            rep.violation("submission:undecided", f"{name}: {u}", b.span)
            return
        n += 1
        # the exchange sees the last value another thread wrote; weak exchanges that fail reload
        cur = queued
        steps = list(script)
        while steps and steps[0] == cur:
            break
        accept = has and not shut and queued < cap
        final = queued
        if accept:
            i, cur = 0, queued
            while True:
                actual = script[i] if i < len(script) else final
                final = actual
                i += 1
                if actual == cur:
                    break
                cur = actual
                if cur >= cap:
                    accept = False
                    break
        sp = [e for e in evs if e[0] == "spawn"]
        rep.check((ret.a[2] == "Ok") == accept, "a job is accepted exactly while the pool runs and has room", name, f"{name}: {ret.a[2]}, expected {'Ok' if accept else 'Err'}", b.span)
        rep.check(h2[QUEUED] == K(final + int(accept)), "an accepted job takes one place, a refused one none", name, f"{name}: {show(h2[QUEUED])} queued, expected {final + int(accept)}", b.span)
        rep.check(len(sp) == int(accept), "an accepted job is handed to the threads once", name, f"{name}: handed over {len(sp)} times", b.span)
        if not accept:
            rep.check(ret.a[2] != "Err" or ret.a[4] == j, "a refused job is given back unchanged", name, f"{name}: {show(ret.a[4])[:200]}", b.span)
        for e in sp:
            c = e[1]
            while c.op in ("box", "rv"):
                c = c.a[0]
            if c.op != "closure" or c.a[0] not in prog.bodies:
                rep.violation("submission:closure", f"{name}: what is handed to the threads is not analysable: {show(c)[:100]}", b.span)
                continue
            try:
                r2, ev2, h3, b2 = run(prog, prog.bodies[c.a[0]], {k: h2[k] for k in h2 if k != SELF}, {1: c}, calls)
            except Bad as u:
                rep.violation("submission:undecided", f"{name}, task: {u}", b.span)
                return
            k = [x[0] for x in ev2]
            rep.check(h3[QUEUED] == K(final), "a started job frees its place", name, f"{name}: {show(h3[QUEUED])} queued afterwards, expected {final}", b2.span)
            cm = [x for x in ev2 if x[0] == "compile"]
            rep.check(len(cm) == 1 and cm[0][1] == j, "the threads compile the job submitted", name, f"{name}: {[show(x[1])[:200] for x in cm]}", b2.span)
            rep.check(bool(cm) and cm[0][3] == K(final), "the place is free while the job compiles", name, f"{name}: {cm and show(cm[0][3])} queued during the compilation", b2.span)
            sd = [x for x in ev2 if x[0] == "send"]
            rep.check(len(sd) == 1 and sd[0][1] == mk("sym", "result_tx") and sd[0][2].op == "sym2" and sd[0][2].a[0] == "result", "every compiled job reports exactly one result", name, f"{name}: {[show(x[2])[:100] for x in sd]}", b2.span)
    rep.count("submission cases", n)


def stopping(prog, rep):
    def broadcast(e, st, fr, a, site):
        ev(st, "broadcast")
        return mk("array")

    def rec(n):
        def f(e, st, fr, a, site):
            ev(st, n)
            return UNIT
        return f
    for has in (True, False):
        b = prog.fn("WorkerPool::shutdown")
        calls = dict(atomics(()), **{"ThreadPool::broadcast": broadcast, "worker::cancel_out_of_process_helper": rec("cancel"), "HelperProcess::cancel_in_flight": rec("cancel")})
        ret, evs, h2, _ = run(prog, b, pool(prog, has), {1: ref(SELF)}, calls)
        k = [e[0] for e in evs]
        rep.check(h2[SHUT] == K(1) and field(h2[SELF], "pool").a[2] == "None", "shutting down refuses further jobs and stops the threads", f"pool={has}", f"flag {show(h2[SHUT])}, pool {field(h2[SELF], 'pool').a[2]}", b.span)
        rep.check("set" in k and ("cancel" not in k or k.index("set") < k.index("cancel")), "jobs are refused before running ones are cancelled", f"pool={has}", f"{k}", b.span)
    b = prog.fn("WorkerPool::new")
    for workers, per in itertools.product((0, 1, 3), (0, 1, 64)):
        cfg = struct(prog, "RuntimeConfig", tuning=tuning(prog, jit_worker_count=K(workers), jit_worker_queue_capacity=K(per)), jit_mode=enum(prog, "JitMode", "InProcess"))
        ident = lambda e, st, fr, a, site: a[0]

        def build(e, st, fr, a, site):
            return m.ok(mk("sym", "threads"))

        def threads(e, st, fr, a, site):
            ev(st, "threads", e.peel(st, a[1]))
            return a[0]
        calls = {"ThreadPoolBuilder::new": lambda e, st, fr, a, site: mk("sym", "builder"), "ThreadPoolBuilder::num_threads": threads, "ThreadPoolBuilder::thread_name": ident, "ThreadPoolBuilder::exit_handler": ident, "ThreadPoolBuilder::build": build,
                 "AtomicUsize::new": ident, "AtomicBool::new": ident, "Atomic::new": ident}
        ret, evs, _, _ = run(prog, b, {rt.STATS: mk("sym", "stats")}, {1: mk("sym", "result_tx"), 2: cfg, 3: ref(rt.STATS)}, calls)
        name = f"workers={workers} queue={per}"
        rep.check(field(ret, "queue_capacity") == K(workers * per), "the queue holds the configured number of jobs per worker", name, f"{name}: capacity {show(field(ret, 'queue_capacity'))}", b.span)
        rep.check((field(ret, "pool").a[2] == "Some") == (workers > 0) and [e[1] for e in evs if e[0] == "threads"] == ([K(workers)] if workers else []), "the configured number of workers run", name, f"{name}: {[show(e[1]) for e in evs if e[0] == 'threads']}", b.span)
        q = unbox(field(ret, "queued"))
        s = unbox(field(ret, "shutdown"))
        rep.check(q == K(0) and s == K(0), "a new pool is empty and running", name, f"{name}: queued {show(q)}, shutdown {show(s)}", b.span)


def pools(prog, rep):
    for f in (submission, stopping, compiling, settings):
        try:
            f(prog, rep)
        except Bad as u:
            rep.violation(f"{f.__name__}:undecided", str(u), prog.fn("WorkerPool::try_send").span)


def compiler_calls(prog, fail, fresh=True):
    """The compiler as an opaque object; fail: names of the calls that fail."""
    def rec(name, val, fallible=False):
        def f(e, st, fr, a, site):
            ev(st, "c", name, tuple(e.snap(st, e.peel(st, x)) for x in a[1:]))
            v = val(e, st, a) if callable(val) else val
            if not fallible:
                return v
            return m.err(mk("sym2", "error", name)) if name in fail else m.ok(v)
        return f

    def new(e, st, fr, a, site):
        n = sum(1 for x in st.flags if x[0] == "new")
        ev(st, "new", e.snap(st, e.peel(st, a[0])), e.snap(st, e.peel(st, a[1])) if len(a) > 1 else None)
        if "new" in fail:
            return m.err(mk("sym2", "error", "new"))
        return m.ok(mk("sym2", "compiler", n))

    def write_object(e, st, fr, a, site):
        ev(st, "c", "write_object", ())
        if "write_object" in fail:
            return m.err(mk("sym2", "error", "write_object"))
        r = a[1]
        while r.op == "ref" and e.read(st, r.a[0], r.a[1]).op == "ref":
            r = e.read(st, r.a[0], r.a[1])
        e.write(st, r.a[0], r.a[1], mk("sym", "object_bytes"))
        return m.ok(UNIT)

    def read_to_end(e, st, fr, a, site):
        r = a[1]
        while r.op == "ref" and e.read(st, r.a[0], r.a[1]).op == "ref":
            r = e.read(st, r.a[0], r.a[1])
        e.write(st, r.a[0], r.a[1], mk("sym2", "contents", e.snap(st, e.peel(st, a[0]))))
        return m.ok(K(9))

    def index(e, st, fr, a, site):
        v = e.snap(st, e.peel(st, a[0]))
        return mk("rv", v) if v.op == "sym2" and v.a[0] == "code" else None

    def to_path(e, st, fr, a, site):
        return mk("sym2", "path", e.snap(st, e.peel(st, a[0])), e.snap(st, e.peel(st, a[1])))

    def to_str(e, st, fr, a, site):
        return m.some(mk("rv", e.snap(st, e.peel(st, a[0]))))

    def opened(e, st, fr, a, site):
        return m.err(mk("sym2", "error", "open")) if "open" in fail else m.ok(mk("sym2", "file", e.snap(st, e.peel(st, a[0]))))

    def blen(e, st, fr, a, site):
        v = e.snap(st, e.peel(st, a[0]))
        return mk("sym2", "len", v) if v.op in ("sym2", "sym") else None
    sym = lambda n: (lambda e, st, a: mk("sym", n))
    be = lambda e, st, fr, a, site: mk("rv", mk("sym", "llvm"))
    C = "EvmCompiler::"
    return {"worker::create_compiler": new, C + "set_opt_level": rec("set_opt_level", UNIT), C + "set_dump_to": rec("set_dump_to", UNIT), C + "jit": rec("jit", sym("function"), True), C + "translate": rec("translate", sym("funcid"), True),
            C + "write_object": write_object, C + "write_object_to_file": rec("write_object_to_file", UNIT, True), C + "clear_ir": rec("clear_ir", UNIT, True), C + "take_timings": rec("take_timings", mk("sym", "timings")),
            C + "backend": be, C + "backend_mut": be, "EvmLlvmBackend::jit_dylib_guard": lambda e, st, fr, a, site: mk("sym", "guard"), "EvmLlvmBackend::take_last_resource_tracker": lambda e, st, fr, a, site: m.some(mk("sym", "tracker")),
            "EvmLlvmBackend::pending_symbol_names": lambda e, st, fr, a, site: mk("array", mk("sym", "pending")), "Linker::new": lambda e, st, fr, a, site: mk("sym", "linker"), "Linker::link": rec("link", UNIT, True),
            "tempfile::tempdir": lambda e, st, fr, a, site: m.err(mk("sym2", "error", "tempdir")) if "tempdir" in fail else m.ok(mk("sym", "tempdir")), "TempDir::path": lambda e, st, fr, a, site: mk("rv", mk("sym", "dir")), "Path::join": to_path, "Path::to_str": to_str,
            "File::open": opened, "Read::read_to_end": read_to_end, "Index::index": index, "revmc_llvm::global_gc": lambda e, st, fr, a, site: UNIT, "Vec::len": blen, "Bytes::len": blen, "slice::len": blen,
            "CStr::to_string_lossy": lambda e, st, fr, a, site: e.snap(st, e.peel(st, a[0])), "Cow::into_owned": lambda e, st, fr, a, site: e.snap(st, e.peel(st, a[0])), "From::from": lambda e, st, fr, a, site: e.snap(st, a[0]),
            "Instant::elapsed": lambda e, st, fr, a, site: mk("sym", "elapsed"), "Span::entered": lambda e, st, fr, a, site: mk("sym", "span"), "Vec::is_empty": lambda e, st, fr, a, site: K(int(not e.peel(st, a[0]).a)) if e.peel(st, a[0]).op == "array" else None}


def compiling(prog, rep):
    b = prog.fn("worker::compile_with_state")
    FAILS = {"Jit": ("jit",), "JitObject": ("translate", "write_object"), "Aot": ("translate", "tempdir", "write_object_to_file", "link", "open")}
    n = 0
    for target in ("Jit", "JitObject", "Aot"):
        kind = "Aot" if target == "Aot" else "Jit"
        for have, thr, used, clear in itertools.product((0, 1), (0, 1, 3), (0, 2), (True, False)):
            if not have and used:
                continue
            for f in ((),) + tuple((x,) for x in FAILS[target]) + ((("new",),) if not have or thr else ()):
                fail = set(f) | (set() if clear else {"clear_ir"})
                st0 = struct(prog, "CompilerState", compiler=mk("sym", "old"), compilations_since_recycle=K(used))
                h = {CFG: struct(prog, "RuntimeConfig", tuning=tuning(prog, compiler_recycle_threshold=K(thr)), dump_dir=NONE), SLOT: m.some(st0) if have else NONE}
                j = job(prog, 1, kind)
                name = f"{target} compiler={'kept' if have else 'none'} recycle={thr} used={used} failing={sorted(fail)}"
                ret, evs, h2, _ = run(prog, b, h, {1: j, 2: ref(CFG), 3: enum(prog, "CompilerTarget", target), 4: ref(SLOT)}, compiler_calls(prog, fail))
                n += 1
                for fd in ("key", "kind", "sync_notifier", "generation"):
                    rep.check(field(ret, fd) == field(j, fd), "a result carries its job's identity", f"{name} {fd}", f"{name}: {fd} is {show(field(ret, fd))[:100]}", b.span)
                out = field(ret, "outcome")
                broken = bool(fail & set(FAILS[target])) or ("new" in fail and not have)
                rep.check((out.a[2] == "Err") == broken, "a failed step is a failed compilation, and nothing else is", name, f"{name}: {out.a[2]}", b.span)
                cs = [e for e in evs if e[0] == "c"]
                if "new" in fail and not have:
                    rep.check(not cs, "nothing is compiled without a compiler", name, f"{name}: {[c[1] for c in cs]}", b.span)
                    continue
                comp = [c for c in cs if c[1] in ("jit", "translate")]
                rep.check(len(comp) == 1 and comp[0][2][:2] == (mk("sym2", "symbol", 1), code(1)) and comp[0][2][2] == field(field(j, "key"), "spec_id"), "what is compiled is the job's code for the job's fork", name, f"{name}: {[[show(x)[:60] for x in c[2]] for c in comp]}", b.span)
                lv = [c for c in cs if c[1] == "set_opt_level"]
                before = [c[1] for c in cs]
                rep.check(bool(lv) and lv[-1][2] == (mk("sym2", "level", 1),) and before.index("set_opt_level") < min([before.index(c[1]) for c in comp] or [99]), "the job's optimisation level is set before compiling", name, f"{name}: {before}", b.span)
                rep.check("clear_ir" in before and before.index("clear_ir") > max([before.index(c[1]) for c in comp] or [0]), "the compiler is emptied after every job", name, f"{name}: {before}", b.span)
                if not broken:
                    v = out.a[4]
                    rep.check(v.a[2] == target, "the result is of the requested kind", name, f"{name}: {v.a[2]}", b.span)
                    p = v.a[4]
                    if target == "Jit":
                        bk = unbox(field(p, "backing"))
                        ok = field(p, "func") == mk("sym", "function") and mk("sym", "tracker") in set(m.subterms(bk)) and mk("sym", "guard") in set(m.subterms(bk))
                    elif target == "JitObject":
                        ok = field(p, "symbol_name") == mk("sym2", "symbol", 1) and mk("sym", "object_bytes") in set(m.subterms(field(p, "object_bytes")))
                    else:
                        lk = [c for c in cs if c[1] == "link"]
                        wr = [c for c in cs if c[1] == "write_object_to_file"]
                        d = field(p, "dylib_bytes")
                        so = lk and lk[0][2][0]
                        ok = field(p, "symbol_name") == mk("sym2", "symbol", 1) and field(p, "bytecode_len") == mk("sym2", "len", code(1)) and len(lk) == 1 and len(wr) == 1 \
                            and d.op == "sym2" and so in set(m.subterms(d)) and wr[0][2][0] in set(m.subterms(lk[0][2][1])) and wr[0][2][0] != so
                    rep.check(ok, "the result is what this compilation produced", name, f"{name}: {show(p)[:300]}", b.span)
                fresh = h2[SLOT]
                rep.check(fresh.a[2] == "Some", "the compiler is kept for the next job", name, f"{name}: {fresh.a[2]}", b.span)
    rep.count("compilation cases", n)


def settings(prog, rep):
    b = prog.fn("worker::create_compiler")
    for aot, dbg, single, nodedup, nodse, gas in itertools.product((0, 1), repeat=6):
        cfg = struct(prog, "RuntimeConfig", tuning=tuning(prog), debug_assertions=K(dbg), single_error=K(single), no_dedup=K(nodedup), no_dse=K(nodse), gas_params=m.some(mk("sym", "gas_params")) if gas else NONE)

        def rec(name):
            def f(e, st, fr, a, site):
                ev(st, "c", name, e.snap(st, e.peel(st, a[1])))
                return UNIT
            return f
        names = ("set_opt_level", "debug_assertions", "single_error", "set_dedup", "set_dse", "set_gas_params")
        calls = {"EvmCompiler::" + n: rec(n) for n in names}
        calls["EvmLlvmBackend::new"] = lambda e, st, fr, a, site: (ev(st, "backend", e.peel(st, a[0])), m.ok(mk("sym", "llvm")))[1]
        calls["EvmCompiler::new"] = lambda e, st, fr, a, site: mk("sym", "compiler")
        ret, evs, _, _ = run(prog, b, {CFG: cfg}, {1: ref(CFG), 2: K(aot)}, calls)
        got = {e[1]: e[2] for e in evs if e[0] == "c"}
        want = {"set_opt_level": mk("sym", "aot_opt" if aot else "jit_opt"), "debug_assertions": K(dbg), "single_error": K(single), "set_dedup": K(1 - nodedup), "set_dse": K(1 - nodse)}
        if gas:
            want["set_gas_params"] = mk("sym", "gas_params")
        name = f"aot={aot} debug={dbg} single={single} no_dedup={nodedup} no_dse={nodse} gas={gas}"
        bad = {k: show(got[k]) if k in got else None for k in set(got) | set(want) if got.get(k) != want.get(k)}
        rep.check(not bad, "the compiler is set up as configured", name, f"{name}: {bad}", b.span)
        rep.check([e[1] for e in evs if e[0] == "backend"] == [K(aot)], "the backend matches the kind of compilation", name, f"{name}", b.span)
