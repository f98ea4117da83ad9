"""P22: the front end (lookups, requests, pauses, start-up, shutdown, statistics), abstractly interpreted for every case class of its inputs
and short histories of its shared state, against reference decisions."""
import itertools

import cg
import mirlib as m
import par
import rt
import shapes
from mirlib import K, UNIT, is_k, mk, show
from p_coord import keynum, setf, unbox
from rt import JOBS, NONE, SELF, SHARED, STATS, STORE, Env, code, enum, field, heap, ref, rkey, struct, sub_eval, tuning

INNER, BACKEND, GUARD, THREAD = (mk("D", mk("sym", x)) for x in ("inner", "backend", "lazy", "thread"))


class World(Env):
    def __init__(self, full=False, locked=False, closed=False, recv="ok", publish=None, preload="ok", arts=(), bad=(), spawn=True, qfull=False, done="ok", join=True, **kw):
        Env.__init__(self, **kw)
        self.__dict__.update({k: v for k, v in locals().items() if k not in ("self", "kw")})


def program(prog, i, kind="Jit"):
    return mk("box", struct(prog, "CompiledProgram", func=mk("sym2", "jitfunc", i), key=rkey(prog, i), kind=enum(prog, "ProgramKind", kind), _backing=mk("sym2", "backing", i)))


def world(prog, w):
    def ev(st, *x):
        st.flags = st.flags + (x,)

    def load(e, st, fr, a, site):
        loc, v = shapes.loc_of(e, st, a[0], ("k",))
        return v if loc is not None else None

    def store(e, st, fr, a, site):
        r = a[0]
        if r.op != "ref":
            return None
        e.write(st, r.a[0], r.a[1], e.snap(st, a[1]))
        return UNIT

    def fetch_update(e, st, fr, a, site):
        loc, v = shapes.loc_of(e, st, a[0], ("k",))
        if loc is None:
            return None
        r = sub_eval(e, st, a[3], [v])
        if r is None or r.op != "adt":
            return None
        if r.a[2] == "None":
            return m.err(v)
        if not is_k(r.a[4]):
            return None
        e.write(st, loc.a[0], loc.a[1], r.a[4])
        return m.ok(v)

    def push(e, st, fr, a, site):
        loc, v = shapes.loc_of(e, st, a[0], ("array",))
        if loc is None:
            return None
        x = e.snap(st, a[1])
        if w.full:
            return m.err(x)
        e.write(st, loc.a[0], loc.a[1], mk("array", *v.a, x))
        return m.ok(UNIT)

    def send(blocking):
        def f(e, st, fr, a, site):
            t = e.snap(st, e.peel(st, a[0]))
            if t == mk("sym", "tx"):
                ev(st, "cmd", blocking, e.snap(st, a[1]), field(e.read(st, INNER, ()), "started"))
                return m.err(mk("sym", "send_error")) if w.closed or (w.qfull and not blocking) else m.ok(UNIT)
            ev(st, "send", t)
            return m.ok(UNIT)
        return f

    def recv(e, st, fr, a, site):
        ev(st, "recv", e.snap(st, e.peel(st, a[0])))
        if w.publish is not None:
            s = e.read(st, SHARED, ())
            r = field(s, "resident")
            e.write(st, SHARED, (), setf(s, "resident", mk("map", *r.a, rkey(prog, w.publish), program(prog, w.publish))))
        return m.ok(UNIT) if w.recv == "ok" else m.err(mk("sym", "recv_error"))

    def recv_timeout(e, st, fr, a, site):
        ev(st, "recv_timeout", e.snap(st, e.peel(st, a[0])), e.snap(st, e.peel(st, a[1])))
        if w.done == "ok":
            return m.ok(UNIT)
        return m.err(enum(prog, "RecvTimeoutError", w.done)) if prog.enum_path("RecvTimeoutError") else None

    def bounded(e, st, fr, a, site):
        return mk("tuple", mk("sym2", "chan_tx", site.split("::")[-1]), mk("sym2", "chan_rx", site.split("::")[-1]))

    def lock(e, st, fr, a, site):
        r = a[0]
        for _ in range(4):
            if r.op == "ref" and e.read(st, r.a[0], r.a[1]).op != "ref":
                return m.ok(r)
            r = e.peel1(st, r)
            if r is None:
                return None
        return None

    def try_get(e, st, fr, a, site):
        if w.locked:
            return mk("tryget", NONE, "locked")
        loc, v = shapes.loc_of(e, st, a[0], ("map",))
        k = e.snap(st, e.peel(st, a[1]))
        if loc is None:
            return None
        for x, y in zip(v.a[::2], v.a[1::2]):
            if x == k:
                return mk("tryget", m.some(mk("ref", loc.a[0], loc.a[1] + (("m", x),), "shr")), "present")
        return mk("tryget", NONE, "absent")

    def try_unwrap(e, st, fr, a, site):
        return a[0].a[0] if a[0].op == "tryget" else None

    def load_all(e, st, fr, a, site):
        if w.preload != "ok":
            return m.err(mk("sym", "load_all_error"))
        return m.ok(mk("array", *[mk("tuple", struct(prog, "ArtifactKey", runtime=rkey(prog, k), opt_level=mk("sym2", "lvl", i)), artifact(prog, k, i)) for i, k in enumerate(w.arts)]))

    def dlopen(e, st, fr, a, site):
        p = e.snap(st, e.peel(st, a[0]))
        i = [x.a[1] for x in m.subterms(p) if x.op == "sym2" and x.a[0] == "path"]
        if not i:
            return None
        return m.err(mk("sym", "dlopen_error")) if i[0] in w.bad else m.ok(mk("sym2", "lib", p))

    def spawn(e, st, fr, a, site):
        if not w.spawn:
            return m.err(mk("sym", "spawn_error"))
        ev(st, "spawn", e.snap(st, a[1]))
        return m.ok(mk("sym", "handle"))

    def join(e, st, fr, a, site):
        ev(st, "join", e.snap(st, a[0]))
        return m.ok(UNIT) if w.join else m.err(mk("sym", "panic"))

    def clear(e, st, fr, a, site):
        r = a[0]
        if r.op != "ref":
            return None
        e.write(st, r.a[0], r.a[1], mk("bytes0"))
        return UNIT
    unit = lambda e, st, fr, a, site: UNIT
    size = lambda name: (lambda e, st, fr, a, site: K(name))

    def qlen(e, st, fr, a, site):
        if e.snap(st, e.peel(st, a[0])) == mk("sym", "tx"):
            return K(7)
        loc, v = shapes.loc_of(e, st, a[0], ("array",))
        return None if v is None else K(len(v.a))

    def wrap_err(e, st, fr, a, site):
        v = e.peel(st, a[0])
        if v.op != "adt" or v.a[2] not in ("Ok", "Err"):
            return None
        return a[0] if v.a[2] == "Ok" else m.err(mk("sym2", "wrapped", v.a[4]))

    def usage(e, st, fr, a, site):
        return m.some(struct(prog, "JitMemoryUsage", code_bytes=K(5001), data_bytes=K(5002)))
    c = {}
    for t in ("AtomicBool", "AtomicUsize", "AtomicU64", "Atomic"):
        c[t + "::load"], c[t + "::store"], c[t + "::fetch_update"], c[t + "::try_update"] = load, store, fetch_update, fetch_update
    c.update({"WrapErr::wrap_err": wrap_err, "WrapErr::wrap_err_with": wrap_err, "revmc_llvm::jit_memory_usage": usage, "ArrayQueue::push": push, "Sender::send": send(True), "Sender::try_send": send(False), "Receiver::recv": recv, "Receiver::recv_timeout": recv_timeout, "channel::bounded": bounded, "crossbeam_channel::bounded": bounded,
              "Mutex::lock": lock, "DashMap::try_get": try_get, "TryResult::try_unwrap": try_unwrap, "Ref::value": lambda e, st, fr, a, site: e.peel1(st, a[0]) if e.peel1(st, a[0]) is not None and e.peel1(st, a[0]).op == "ref" else a[0], "ArtifactStore::load_all": load_all, "Library::new": dlopen,
              "Builder::spawn": spawn, "JoinHandle::join": join, "Bytes::clear": clear, "Bytes::new": lambda e, st, fr, a, site: mk("bytes0"), "hints_util::cold_path": unit, "Sender::len": qlen, "ArrayQueue::len": qlen, "Builder::name": lambda e, st, fr, a, site: mk("sym", "builder"), "Builder::new": lambda e, st, fr, a, site: mk("sym", "builder")})
    return c


def artifact(prog, k, i):
    return struct(prog, "StoredArtifact", manifest=struct(prog, "ArtifactManifest", artifact_key=mk("sym2", "akey", i), symbol_name=mk("sym2", "symbol", i)), dylib_path=mk("sym2", "path", i))


def start(prog, w, enabled=1, blocking=0, started=1, depth=0, resident=(), lazy=None, thread=None, should=True):
    h = heap(prog)
    h[SHARED] = setf(setf(h[SHARED], "resident", mk("map", *[z for i in resident for z in (rkey(prog, i), program(prog, i))])), "pause_depth", K(depth))
    h[INNER] = struct(prog, "BackendInner", shared=ref(SHARED), enabled=K(enabled), started=K(started), blocking=K(blocking), tuning=tuning(prog), tx=mk("sym", "tx"),
                      thread=thread or NONE, shutdown_timeout=mk("sym", "timeout"), lazy_spawn=lazy or NONE)
    h[BACKEND] = struct(prog, "JitBackend", inner=ref(INNER))
    return h


def lazy(prog, **cfg):
    f = dict(store=m.some(mk("rv", mk("sym", "store_handle"))), tuning=tuning(prog), thread_name=mk("sym", "name"))
    f.update(cfg)
    return m.some(struct(prog, "LazySpawnState", rx=mk("sym", "rx"), config=struct(prog, "RuntimeConfig", **f)))


class Bad(Exception):
    pass


def run(prog, fn, h, args, w, extra=None):
    try:
        r, b = rt.run(prog, fn, h, args, w, extra=shapes.merge(extra or {}, world(prog, w)))
    except m.Limit as u:
        raise Bad(f"{fn} could not be evaluated: {str(u)[:300]}")
    if len(r.res) != 1:
        raise Bad(f"{fn} has {len(r.res)} outcomes" + (f" depending on {[show(k)[:200] for k in r.res[0][0]][:3]}" if r.res else ""))
    facts, ret, evs, hp = r.res[0]
    return ret, [e for e in evs if e[0] in EVENTS], dict(hp), b


EVENTS = ("cmd", "send", "recv", "recv_timeout", "spawn", "join", "started")


def req(prog, i):
    return struct(prog, "LookupRequest", key=rkey(prog, i), code=code(i))


def decision(prog, d):
    if d.op != "adt":
        raise Bad(f"the decision is {show(d)[:120]}")
    if d.a[2] == "Compiled":
        p = unbox(d.a[4])
        if p.op != "adt":
            raise Bad(f"the program returned is {show(p)[:120]}")
        k = keynum(prog, field(p, "key"))
        return ("Compiled", k, show(field(p, "func")))
    return ("Interpret", d.a[4].a[2])


def compiled(i):
    return ("Compiled", i, f"sym2(jitfunc, {i})")


def cmds(prog, evs):
    """Commands sent: (blocking send, name, payload summary)."""
    out = []
    for e in evs:
        if e[0] != "cmd":
            continue
        c = e[2]
        if c.a[2] == "CompileJit":
            q = c.a[4]
            n = field(q, "sync_notifier")
            v = field(n, "0")
            pay = (keynum(prog, field(q, "key")), show(field(q, "bytecode")), None if v.a[2] == "None" else show(v.a[4]))
        elif c.a[2] == "PrepareAot":
            pay = tuple((keynum(prog, field(q, "key")), show(field(q, "bytecode"))) for q in c.a[4].a)
        else:
            pay = None
        out.append((e[1], c.a[2], pay))
    return out


def stat(h, name):
    return field(h[STATS], name).a[0]


def lookups(prog, rep, it):
    enabled, blocking, should, res, full, locked = it
    w = World(should=should, full=full, locked=locked)
    h = start(prog, w, enabled=enabled, blocking=blocking, resident=res)
    name = f"enabled={enabled} blocking={blocking} eligible={should} resident={res} queue-full={full} locked={locked}"
    fn = "JitBackend::lookup"
    sync = {}
    if enabled and blocking and should and 1 not in res:
        sync = [("ok", 1), ("ok", None), ("ok", 2), ("ok", 11), ("err", None), ("closed", None)]
    for how, pub in sync or [(None, None)]:
        w.recv, w.publish, w.closed = ("err" if how == "err" else "ok"), pub, how == "closed"
        lab = name + (f" outcome={how} published={pub}" if how else "")
        try:
            ret, evs, h2, b = run(prog, fn, h, {1: ref(BACKEND), 2: req(prog, 1)}, w)
            got = decision(prog, ret)
            cs = cmds(prog, evs)
            q = field(h2[SHARED], "events").a
            queued = [(keynum(prog, field(x, "key")), show(field(x, "code"))) for x in q]
        except Bad as u:
            rep.violation("lookup:undecided", f"{lab}: {u}", prog.fn(fn).span)
            return
        hits, misses, dropped = stat(h2, "lookup_hits"), stat(h2, "lookup_misses"), stat(h2, "events_dropped")
        want_q, want_d, sent = [], 0, []
        if not enabled:
            want = ("Interpret", "Disabled")
        elif not should:
            want = ("Interpret", "Ineligible")
        elif blocking:
            if 1 in res:
                want = compiled(1)
            else:
                sent = [(True, "CompileJit")]
                want = compiled(1) if how == "ok" and pub == 1 else ("Interpret", "JitFailed")
        else:
            hit = 1 in res and not locked
            want = compiled(1) if hit else ("Interpret", "NotReady")
            want_q = [] if full else [(1, "bytes0()" if hit else show(code(1)))]
            want_d = int(full)
        R = "lookup decision"
        rep.check(got == want, R, name, f"{lab}: the lookup answers {got}, expected {want}", b.span)
        if not blocking or not enabled or not should:
            rep.check([x[:1] + (norm0(x[1]),) for x in queued] == [x[:1] + (norm0(x[1]),) for x in want_q], "observation queued", name, f"{lab}: queued {queued}, expected {want_q}", b.span)
            rep.check(not evs, "a lookup does not block", name, f"{lab}: the lookup blocks on {[e[0] for e in evs]}", b.span)
        else:
            rep.check([(c[0], c[1]) for c in cs] == sent, "blocking lookup requests a compilation", name, f"{lab}: commands {cs}, expected {sent}", b.span)
            for c in cs:
                rep.check(c[2][0] == 1 and c[2][1] == show(code(1)), "request names the contract looked up", name, f"{lab}: request {c[2]}", b.span)
                if how != "closed":
                    rx = [show(e[1]) for e in evs if e[0] == "recv"]
                    rep.check(len(rx) == 1 and c[2][2] is not None and rx[0].replace("chan_rx", "chan_tx") == c[2][2], "blocking lookup waits for its own request", name, f"{lab}: request notifies {c[2][2]}, the caller waits on {rx}", b.span)
        rep.check(dropped == want_d, "dropped observations are counted", name, f"{lab}: {dropped} counted, expected {want_d}", b.span)
        if enabled and blocking and should:
            exp = (1, 0) if 1 in res else (1, 1) if want[0] == "Compiled" else None
            if exp:
                rep.check((hits, misses) == exp, "blocking lookups are counted", name, f"{lab}: hits, misses {(hits, misses)}, expected {exp}", b.span)
        else:
            rep.check((hits, misses) == (0, 0), "lookups are counted once", name, f"{lab}: counted hits, misses {(hits, misses)} in addition to the observation", b.span)


def norm0(s):
    return "bytes0" if s.startswith("bytes0") else s


def gets(prog, rep, it):
    fn, res, k = it
    w = World()
    h = start(prog, w, resident=res)
    key = rkey(prog, k)
    ret, evs, h2, b = run(prog, "JitBackend::" + fn, h, {1: ref(BACKEND), 2: field(key, "code_hash"), 3: field(key, "spec_id")}, w)
    got = None if ret.a[2] == "None" else keynum(prog, field(unbox(ret.a[4]), "key"))
    rep.check(got == (k if k in res else None), "get_compiled finds exactly the program of the contract and fork", f"{fn} {k} in {res}", f"asking for {k} among {res} gives {got}", b.span)
    if fn.endswith("tracked"):
        c = (stat(h2, "lookup_hits"), stat(h2, "lookup_misses"))
        rep.check(c == ((1, 0) if k in res else (0, 1)), "tracked queries are counted", f"{fn} {k} in {res}", f"counted {c}", b.span)
    rep.check(not evs, "get_compiled only reads", f"{fn}", f"{evs}", b.span)


def commands(prog, rep, it):
    fn, want = it
    a = {"compile_jit": req(prog, 1), "compile_jit_sync": req(prog, 1)}.get(fn)
    if fn.startswith("prepare"):
        mkreq = lambda i: struct(prog, "AotRequest", code_hash=field(rkey(prog, i), "code_hash"), spec_id=field(rkey(prog, i), "spec_id"), code=code(i))
        a = mkreq(1) if fn == "prepare_aot" else mk("array", mkreq(1), mkreq(11), mkreq(2))
    for st in (0, 1):
        w = World()
        h = start(prog, w, enabled=0, started=st, lazy=lazy(prog) if not st else None)
        args = {1: ref(BACKEND)}
        if a is not None:
            args[2] = a
        ret, evs, h2, b = run(prog, "JitBackend::" + fn, h, args, w)
        cs = cmds(prog, evs)
        got = [(x[1], x[2] if x[1] != "CompileJit" else x[2][:2]) for x in cs]
        rep.check(got == want, "a request sends its command", f"{fn} started={st}", f"{fn} sends {got}, expected {want}", b.span)
        if a is not None:
            sp = [e[0] for e in evs if e[0] in ("spawn", "cmd")]
            rep.check(sp == (["spawn", "cmd"] if not st else ["cmd"]), "a request starts the backend first", f"{fn} started={st}", f"{fn}: {sp}", b.span)
        rep.check(all(x[0] for x in cs), "requests are not dropped when the queue is full", f"{fn}", "sent without waiting for room", b.span)
        if fn == "compile_jit_sync":
            rx = [show(e[1]) for e in evs if e[0] == "recv"]
            rep.check(len(rx) == 1 and cs and cs[0][2][2] is not None and rx[0].replace("chan_rx", "chan_tx") == cs[0][2][2], "a synchronous request waits for its own outcome", f"{fn} started={st}", f"notifies {cs and cs[0][2][2]}, waits on {rx}", b.span)
    if fn == "compile_jit_sync":
        for closed, recv in ((True, "ok"), (False, "err")):
            w = World(closed=closed, recv=recv)
            ret, evs, h2, b = run(prog, "JitBackend::" + fn, start(prog, w), {1: ref(BACKEND), 2: req(prog, 1)}, w)
            rep.check(ret.a[2] == "Err", "a synchronous request that cannot be served fails", f"closed={closed} recv={recv}", f"answers {ret.a[2]}", b.span)


def pauses(prog, rep, seq):
    w = World()
    h = start(prog, w)
    depth = 0
    name = " ".join(f"{o}{'' if s else '-unstarted'}{'-full' if f else ''}" for o, s, f in seq)
    dropped = 0
    for op, st, full in seq:
        w.qfull = full
        h[INNER] = setf(h[INNER], "started", K(st))
        ret, evs, h, b = run(prog, "JitBackend::" + op, h, {1: ref(BACKEND)}, w)
        nd = depth + 1 if op == "pause" else max(0, depth - 1)
        want = [op.capitalize()] if (op == "pause" and depth == 0) or (op == "resume" and depth == 1) else []
        if not st:
            want = []
        dropped += bool(want) and full
        depth = nd
        cs = cmds(prog, evs)
        rep.check([c[1] for c in cs] == want, "the helper is paused at the first pause and resumed at the last resume", name, f"after {name}: {op} sends {[c[1] for c in cs]}, expected {want}", b.span)
        rep.check(all(not c[0] for c in cs), "pausing never blocks", name, f"after {name}: {op} waits for room in the queue", b.span)
        r, _, _, _ = run(prog, "JitBackend::is_paused", h, {1: ref(BACKEND)}, w)
        rep.check(r == K(int(depth != 0)), "paused exactly while pauses are outstanding", name, f"after {name}: is_paused is {show(r)} at depth {depth}", b.span)
        rep.check(stat(h, "commands_dropped") == dropped, "dropped pause commands are counted", name, f"after {name}: {stat(h, 'commands_dropped')} counted, expected {dropped}", b.span)


def enabling(prog, rep, it):
    was, to, st, pre = it
    w = World(preload=pre, arts=(1, 2, 1, 11), bad=(1,))
    name = f"from={was} to={to} started={st} preload={pre}"
    h = start(prog, w, enabled=was, started=st, lazy=None if st else lazy(prog))
    ret, evs, h2, b = run(prog, "JitBackend::set_enabled", h, {1: ref(BACKEND), 2: K(to)}, w)
    rep.check(field(h2[INNER], "enabled") == K(to), "enabling sets the flag", name, f"{name}: the flag is {show(field(h2[INNER], 'enabled'))}", b.span)
    starts = bool(to and not st and pre == "ok")
    sp = [e for e in evs if e[0] == "spawn"]
    rep.check(len(sp) == int(starts), "the backend starts on first enabling only", name, f"{name}: {len(sp)} threads started", b.span)
    rep.check(field(h2[INNER], "started") == K(int(st or starts)), "started exactly once the thread runs", name, f"{name}: started is {show(field(h2[INNER], 'started'))}", b.span)
    left = field(h2[INNER], "lazy_spawn")
    if not st:
        rep.check((left.a[2] == "Some") == (not starts), "what is needed to start is kept until the start succeeds", name, f"{name}: kept={left.a[2]}", b.span)
        if left.a[2] == "Some":
            rep.check(left == lazy(prog), "what is needed to start is kept unchanged", name, f"{name}: {show(left)[:200]}", b.span)
    rep.check(ret.a[2] == ("Err" if to and not st and pre != "ok" else "Ok"), "enabling reports a failed start", name, f"{name}: {ret.a[2]}", b.span)
    r = field(h2[SHARED], "resident")
    got = {keynum(prog, k): p for k, p in zip(r.a[::2], r.a[1::2])}
    # artifacts 0..3 are of contracts 1, 2, 1, 11; artifact 1 does not load
    want = {1: 0, 11: 3} if starts else {}
    rep.check(set(got) == set(want), "exactly the loadable artifacts are preloaded", name, f"{name}: resident {sorted(map(str, got))}, expected {sorted(want)}", b.span)
    for k, i in want.items():
        if k in got:
            p = unbox(got[k])
            sub = set(m.subterms(field(p, "func"))) | {mk("kind", field(p, "kind").a[2])}
            back = set(m.subterms(field(p, "_backing")))
            ok = keynum(prog, field(p, "key")) == k and mk("sym2", "path", i) in sub and mk("sym2", "symbol", i) in sub and mk("sym2", "path", i) in back and mk("kind", "Aot") in sub
            rep.check(ok, "a preloaded program is the one of its artifact", f"{name} key {k}", f"{name}: key {k} holds {show(p)[:300]}", b.span)
    if sp:
        cap = [x for x in m.subterms(sp[0][1])]
        rep.check(ref(SHARED) in cap and mk("sym", "rx") in cap, "the thread serves this backend's queue and state", name, f"{name}: captures {show(sp[0][1])[:200]}", b.span)
        t = field(h2[INNER], "thread")
        rep.check(t.a[2] == "Some", "the thread is kept for shutdown", name, f"{name}: {t.a[2]}", b.span)


def shutdown(prog, rep, it):
    has, done, joined = it
    w = World(done=done, join=joined)
    t = m.some(struct(prog, "BackendThread", handle=mk("sym", "handle"), done_rx=mk("sym", "done_rx"))) if has else NONE
    h = start(prog, w, thread=t)
    b0 = prog.fn("BackendInner::shutdown")
    ret, evs, h2, b = run(prog, "BackendInner::shutdown", h, {1: ref(INNER)}, w)
    seq = [e[2].a[2] if e[0] == "cmd" else e[0] for e in evs]
    want = [] if not has else ["Shutdown", "recv_timeout"] + (["join"] if done != "Timeout" else [])
    name = f"thread={has} done={done} joined={joined}"
    rep.check(seq == want, "shutdown asks, waits with a limit, then joins", name, f"{name}: {seq}, expected {want}", b.span)
    for e in evs:
        if e[0] == "recv_timeout":
            rep.check(mk("sym", "done_rx") == e[1] and e[2] == mk("sym", "timeout"), "shutdown waits for this thread, within the configured time", name, f"{show(e[1])}, {show(e[2])}", b.span)
    rep.check(field(h2[INNER], "thread").a[2] == "None", "shutdown happens once", name, "the thread is kept", b.span)


def snapshot(prog, rep, _):
    w = World()
    h = start(prog, w, resident=(1, 2, 11))
    fl = h[STATS].a[3]
    vals = {f: 1000 + 37 * i for i, f in enumerate(fl)}
    for f, v in vals.items():
        h[STATS] = setf(h[STATS], f, K(v))
    h[SHARED] = setf(h[SHARED], "events", mk("array", req(prog, 1), req(prog, 2)))
    ret, evs, h2, b = run(prog, "JitBackend::stats", h, {1: ref(BACKEND)}, w)
    names = ret.a[3]
    for n in names:
        v = field(ret, n)
        if n in vals:
            rep.check(v == K(vals[n]), "a statistic reports its own counter", n, f"{n} reports {show(v)}, its counter is {vals[n]}", b.span)
    for n, want in (("resident_entries", 3), ("events_queued", 2), ("command_queue_len", 7)):
        rep.check(field(ret, n) == K(want), "a gauge reports the current size", n, f"{n} reports {show(field(ret, n))}, expected {want}", b.span)


def construct(prog, rep, it):
    blocking, enabled = it
    name = f"blocking={blocking} enabled={enabled}"
    w = World()
    cfg = struct(prog, "RuntimeConfig", blocking=K(blocking), enabled=K(enabled), store=NONE, tuning=tuning(prog, jit_hot_threshold=K(8)), thread_name=mk("sym", "name"))
    marks = []

    def set_enabled(e, st, fr, a, site):
        st.flags = st.flags + (("started", e.peel(st, a[1])),)
        return m.ok(UNIT)
    ex = {"JitBackend::set_enabled": set_enabled, "ArrayQueue::new": lambda e, st, fr, a, site: mk("array"), "Mutex::new": lambda e, st, fr, a, site: e.snap(st, a[0]),
          "AtomicBool::new": lambda e, st, fr, a, site: a[0], "AtomicUsize::new": lambda e, st, fr, a, site: a[0], "Atomic::new": lambda e, st, fr, a, site: a[0]}
    ret, evs, h2, b = run(prog, "JitBackend::new_inner", {}, {1: cfg}, w, ex)
    on = int(blocking or enabled)
    got = [e[1] for e in evs if e[0] == "started"]
    rep.check(got == [K(on)], "a backend is enabled as configured, and always when blocking", name, f"{name}: enabled with {[show(x) for x in got]}, expected {on}", b.span)
    inner = unbox(field(ret.a[4], "inner"))
    hot = K(0 if blocking else 8)
    rep.check(field(inner, "blocking") == K(blocking), "blocking mode as configured", name, f"{name}: {show(field(inner, 'blocking'))}", b.span)
    lz = field(inner, "lazy_spawn")
    c2 = field(lz.a[4], "config") if lz.op == "adt" and lz.a[2] == "Some" else None
    rep.check(c2 is not None and field(field(c2, "tuning"), "jit_hot_threshold") == hot and field(field(inner, "tuning"), "jit_hot_threshold") == hot, "blocking mode compiles at once, otherwise the configured threshold holds", name,
              f"{name}: thresholds {show(field(field(inner, 'tuning'), 'jit_hot_threshold'))}, {c2 is not None and show(field(field(c2, 'tuning'), 'jit_hot_threshold'))}", b.span)


def front(prog, rep):
    items = []
    for en, bl, sh, res, full, lk in itertools.product((0, 1), (0, 1), (True, False), ((), (1,), (2, 11), (1, 2, 11)), (False, True), (False, True)):
        if (not en or bl or not sh) and (full or lk):
            continue
        items.append((lookups, (en, bl, sh, res, full, lk)))
    for fn in ("get_compiled", "get_compiled_tracked"):
        for res in ((), (1,), (2, 11), (1, 2, 11, 12)):
            items += [(gets, (fn, res, k)) for k in (1, 2, 11, 12)]
    c1 = ("CompileJit", (1, show(code(1))))
    items += [(commands, x) for x in (("compile_jit", [c1]), ("compile_jit_sync", [c1]), ("prepare_aot", [("PrepareAot", ((1, show(code(1))),))]),
                                      ("prepare_aot_batch", [("PrepareAot", tuple((k, show(code(k))) for k in (1, 11, 2)))]), ("clear_resident", [("ClearResident", None)]), ("clear_persisted", [("ClearPersisted", None)]), ("clear_all", [("ClearAll", None)]))]
    for n in range(1, 6):
        for ops in itertools.product(("pause", "resume"), repeat=n):
            items.append((pauses, [(o, 1, False) for o in ops]))
    for ops in itertools.product(("pause", "resume"), repeat=3):
        for i in range(3):
            items.append((pauses, [(o, int(j != i), False) for j, o in enumerate(ops)]))
            items.append((pauses, [(o, 1, j == i) for j, o in enumerate(ops)]))
    items += [(enabling, x) for x in itertools.product((0, 1), (0, 1), (0, 1), ("ok", "err"))]
    items += [(shutdown, x) for x in ((0, "ok", True), (1, "ok", True), (1, "Disconnected", True), (1, "Timeout", True), (1, "ok", False))]
    items.append((snapshot, None))
    items += [(construct, x) for x in itertools.product((0, 1), (0, 1))]

    def one(rep, it):
        f, a = it
        try:
            f(prog, rep, a)
        except Bad as u:
            rep.violation(f"{f.__name__}:undecided", f"{f.__name__} {a}: {u}", prog.fn("JitBackend::lookup").span)
    par.pmap(rep, one, items)
    rep.floor("front-end cases", len(items), 200)
