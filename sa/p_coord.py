"""P18-P21: the coordinator (admission, dispatch, results, clears, eviction). Its handlers are abstractly interpreted over every short history
of requests, observations, results, clears and sweeps; observable effects must equal those of a reference coordinator."""
import itertools

import cg
import mirlib as m
import par
import rt
import teval
from mirlib import K, is_k, mk, show
from terms import subterms
from rt import JOBS, NONE, SELF, SHARED, STATS, STORE, Env, code, enum, field, heap, notifier, ref, rkey, struct, tuning

H = "BackendState::handle"


SNAP = {}


class Undecided(Exception):
    pass


class Cfg:
    def __init__(self, name, ops, aot=False, store=True, hot=1, cap=2, idle=None, budget=0, interval=1, object_=False, depth=3, should=True, cb=False, drain=64, prefix=()):
        self.__dict__.update(locals())


class Node:
    """Abstract heap, clock, and the reference coordinator."""

    def __init__(self, prog, c):
        t = tuning(prog, jit_hot_threshold=K(c.hot), jit_max_pending_jobs=K(c.cap), idle_evict_duration=NONE if c.idle is None else m.some(K(c.idle)),
                   resident_code_cache_bytes=K(c.budget), eviction_sweep_interval=K(c.interval), max_events_per_drain=K(c.drain))
        self.heap = heap(prog, c.aot, c.store, t, c.cb)
        self.now = 10
        self.jobs = []         # outstanding: dict(id, key, kind, waiter, gen)
        self.resident = {}     # key -> (what, last hit)
        self.entries = {}      # key -> dict(hot, working, seen, waiters)
        self.store = set()
        self.gen = 0
        self.njob = 0
        self.nw = 0
        self.sweep = 0
        self.stats = dict(lookup_hits=0, lookup_misses=0, evictions=0, compilations_dispatched=0, compilations_succeeded=0, compilations_failed=0)
        self.told = []
        self.queue = []

    def copy(self):
        n = object.__new__(Node)
        n.__dict__.update(self.__dict__)
        n.heap = dict(self.heap)
        n.jobs = [dict(j) for j in self.jobs]
        n.resident = dict(self.resident)
        n.entries = {k: dict(v, waiters=list(v["waiters"])) for k, v in self.entries.items()}
        n.store = set(self.store)
        n.stats = dict(self.stats)
        n.queue = list(self.queue)
        n.told = []
        return n

    # -- reference ------------------------------------------------------------------------------------------
    def tell(self, w):
        if w is not None:
            self.told.append(w)

    def admit(self, c, kind, k, waiter, observed, env):
        if k in self.resident:
            return self.tell(waiter)
        if not env.should:
            return self.tell(waiter)
        if observed and k not in self.entries and len(self.entries) >= 10 * c.cap:
            return self.tell(waiter)
        if kind == "Aot" and c.store and not env.load_err and k in self.store and env.dlopen:
            self.resident[k] = (("aot", k), self.now)
            return self.tell(waiter)
        e = self.entries.setdefault(k, dict(hot=0, working=False, seen=self.now, waiters=[]))
        e["seen"] = self.now
        if e["working"]:
            if waiter is not None:
                e["waiters"].append(waiter)
            return
        if observed:
            e["hot"] += 1
            if e["hot"] < c.hot:
                return
        if len(self.jobs) >= c.cap:
            return self.tell(waiter)
        if not env.accept:
            return self.tell(waiter)
        self.jobs.append(dict(id=self.njob, key=k, kind=kind, waiter=waiter, gen=self.gen))
        self.njob += 1
        e["working"] = True
        self.stats["compilations_dispatched"] += 1

    def result(self, c, j, how, env):
        self.jobs.remove(j)
        if j["gen"] != self.gen:
            return self.tell(j["waiter"])
        k = j["key"]
        e = self.entries.pop(k, None)
        good = how != "err"
        if how == "aot":
            if not c.store:
                good = False
            elif env.store_err:
                good = False
            else:
                self.store.add(k)
                good = not env.load_err and env.dlopen
            if good:
                self.resident[k] = (("aot", k), self.now)
        elif how == "obj":
            good = env.link
            if good:
                self.resident[k] = (("obj", j["id"]), self.now)
        elif how == "jit":
            self.resident[k] = (("jit", j["id"]), self.now)
        self.stats["compilations_succeeded" if good else "compilations_failed"] += 1
        self.tell(j["waiter"])
        for w in (e or {}).get("waiters", ()):
            self.tell(w)

    def clear(self):
        self.resident = {}
        for e in self.entries.values():
            for w in e["waiters"]:
                self.tell(w)
        self.entries = {}
        self.queue = []
        self.gen += 1

    def drain(self, c, env):
        for _ in range(c.drain):
            if not self.queue:
                break
            what, k = self.queue.pop(0)
            if what == "hit":
                self.stats["lookup_hits"] += 1
                if k in self.resident:
                    self.resident[k] = (self.resident[k][0], self.now)
            else:
                self.stats["lookup_misses"] += 1
                self.admit(c, "Aot" if c.aot else "Jit", k, None, True, env)

    def tick(self, c, env):
        self.drain(c, env)
        bytes_ = lambda: env.per * sum(1 for w, _ in self.resident.values() if w[0] != "aot")
        over = c.budget > 0 and bytes_() > c.budget
        if not over and not (c.idle is not None and self.now - self.sweep >= c.interval):
            return
        self.sweep = self.now
        if c.idle is not None:
            for k in [k for k, (_, t) in self.resident.items() if self.now - t > c.idle]:
                del self.resident[k]
                self.lost(k)
                self.stats["evictions"] += 1
            for k in [k for k, e in self.entries.items() if not e["working"] and self.now - e["seen"] > c.idle and k not in self.resident]:
                del self.entries[k]
        if c.budget > 0:
            for k in sorted((k for k, (w, _) in self.resident.items() if w[0] != "aot"), key=lambda k: self.resident[k][1]):
                if bytes_() <= c.budget:
                    break
                del self.resident[k]
                self.lost(k)
                self.stats["evictions"] += 1

    def lost(self, k):
        self.entries.pop(k, None)


def keynum(prog, t, n=4):
    for i in range(40):
        if rkey(prog, i) == t:
            return i
    return None


def what(prog, p):
    """Identity of an abstract program: (what the code came from, the key it claims, whether code and backing belong together)."""
    while p.op in ("box", "rv"):
        p = p.a[0]
    f, b, k = show(field(p, "func")), show(field(p, "_backing")), field(p, "key")
    return f, b, keynum(prog, k), show(field(p, "kind"))


def apply(prog, c, node, op):
    """One operation, on the abstract heap and on the reference. Returns list of (label, ok, detail)."""
    n = node.copy()
    n.now += 1
    kw = {}
    name = op[0]
    for x in op[2:] if len(op) > 2 else ():
        if isinstance(x, dict):
            kw = x
    env = Env(now=n.now, should=c.should, **kw)
    s = ref(SELF)
    kind = "Aot" if c.aot else "Jit"
    cmd = None
    pre_jobs = len(n.jobs)
    if name == "compile":
        w = n.nw
        n.nw += 1
        cmd = enum(prog, "Command", "CompileJit", struct(prog, "CompileJitRequest", key=rkey(prog, op[1]), bytecode=code(op[1]), sync_notifier=notifier(prog, w)))
        n.admit(c, kind, op[1], w, False, env)
    elif name == "prepare":
        cmd = enum(prog, "Command", "PrepareAot", mk("array", *[struct(prog, "PrepareAotRequest", key=rkey(prog, k), bytecode=code(k)) for k in op[1]]))
        for k in op[1]:
            n.admit(c, "Aot", k, None, False, env)
    elif name in ("clear", "clearall", "clearstore"):
        cmd = enum(prog, "Command", {"clear": "ClearResident", "clearall": "ClearAll", "clearstore": "ClearPersisted"}[name])
        if name != "clearstore":
            n.clear()
        if name != "clear" and c.store:
            n.store = set()
    elif name in ("miss", "hit", "later"):
        sh = n.heap[SHARED]
        n.heap[SHARED] = setf(sh, "events", mk("array", *field(sh, "events").a, struct(prog, "LookupRequest", key=rkey(prog, op[1]), code=mk("bytes0") if name == "hit" else code(op[1]))))
        n.queue.append(("hit" if name == "hit" else "miss", op[1]))
        if name == "later":     # the coordinator has not woken up yet
            n.span = prog.fn(H).span
            return n, []
    elif name == "wait":
        n.now += op[1]
        env.now = n.now
    elif name in ("ok", "err"):
        if op[1] >= len(n.jobs):
            return None, []
        j = n.jobs[op[1]]
        jt = n.heap[JOBS].a[op[1]]
        n.heap[JOBS] = mk("array", *[x for i, x in enumerate(n.heap[JOBS].a) if i != op[1]])
        how = "err" if name == "err" else "aot" if j["kind"] == "Aot" else "obj" if c.object_ else "jit"
        i = j["id"]
        if how == "err":
            out = m.err(mk("sym2", "error", i))
        elif how == "aot":
            out = m.ok(enum(prog, "WorkerSuccess", "Aot", struct(prog, "AotSuccess", symbol_name=mk("sym2", "symbol", i), dylib_bytes=mk("sym2", "dylib", i), bytecode_len=mk("sym2", "len", i))))
        elif how == "obj":
            out = m.ok(enum(prog, "WorkerSuccess", "JitObject", struct(prog, "JitObjectSuccess", symbol_name=mk("sym2", "symbol", i), object_bytes=mk("sym2", "object", i), builtin_symbols=mk("sym2", "bsyms", i))))
        else:
            out = m.ok(enum(prog, "WorkerSuccess", "Jit", struct(prog, "JitSuccess", func=mk("sym2", "jitfunc", i), backing=mk("sym2", "jitback", i))))
        res = struct(prog, "WorkerResult", key=field(jt, "key"), outcome=out, kind=field(jt, "kind"), sync_notifier=field(jt, "sync_notifier"), generation=field(jt, "generation"))
        n.result(c, j, how, env)
    out = []
    evs = []

    def step(fn, args):
        try:
            h, b = rt.run(prog, fn, n.heap, args, env)
        except m.Limit as u:
            raise Undecided(str(u)[:300])
        if len(h.res) != 1:
            raise Undecided(f"{fn}: {len(h.res)} outcomes" + ("" if not h.res else f" depending on {[show(k)[:120] for k in h.res[0][0]][:3]}"))
        n.heap = dict(h.res[0][3])
        evs.extend(h.res[0][2])
        return b
    b = None
    if cmd is not None:
        b = step(H, {1: s, 2: cmd})
    elif name in ("ok", "err"):
        b = step("BackendState::handle_worker_result", {1: s, 2: res})
    if name in ("clear", "clearall"):
        ev = field(n.heap[SHARED], "events")
        out.append(("clear", "lookups observed before a clear are forgotten", not ev.a, f"{len(ev.a)} stay queued"))
        out.append(("clear", "a clear cancels running compilations", any(e[0] == "cancel" for e in evs), "no cancellation"))
    n.tick(c, env)
    b = step("BackendState::tick", {1: s}) or b
    n.span = b.span
    # -- observables ------------------------------------------------------------------------------------------
    sh, se = n.heap[SHARED], n.heap[SELF]
    got = [(show(e[1]), e[3]) for e in evs if e[0] == "send"]
    want = sorted(f"sym2(waiter, {w})" for w in n.told)
    out.append(("waiters", "the waiters told are those whose request is settled", sorted(g[0] for g in got) == want, f"told {sorted(g[0] for g in got)}, expected {want}"))
    if name in ("ok", "err"):
        k = j["key"]
        if k in n.resident and j["gen"] == n.gen:
            early = [g for g, r in got if rkey(prog, k) not in r]
            out.append(("waiters", "waiters are told after the code is published", not early, f"{early} told before publication"))
    jobs = n.heap[JOBS].a
    gj = [(keynum(prog, field(x, "key")), field(x, "kind").a[2], show(field(x, "bytecode")), show(field(x, "opt_level")), wn(field(x, "sync_notifier"))) for x in jobs]
    wj = [(x["key"], x["kind"], show(code(x["key"])), f"sym({x['kind'].lower()}_opt)", None if x["waiter"] is None else f"sym2(waiter, {x['waiter']})") for x in n.jobs]
    out.append(("dispatch", "the jobs handed to workers", gj == wj, f"outstanding jobs (key, kind, code, level, waiter) {gj}, expected {wj}"))
    for x in jobs:
        kn, sub = keynum(prog, field(x, "key")), set(subterms(field(x, "symbol_name")))
        if kn is not None:
            out.append(("dispatch", "a job's symbol names its contract and fork", mk("sym", f"hash{kn % 10}") in sub and mk("sym", f"spec{kn // 10}") in sub, f"symbol {show(field(x, 'symbol_name'))[:200]} for key {kn}"))
    gens = [field(x, "generation") for x in jobs]
    cur = field(se, "generation")
    out.append(("clear", "a job's generation tells whether a clear happened since", all((g == cur) == (y["gen"] == n.gen) for g, y in zip(gens, n.jobs)), f"generations {[show(g) for g in gens]} at {show(cur)}"))
    pj = field(se, "pending_jobs")
    out.append(("dispatch", "the pending count equals the outstanding jobs", is_k(pj) and pj.a[0] == len(jobs), f"pending count {show(pj)} with {len(jobs)} outstanding jobs"))
    if c.cb:
        got = [cbev(prog, e[1]) for e in evs if e[0] == "callback"]
        want = [(j["key"], j["kind"], int(name == "ok"))] if name in ("ok", "err") and j["gen"] == n.gen else []
        out.append(("stats", "the compilation callback reports each finished compilation", got == want, f"reported (key, kind, success) {got}, expected {want}"))
    r = field(sh, "resident")
    res_ = {keynum(prog, k): what(prog, p) for k, p in zip(r.a[::2], r.a[1::2])}
    wrong = [(k, w[2]) for k, w in res_.items() if k is None or w[2] != k]
    out.append(("identity", "a program is published under its own key", not wrong, f"{wrong}"))
    exp = {}
    for k, (w, _) in n.resident.items():
        if w[0] == "jit":
            exp[k] = (f"sym2(jitfunc, {w[1]})", f"sym2(jitback, {w[1]})", "Jit")
        elif w[0] == "obj":
            exp[k] = ("linked", "backing", "Jit")
        else:
            exp[k] = ("func", "loaded", "Aot")
    out.append(("identity", "exactly the finished, still valid compilations are resident", set(res_) == set(exp), f"resident {sorted(map(str, res_))}, expected {sorted(map(str, exp))}"))
    for k in set(res_) & set(exp):
        f, bk, _, kd = res_[k]
        a, bb, kk = exp[k]
        ok = a in f and bb in bk and kk in kd
        w = n.resident[k][0]
        if w[0] == "obj":
            ok = ok and f"sym2(object, {w[1]})" in f and f"sym2(object, {w[1]})" in bk
        if w[0] == "aot":
            kt = show(rkey(prog, k))
            fp = field(unbox([p for q, p in zip(r.a[::2], r.a[1::2]) if keynum(prog, q) == k][0]), "func")
            bp = field(unbox([p for q, p in zip(r.a[::2], r.a[1::2]) if keynum(prog, q) == k][0]), "_backing")
            ok = ok and kinds(fp, k, prog) and kinds(bp, k, prog)
        out.append(("identity", "resident code is the one compiled for its key", ok, f"key {k} has {f[:120]} backed by {bk[:120]}, expected {exp[k]}"))
    meta = field(se, "resident_meta")
    mk_ = {keynum(prog, k): field(v, "last_hit_at") for k, v in zip(meta.a[::2], meta.a[1::2])}
    out.append(("evict", "eviction data covers exactly the resident programs", set(mk_) == set(res_), f"meta {sorted(map(str, mk_))}, resident {sorted(map(str, res_))}"))
    stale = [(k, show(v), n.resident[k][1]) for k, v in mk_.items() if k in n.resident and v != K(n.resident[k][1])]
    out.append(("evict", "last use is kept up to date", not stale, f"(key, recorded, expected) {stale}"))
    st = n.heap[STATS]
    if st not in SNAP:
        try:
            h, _ = rt.run(prog, "RuntimeStats::snapshot", {STATS: st}, {1: ref(STATS), 2: struct(prog, "RuntimeStatsGauges")}, env)
        except m.Limit as u:
            raise Undecided(str(u)[:300])
        if len(h.res) != 1:
            raise Undecided(f"RuntimeStats::snapshot: {len(h.res)} outcomes")
        SNAP[st] = h.res[0][1]
    st = SNAP[st]
    bad = {x: (show(field(st, x)), y) for x, y in list(n.stats.items()) + [("pending_jobs", len(n.jobs))] if field(st, x) != K(y)}
    out.append(("stats", "counters count what happened", not bad, f"{bad}"))
    keys = {keynum(prog, field(k, "runtime")) for k in n.heap[STORE].a[::2]}
    out.append(("store", "the artifacts in the store", keys == n.store, f"stored {keys}, expected {n.store}"))
    for k, man in zip(n.heap[STORE].a[::2], n.heap[STORE].a[1::2]):
        out.append(("store", "an artifact is filed under what it was compiled for", field(man, "artifact_key") == k and show(field(k, "opt_level")) == "sym(aot_opt)", f"{show(k)[:200]}"))
    for e in evs:
        if e[0] == "persist":
            man, i = e[2], j["id"]
            sub = set(subterms(field(man, "content_hash")))
            ok = e[3] == mk("sym2", "dylib", i) and field(man, "symbol_name") == mk("sym2", "symbol", i) and field(man, "bytecode_len") == mk("sym2", "len", i) and keynum(prog, field(e[1], "runtime")) == j["key"] \
                and mk("sym2", "dylib", i) in sub and mk("sym2", "dylib", i) in set(subterms(field(man, "artifact_len")))
            out.append(("store", "what is stored is the compiled library and its description", ok, f"stored {show(e[3])[:80]} described by {show(man)[:300]}"))
    inst = {keynum(prog, field(k, "runtime")): field(v, "symbol_name") for k, v in zip(n.heap[STORE].a[::2], n.heap[STORE].a[1::2])}
    for q, p in zip(r.a[::2], r.a[1::2]):
        kn = keynum(prog, q)
        if "Aot" in show(field(unbox(p), "kind")) and kn in inst and kn not in node.resident:
            out.append(("store", "the function loaded is the one the description names", inst[kn] in set(subterms(field(unbox(p), "func"))), f"key {kn}: {field(unbox(p), 'func')}"))
    out.append(("dispatch", "observations are taken from the queue in order, a bounded number at a time", len(field(sh, "events").a) == len(n.queue), f"{len(field(sh, 'events').a)} left, expected {len(n.queue)}"))
    ent = field(se, "entries")
    for k, e in zip(ent.a[::2], ent.a[1::2]):
        kn = keynum(prog, k)
        w = field(e, "phase").a[2] == "Working"
        alive = any(y["key"] == kn and y["gen"] == n.gen for y in n.jobs)
        out.append(("dispatch", "a key counts as being compiled exactly while its job is outstanding", w == alive, f"key {kn}: working={w}, job outstanding={alive}"))
        held = field(e, "pending_notifiers")
        hw = sorted(x for x in (wn(q) for q in held.a) if x)
        ww = sorted(f"sym2(waiter, {x})" for x in n.entries.get(kn, dict(waiters=()))["waiters"])
        out.append(("waiters", "waiters of a running compilation are kept", hw == ww, f"key {kn}: kept {hw}, expected {ww}"))
    return n, out


def kinds(t, k, prog):
    """Every cache key mentioned in the term is k's."""
    ks = [keynum(prog, x) for x in subterms(t) if x.op == "adt" and x.a[0].endswith("RuntimeCacheKey")]
    return bool(ks) and all(x == k for x in ks)


def cbev(prog, t):
    t = t.a[0] if t.op == "tuple" and len(t.a) == 1 else t
    s = field(t, "success")
    return keynum(prog, struct(prog, "RuntimeCacheKey", code_hash=field(t, "code_hash"), spec_id=field(t, "spec_id"))), field(t, "kind").a[2], s.a[0] if is_k(s) else show(s)


def unbox(p):
    while p.op in ("box", "rv"):
        p = p.a[0]
    return p


def wn(n):
    v = field(n, "0")
    return None if v.a[2] == "None" else show(v.a[4])


def setf(t, name, v):
    i = 4 + t.a[3].index(name)
    return mk("adt", *t.a[:i], v, *t.a[i + 1:])


A, B, SAME = 1, 2, 11   # two contracts; 11: the first contract under another fork

BASE = [("compile", A), ("compile", B), ("compile", SAME), ("miss", A), ("ok", 0), ("ok", 1), ("err", 0), ("clear",)]


def configs():
    rej = {"accept": False}
    return [
        Cfg("jit", BASE + [("compile", A, rej), ("clearall",)], depth=4, cb=True),
        Cfg("hot", [("miss", A), ("miss", B), ("compile", A), ("ok", 0), ("clear",), ("hit", A)], hot=2, depth=5),
        Cfg("cap", [("miss", A), ("miss", B), ("compile", A), ("compile", B), ("ok", 0), ("err", 0), ("clear",)], cap=1, depth=4),
        Cfg("observed", [("miss", i) for i in range(1, 5)] + [("compile", 9), ("clear",), ("ok", 0)], cap=0, hot=1, depth=3),
        Cfg("object", [("compile", A), ("compile", B), ("ok", 0), ("ok", 1), ("ok", 0, {"link": False}), ("clear",)], object_=True, depth=4, cb=True),
        Cfg("idle", [("compile", A), ("compile", B), ("miss", A), ("hit", A), ("ok", 0), ("wait", 3), ("wait", 9), ("clear",)], idle=5, depth=5, hot=2),
        Cfg("slow-sweep", [("compile", A), ("compile", B), ("hit", A), ("ok", 0), ("wait", 3), ("wait", 9)], idle=2, interval=6, depth=4),
        Cfg("budget", [("compile", A), ("compile", B), ("compile", SAME), ("hit", A), ("ok", 0), ("ok", 1), ("miss", A)], budget=150, cap=3, depth=5),
        Cfg("aot", [("compile", A), ("miss", B), ("prepare", (A, B)), ("ok", 0), ("ok", 1), ("err", 0), ("clear",), ("clearall",), ("clearstore",)], aot=True, depth=4),
        Cfg("aot-faults", [("compile", A), ("ok", 0), ("ok", 0, {"store_err": True}), ("ok", 0, {"dlopen": False}), ("ok", 0, {"load_err": True}), ("compile", A, {"dlopen": False}), ("compile", A, {"load_err": True}), ("clear",)], aot=True, depth=4),
        Cfg("aot-nostore", [("compile", A), ("ok", 0), ("err", 0), ("prepare", (A,)), ("clearall",)], aot=True, store=False, depth=3, cb=True),
        Cfg("mixed", [("prepare", (A,)), ("compile", A), ("compile", B), ("ok", 0), ("ok", 1), ("clear",), ("wait", 9)], idle=5, depth=4),
        Cfg("mixed-budget", [("prepare", (A,)), ("compile", A), ("compile", B), ("ok", 0), ("hit", A)], budget=50, depth=4),
        Cfg("queued", [("later", A), ("later", B), ("hit", A), ("compile", B), ("ok", 0), ("clear",), ("clearall",)], hot=2, depth=5),
        Cfg("bounded", [("later", A), ("later", B), ("hit", A), ("wait", 1), ("ok", 0), ("clear",)], hot=1, drain=1, depth=5),
        Cfg("crowded", [("miss", A), ("miss", B), ("miss", 21), ("compile", B), ("ok", 0), ("clear",)], hot=2, cap=1, depth=4, prefix=[("miss", 20 + i) for i in range(9)]),
        Cfg("ineligible", [("compile", A), ("miss", A), ("prepare", (A,))], should=False, depth=2),
    ]


def explore(takes):
    """takes(aspect, config, history names): whether this property is about the difference."""
    def check(prog, rep):
        seen_states = 0

        def one(rep, it):
            c, prefix = it
            start = Node(prog, c)
            for op in c.prefix:
                try:
                    start, out = apply(prog, c, start, op)
                except Undecided as u:
                    rep.violation("coordinator:undecided", f"the handlers could not be evaluated after {c.name} {c.prefix}: {u}", prog.fn(H).span)
                    return
            stack = [(start, list(prefix), [])]
            memo = set()
            while stack:
                node, todo, hist = stack.pop()
                d = c.depth + (rep.tier == "thorough") - len(hist)
                if d == 0:
                    continue
                for op in ([todo[0]] if todo else c.ops):
                    name = " ".join([c.name + ":"] + [fmt(o) for o in hist + [op]])
                    try:
                        n2, out = apply(prog, c, node, op)
                    except Undecided as u:
                        rep.violation("coordinator:undecided", f"the handlers could not be evaluated after `{name}`: {u}", prog.fn(H).span)
                        return
                    except (teval.Unk, AttributeError, IndexError, TypeError, KeyError) as u:
                        rep.violation("coordinator:undecided", f"the state after `{name}` could not be read: {u!r}", prog.fn(H).span)
                        return
                    if n2 is None:
                        continue
                    rep.count("handler steps", rep.counts.get("handler steps", 0) + 1)
                    bad = False
                    for asp, label, ok, detail in out:
                        bad = bad or not ok
                        if takes(asp, c, [o[0] for o in hist + [op]]):
                            rep.check(ok, label, f"{c.name} {fmt(op)}", f"after `{name}`: {detail}", n2.span)
                    if bad:
                        continue   # later differences would only repeat this one
                    sig = (d, tuple(n2.heap[r] for r in (SELF, SHARED, JOBS, STORE)), tuple(map(fmt, todo[1:])))
                    if sig in memo:
                        continue
                    memo.add(sig)
                    stack.append((n2, todo[1:], hist + [op]))
        items = [(c, (a,) if c.depth < 4 else (a, b)) for c in configs() for a in c.ops for b in (c.ops if c.depth >= 4 else c.ops[:1])]
        par.pmap(rep, one, items)
    return check


def fmt(op):
    return op[0] + "".join("(" + ",".join(map(str, x)) + ")" if isinstance(x, tuple) else f"[{','.join(f'{k}={v}' for k, v in x.items())}]" if isinstance(x, dict) else f"({x})" for x in op[1:])


CLEARS = {"clear", "clearall", "clearstore"}
everything = explore(lambda a, c, h: True)
identity = explore(lambda a, c, h: a == "identity")
dispatch = explore(lambda a, c, h: a == "dispatch")
waiters = explore(lambda a, c, h: a == "waiters")
clear = explore(lambda a, c, h: a == "clear" or bool(CLEARS & set(h)))
evict = explore(lambda a, c, h: a in ("evict", "stats") or a == "identity" and (c.idle is not None or c.budget > 0))
store = explore(lambda a, c, h: a == "store" or a == "identity" and (c.aot or "prepare" in h))
stats = explore(lambda a, c, h: a == "stats")
