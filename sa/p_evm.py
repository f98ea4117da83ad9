"""P25: the EVM wrappers. Their dispatch (plain and inspected), their transaction entry points and their lookup cache are abstractly
interpreted along short histories of transactions, forks, frames and backend replacements, against the reference dispatch."""
import itertools

import cg
import mirlib as m
import par
from mirlib import K, UNIT, mk, show
from p_entry import at, rec, sub
from p_front import Bad
from p_worker import run
from rt import NONE, SELF, Ev, enum, field, ref, struct

CTX, CFG, FS, FRAME, INSP, JOURNAL = (mk("D", mk("sym", x)) for x in ("ctx", "cfg", "frames", "frame", "inspector", "journal"))
HASHES, SPECS = ("A", "B"), ("s1", "s2")


def sub_run(e, st, clo, args):
    """(value, events) of a closure on a copy of the heap, or None."""
    c = e.peel(st, clo)
    if c.op != "closure" or c.a[0] not in e.p.bodies:
        return None
    h = Ev(e.h.calls, e.h.noinline, models=e.h.models, final=())
    e2 = m.Engine(e.p, h, max_part=e.max_part, max_steps=20000, exact=True)
    e2.base = e.base + 100000
    e2.run(e.p.bodies[c.a[0]], args={1: clo if clo.op in ("ref", "rv") else mk("rv", c), **{i + 2: a for i, a in enumerate(args)}}, flags=(), env=dict(st.env))
    return (h.res[0][1], h.res[0][2]) if len(h.res) == 1 else None


class Script:
    def __init__(self, hash="A", spec="s1", action="other", outcome="item", inner="ok", entry="other", compiled=("A",), eth=True, handler="ok"):
        self.__dict__.update({k: v for k, v in locals().items() if k != "self"})


def calls(prog, s):
    def ev(st, *x):
        st.flags = st.flags + (x,)

    def k(e, st, a):
        v = e.snap(st, e.peel(st, a))
        return v

    def to(root):
        return lambda e, st, fr, a, site: ref(root)

    def parts(*roots):
        return lambda e, st, fr, a, site: mk("tuple", *[ref(r) if r is not None else mk("sym", "other_part") for r in roots])

    def lookup(e, st, fr, a, site):
        req = k(e, st, a[1])
        key = field(req, "key")
        h, sp = field(key, "code_hash"), field(key, "spec_id")
        b = k(e, st, a[0])
        ev(st, "lookup", b, h, sp, field(req, "code"))
        if h.op == "sym" and h.a[0] in s.compiled:
            return enum(prog, "LookupDecision", "Compiled", mk("box", struct(prog, "CompiledProgram", func=mk("sym2", "func", b, h, sp))))
        return enum(prog, "LookupDecision", "Interpret", mk("sym", "reason"))

    def on_miss(e, st, fr, a, site):
        x = a[1].a if a[1].op == "tuple" else a[1:]
        h, c = k(e, st, x[0]), k(e, st, x[1])
        ev(st, "miss", h, c)
        if h == mk("sym", "C"):
            return m.some(mk("adt", "EvmCompilerFn", 0, "EvmCompilerFn", ("0",), mk("sym2", "func", h)))
        return NONE

    def action():
        p = prog.enum_path("InterpreterAction")
        if s.action == "other":
            return prog.enum(p, "NewFrame", (mk("sym", "new_frame"),))
        r = prog.enum(prog.enum_path("InstructionResult"), s.action, ())
        return prog.enum(p, "Return", (rec("InterpreterResult", result=r, output=mk("sym", "output"), gas=mk("sym", "gas")),))

    def fn_of(v):
        while True:
            if v.op == "box":
                v = v.a[0]
            elif v.op == "adt" and v.a[0].endswith("CompiledProgram"):
                v = field(v, "func")
            elif v.op == "adt" and len(v.a) == 5:
                v = v.a[4]
            else:
                return v

    def compiled(e, st, fr, a, site):
        ev(st, "run", fn_of(e.snap(st, a[0])), loc(e, st, a[1]), loc(e, st, a[2]), None)
        return action()

    def compiled_with(eng, fr, st, fn, args, dest, target, site, wrap):
        ecx = mk("D", mk("sym", "ecx"))
        st.env[ecx] = rec("EvmContext", on_log=NONE)
        f, i, h = fn_of(eng.snap(st, args[0])), loc(eng, st, args[1]), loc(eng, st, args[2])

        def w(en, s2, v):
            lg = en.read(s2, ecx, (("f", "on_log"),))
            heard = None
            if lg.op == "adt" and lg.a[2] == "Some":
                r = sub_run(en, s2, lg.a[4], [mk("rv", mk("sym", "a_log"))])
                heard = tuple(x for x in r[1] if x[0] == "log") if r else "unknown"
            s2.flags = s2.flags + (("run", f, i, h, heard),)
            return wrap(en, s2, action()) if wrap else action()
        return m.call_f(eng, fr, st, args[3], [ref(ecx)], dest, target, site + "c", w)

    def loc(e, st, a):
        a = at(e, st, a) or a
        return (a.a[0].a[0].a[0], tuple(p[1] for p in a.a[1])) if a.op == "ref" and a.a[0].op == "D" else show(a)[:60]

    def nxt(e, st, fr, a, site):
        ev(st, "next", loc(e, st, a[0]), loc(e, st, a[1]), e.snap(st, a[2]))
        p = prog.enum_path("ItemOrResult")
        return {"item": m.ok(prog.enum(p, "Item", (mk("sym", "new_frame_init"),))), "result": m.ok(prog.enum(p, "Result", (mk("sym", "frame_result"),))), "err": m.err(mk("sym", "db_error"))}[s.outcome]

    def inner_run(kind):
        def f(e, st, fr, a, site):
            ev(st, kind, loc(e, st, a[0]))
            return m.ok(mk("sym", kind + "_out")) if s.inner == "ok" else m.err(mk("sym", kind + "_err"))
        return f

    def handler(kind):
        def f(e, st, fr, a, site):
            me = e.read(st, SELF, ())
            ev(st, "handler", kind, me if me.op == "adt" else None)
            return m.ok(mk("sym", "tx_result")) if s.handler == "ok" else m.err(mk("sym", "tx_error"))
        return f

    def finished(e, st, fr, a, site):
        ev(st, "finished", loc(e, st, a[0]), e.snap(st, a[1]))
        return UNIT

    def is_result(e, st, fr, a, site):
        v = k(e, st, a[0])
        return K(int(v.a[2] == "Result")) if v.op == "adt" else None

    def frame_end(e, st, fr, a, site):
        ev(st, "frame_end", *[loc(e, st, x) for x in a[:3]], k(e, st, a[3]))
        return UNIT

    def last(e, st, fr, a, site):
        p = prog.enum_path("JournalEntry")
        def known(var, **f):
            names = [x[0] if isinstance(x, (list, tuple)) else x["name"] for x in [v for v in prog.adts[p]["variants"] if v["name"] == var][0]["fields"]]
            i = [j for j, v in enumerate(prog.adts[p]["variants"]) if v["name"] == var][0]
            return mk("adt", p, i, var, tuple(names), *[f.get(n, mk("sym", "other")) for n in names])
        if s.entry == "none":
            return NONE
        if s.entry == "destroyed":
            return m.some(mk("rv", known("AccountDestroyed", address=mk("sym", "who"), target=mk("sym", "heir"), had_balance=mk("sym", "amount"))))
        if s.entry == "transfer":
            return m.some(mk("rv", known("BalanceTransfer", **{"from": mk("sym", "who"), "to": mk("sym", "heir"), "balance": mk("sym", "amount")})))
        return m.some(mk("rv", known("NonceChange")))

    def log(e, st, fr, a, site):
        ev(st, "log", loc(e, st, a[0]), loc(e, st, a[1]), k(e, st, a[2]))
        return UNIT

    def selfdestruct(e, st, fr, a, site):
        ev(st, "selfdestruct", *[k(e, st, x) for x in a[1:]])
        return UNIT

    def set_tx(e, st, fr, a, site):
        ev(st, "set_tx", k(e, st, a[1]))
        return UNIT

    def system_tx(e, st, fr, a, site):
        return mk("sym2", "system_tx", *[k(e, st, x) for x in a])
    ident = lambda e, st, fr, a, site: a[0]
    c = {}
    for t in ("EvmTr", "InspectorEvmTr"):
        c.update({f"{t}::ctx_ref": to(CTX), f"{t}::ctx": to(CTX), f"{t}::ctx_mut": to(CTX), f"{t}::frame_stack": to(FS), f"{t}::all_mut": parts(CTX, None, None, FS), f"{t}::all": parts(CTX, None, None, FS),
                  f"{t}::ctx_inspector": parts(CTX, INSP), f"{t}::ctx_inspector_frame": parts(CTX, INSP, FRAME), f"{t}::inspector": to(INSP), f"{t}::all_mut_inspector": parts(CTX, None, None, FS, INSP),
                  f"{t}::frame_run": inner_run("inner_run"), f"{t}::inspect_frame_run": inner_run("inner_inspect")})
    c.update({"ContextTr::cfg": to(CFG), "Cfg::spec": lambda e, st, fr, a, site: mk("str", s.spec), "Into::into": ident, "From::from": ident, "FrameStack::get": to(FRAME), "OutFrame::get": to(FRAME),
              "ExtBytecode::get_or_calculate_hash": lambda e, st, fr, a, site: mk("sym", s.hash), "ExtBytecode::original_bytes": lambda e, st, fr, a, site: mk("sym2", "code", s.hash),
              "LegacyBytecode::original_bytes": lambda e, st, fr, a, site: mk("sym2", "code", s.hash), "Bytecode::original_bytes": lambda e, st, fr, a, site: mk("sym2", "code", s.hash),
              "JitBackend::lookup": lookup, "FnMut::call_mut": on_miss, "FnOnce::call_once": on_miss, "EvmCompilerFn::call_with_interpreter": compiled, "EthFrame::process_next_action": nxt, "EthFrame::set_finished": finished,
              "ItemOrResult::is_result": is_result, "handler::frame_end": frame_end, "InspectorFrame::eth_frame": lambda e, st, fr, a, site: m.some(ref(FRAME)) if s.eth else NONE,
              "ContextTr::journal_mut": to(JOURNAL), "JournalExt::journal": to(JOURNAL), "slice::last": last, "Vec::last": last, "Inspector::log": log, "Inspector::selfdestruct": selfdestruct,
              "ContextSetters::set_tx": set_tx, "SystemCallTx::new_system_tx_with_caller": system_tx, "Handler::run": handler("run"), "Handler::run_system_call": handler("system"),
              "InspectorHandler::inspect_run": handler("inspect"), "InspectorHandler::inspect_run_system_call": handler("inspect_system"),
              "JournalTr::finalize": lambda e, st, fr, a, site: mk("sym", "state"), "Deref::deref": ident, "DerefMut::deref_mut": ident, "ResultAndState::new": lambda e, st, fr, a, site: mk("tuple", *a)})
    return c, {"EvmCompilerFn::call_with_interpreter_with": compiled_with}


def method(prog, name, crate):
    c = [b for b in prog.bodies.values() if b.name.endswith("::" + name) and "JitEvm" in b.name and b.name.lstrip("<").startswith(crate) and "{closure" not in b.id and b.nargs and "alloy_evm::" not in b.name]
    if len(c) != 1:
        raise m.Missing(f"{name} of the {crate} EVM wrapper: {len(c)} candidates")
    return c[0]


def ev_run(prog, b, h, args, s):
    c, mods = calls(prog, s)
    import p_worker
    import rt
    import shapes
    md = dict(shapes.Iters().models())
    md["Entry::or_insert_with"] = rt.m_or_insert_with
    md.update(mods)
    hd = Ev(shapes.merge(c, rt.models(prog, rt.Env()) if any("RuntimeTuning" in a for a in prog.adts) else {}, rt.shape_calls(prog)), ("EvmCompilerFn::call_with_interpreter",), models=md, final=[(r, (r, ())) for r in h])
    e = m.Engine(prog, hd, max_part=100, max_steps=30000, exact=True)
    try:
        e.run(b, args=args, flags=(), env=dict(h))
    except m.Limit as u:
        raise Bad(f"{b.name} could not be evaluated: {str(u)[:300]}")
    if len(hd.res) != 1:
        raise Bad(f"{b.name} has {len(hd.res)} outcomes" + (f" depending on {[show(k)[:200] for k in hd.res[0][0]][:3]}" if hd.res else ""))
    return hd.res[0][1], [x for x in hd.res[0][2] if x[0] not in ("store", "guard")], dict(hd.res[0][3])


def judge(rep, what, key, evs, ret, s, func, inspect, where):
    """One dispatch: func is the function expected to run, or None for the interpreter."""
    c = lambda ok, w, msg: rep.check(ok, w, f"{what} {key}", f"{what} {key}: {msg}", where)
    runs = [x for x in evs if x[0] in ("run", "inner_run", "inner_inspect")]
    if func is None:
        k = "inner_inspect" if inspect else "inner_run"
        c([x[0] for x in runs] == [k], "without compiled code the frame is interpreted, once", f"{[x[0] for x in runs]}")
        want = m.ok(mk("sym", k + "_out")) if s.inner == "ok" else m.err(mk("sym", k + "_err"))
        c(ret == want, "the interpreter's outcome is passed on", f"returned {show(ret)[:120]}")
        c(not [x for x in evs if x[0] in ("next", "finished", "frame_end", "selfdestruct")], "an interpreted frame is left to the interpreter", f"{[x[0] for x in evs]}")
        return
    c(len(runs) == 1 and runs[0][0] == "run", "compiled code runs, once", f"{[x[0] for x in runs]}")
    if not (len(runs) == 1 and runs[0][0] == "run"):
        return
    r = runs[0]
    c(r[1] == func, "the code run is the one compiled for this contract, fork and backend", f"ran {show(r[1])}, expected {show(func)}")
    c(r[2] == ("frame", ("interpreter",)) and r[3] == ("ctx", ()), "it runs on the current frame and context", f"{r[2]} {r[3]}")
    if inspect:
        c(r[4] == (("log", ("inspector", ()), ("ctx", ()), mk("sym", "a_log")),), "the inspector hears every log", f"{r[4]}")
        sd = [x[1:] for x in evs if x[0] == "selfdestruct"]
        w = [(mk("sym", "who"), mk("sym", "heir"), mk("sym", "amount"))] if s.action == "SelfDestruct" and s.entry in ("destroyed", "transfer") else []
        c(sd == w, "the inspector hears self-destructs", f"{[[show(y) for y in x] for x in sd]}")
    n = [x for x in evs if x[0] == "next"]
    c(len(n) == 1 and n[0][1] == ("frame", ()) and n[0][2] == ("ctx", ()), "the outcome is processed once, on the current frame", f"{n}"[:200])
    if len(n) == 1:
        a = n[0][3]
        ok = a.op == "adt" and (a.a[2] == "NewFrame") == (s.action == "other") and (s.action == "other" or field(a.a[4], "result").a[2] == s.action)
        c(ok, "the action processed is the one the code returned", f"{show(a)[:120]}")
    want = {"item": ("Ok", "Item"), "result": ("Ok", "Result"), "err": ("Err", None)}[s.outcome]
    got = (ret.a[2], ret.a[4].a[2] if ret.a[2] == "Ok" and ret.a[4].op == "adt" else None) if ret.op == "adt" else None
    c(got == want, "the processed outcome is returned", f"returned {show(ret)[:120]}")
    fin = [x for x in evs if x[0] == "finished"]
    done = s.outcome == "result" and (s.eth or not inspect)
    c([x[1:] for x in fin] == ([(("frame", ()), K(1))] if done else []), "a frame is finished exactly when it has a result", f"{fin}"[:150])
    if inspect:
        fe = [x[1:] for x in evs if x[0] == "frame_end"]
        c(fe == ([(("ctx", ()), ("inspector", ()), ("frame", ("input",)), mk("sym", "frame_result"))] if done else []), "the inspector hears the end of the frame", f"{fe}"[:200])
        order = [x[0] for x in evs if x[0] in ("run", "selfdestruct", "next", "frame_end", "finished")]
        c(order == [x for x in ("run", "selfdestruct", "next", "frame_end", "finished") if x in order], "events are heard in order", f"{order}")


def cases():
    for inspect in (0, 1):
        for action, outcome in itertools.product(("other", "Stop", "SelfDestruct", "OutOfGas"), ("item", "result", "err")):
            for entry in (("destroyed", "transfer", "other", "none") if inspect and action == "SelfDestruct" else ("destroyed",)):
                yield inspect, dict(action=action, outcome=outcome, entry=entry)
        yield inspect, dict(action="Stop", outcome="result", eth=False)
        for inner in ("ok", "err"):
            yield inspect, dict(hash="B", inner=inner)


def static_wrapper(prog, rep):
    """The wrapper with a fixed table of functions."""
    tab = mk("map", mk("sym", "A"), mk("sym2", "func", mk("sym", "A")), mk("sym", "D"), mk("sym2", "func", mk("sym", "D")))
    n = 0
    for inspect, kw in cases():
        for h in ("A", "C", "D") if kw.get("hash") != "B" else ("B",):
            s = Script(**{**kw, "hash": h})
            fn = "inspect_frame_run" if inspect else "frame_run"
            b = method(prog, fn, "revmc_context")
            ret, evs, h2 = ev_run(prog, b, {SELF: rec("JitEvm", inner=mk("sym", "inner"), functions=tab, on_miss=mk("sym", "on_miss"))}, {1: ref(SELF)}, s)
            key = f"contract={h} " + " ".join(f"{k}={v}" for k, v in kw.items() if k != "hash")
            f = mk("sym2", "func", mk("sym", h)) if h != "B" else None
            judge(rep, "table " + fn, key, evs, ret, s, f, inspect, b.span)
            miss = [x for x in evs if x[0] == "miss"]
            want = [("miss", mk("sym", h), mk("sym2", "code", h))] if h in "BC" else []
            rep.check(miss == want, "a missing function is asked for once, with the contract's own hash and code", f"{fn} {key}", f"{miss}"[:200], b.span)
            n += 1
    for fn, kind, tx in (("transact_one", "run", True), ("replay", "run", False), ("inspect_one_tx", "inspect", True)):
        n += entry(prog, rep, "revmc_context", fn, kind, tx, rec("JitEvm", inner=mk("sym", "inner"), functions=tab, on_miss=mk("sym", "on_miss")), None)
    rep.count("table dispatch cases", n)
    rep.floor("table dispatch cases", n, 60)


def entry(prog, rep, crate, fn, kind, tx, me, spec, handler="ok"):
    """A transaction entry point."""
    n = 0
    b = method(prog, fn, crate)
    for hr in ("ok", "err"):
        s = Script(spec=spec or "s1", handler=hr)
        args = {1: ref(SELF)}
        for i in range(2, b.nargs + 1):
            args[i] = mk("sym", f"arg{i}")
        ret, evs, h2 = ev_run(prog, b, {SELF: me}, args, s)
        key = f"{fn} {hr}"
        hd = [x for x in evs if x[0] == "handler"]
        st = [x for x in evs if x[0] == "set_tx"]
        rep.check([x[1] for x in hd] == [kind], "an entry point runs its own handler once", f"{crate} {key}", f"{key}: {[x[1] for x in hd]}", b.span)
        want = [] if not tx else [("set_tx", mk("sym", "arg2"))] if tx is True else [("set_tx", mk("sym2", "system_tx", *[mk("sym", f"arg{i}") for i in range(2, b.nargs + 1)]))]
        rep.check(st == want, "the transaction run is the one given", f"{crate} {key}", f"{key}: {[show(x[1]) for x in st]}", b.span)
        order = [x[0] for x in evs if x[0] in ("set_tx", "handler")]
        rep.check(order == sorted(order, key=("set_tx", "handler").index), "the transaction is set before it runs", f"{crate} {key}", f"{key}: {order}", b.span)
        ok = ret.op == "adt" and ret.a[2] == ("Ok" if hr == "ok" else "Err") and mk("sym", "tx_result" if hr == "ok" else "tx_error") in set(m.subterms(ret))
        if fn == "replay" and hr == "ok":
            ok = ok and mk("sym", "state") in set(m.subterms(ret))
        rep.check(ok, "the handler's outcome is returned", f"{crate} {key}", f"{key}: {show(ret)[:120]}", b.span)
        n += 1
    return n


ENTRIES = (("transact_one", "run", True), ("replay", "run", False), ("system_call_one_with_caller", "system", "sys"), ("inspect_one_tx", "inspect", True), ("inspect_one_system_call_with_caller", "inspect_system", "sys"))


def fresh(prog, spec="s1", backend=1):
    path = [p for p in prog.adts if p.endswith("revm_evm::JitEvm")]
    if not path:
        raise m.Missing("the runtime's EVM wrapper")
    return cg.struct(prog, path[0], inner=mk("sym", "inner"), backend=mk("sym2", "backend", backend), lookup_cache=mk("map"), lookup_cache_spec_id=mk("str", spec))


def history(prog, rep, ops):
    """ops: ("tx", entry index, spec, (frames: (hash, inspect))) or ("backend",)."""
    crate = "revmc_runtime"
    me, backend, spec = fresh(prog), 1, "s1"
    done = ""
    for op in ops:
        if op[0] == "backend":
            backend += 1
            done += " replace-backend"
            b = method(prog, "set_backend", crate)
            _, _, h2 = ev_run(prog, b, {SELF: me}, {1: ref(SELF), 2: mk("sym2", "backend", backend)}, Script())
            me = h2[SELF]
            rep.check(field(me, "backend") == mk("sym2", "backend", backend), "the backend is replaced", done, f"{show(field(me, 'backend'))}", b.span)
            continue
        _, ei, spec, frames = op
        fn, kind, tx = ENTRIES[ei]
        done += f" {fn}@{spec}["
        b = method(prog, fn, crate)
        s = Script(spec=spec)
        args = {1: ref(SELF)}
        for i in range(2, b.nargs + 1):
            args[i] = mk("sym", f"arg{i}")
        _, evs, h2 = ev_run(prog, b, {SELF: me}, args, s)
        hd = [x for x in evs if x[0] == "handler"]
        if len(hd) != 1 or hd[0][2] is None:
            rep.check(False, "an entry point runs its own handler once", done, f"{done}: {len(hd)}", b.span)
            return
        # frames run while the handler runs: from the wrapper's state at that moment
        me = hd[0][2]
        for hsh, inspect in frames:
            done += f"{'i' if inspect else ''}{hsh}"
            s = Script(hash=hsh, spec=spec, action="Stop", outcome="result")
            b2 = method(prog, "inspect_frame_run" if inspect else "frame_run", crate)
            ret, evs, h2 = ev_run(prog, b2, {SELF: me}, {1: ref(SELF)}, s)
            me = h2[SELF]
            f = mk("sym2", "func", mk("sym2", "backend", backend), mk("sym", hsh), mk("str", spec)) if hsh == "A" else None
            judge(rep, "history", done + " ", evs, ret, s, f, inspect, b2.span)
            for x in evs:
                if x[0] == "lookup":
                    ok = x[1:] == (mk("sym2", "backend", backend), mk("sym", hsh), mk("str", spec), mk("sym2", "code", hsh))
                    rep.check(ok, "a lookup names the frame's code, hash and the current fork", done, f"{done}: {[show(y) for y in x[1:]]}", b2.span)
        done += "]"


def runtime_wrapper(prog, rep):
    n = 0
    for inspect, kw in cases():
        s = Script(**kw)
        fn = "inspect_frame_run" if inspect else "frame_run"
        b = method(prog, fn, "revmc_runtime")
        ret, evs, h2 = ev_run(prog, b, {SELF: fresh(prog)}, {1: ref(SELF)}, s)
        key = " ".join(f"{k}={v}" for k, v in kw.items())
        f = mk("sym2", "func", mk("sym2", "backend", 1), mk("sym", s.hash), mk("str", "s1")) if s.hash == "A" else None
        judge(rep, fn, key, evs, ret, s, f, inspect, b.span)
        n += 1
    for fn, kind, tx in ENTRIES:
        n += entry(prog, rep, "revmc_runtime", fn, kind, tx, fresh(prog), "s1")
    # a new wrapper starts with nothing cached
    b = method(prog, "new", "revmc_runtime")
    for sp in SPECS:
        ret, _, _ = ev_run(prog, b, {}, {1: mk("sym", "inner"), 2: mk("sym2", "backend", 7)}, Script(spec=sp))
        ok = ret.op == "adt" and field(ret, "backend") == mk("sym2", "backend", 7) and field(ret, "lookup_cache").op == "map" and not field(ret, "lookup_cache").a
        rep.check(ok, "a new wrapper has its backend and nothing cached", sp, show(ret)[:200], b.span)
    rep.count("runtime dispatch cases", n)
    rep.floor("runtime dispatch cases", n, 40)


def histories(tier):
    fr = [(("A", 0),), (("A", 1),), (("B", 0), ("A", 0)), (("A", 0), ("A", 1), ("B", 1))]
    tx = [("tx", e, sp, f) for e in range(5) for sp in SPECS for f in fr]
    one = [("tx", 0, sp, f) for sp in SPECS for f in fr]
    for a in tx:
        yield (a,)
    for a in one:
        for b in tx:
            yield (a, b)
            if a[3] is fr[0]:
                yield (a, ("backend",), b)
    for a, b, c in itertools.product([x for x in one if x[3] in (fr[0], fr[2])], [x for x in tx if x[3] is fr[3]], [x for x in one if x[3] is fr[0]]):
        yield (a, b, c)
    if tier == "thorough":
        for a, b, c in itertools.product(one, tx, tx):
            yield (a, b, ("backend",), c)


def evm(prog, rep):
    for f in (static_wrapper, runtime_wrapper):
        try:
            f(prog, rep)
        except Bad as u:
            rep.violation(f"{f.__name__}:undecided", str(u), "")
    hs = list(histories(rep.tier))
    size = max(1, len(hs) // 32)

    def work(r, part):
        for ops in part:
            try:
                history(prog, r, ops)
            except Bad as u:
                r.violation("history:undecided", str(u), method(prog, "frame_run", "revmc_runtime").span)
                return
    par.pmap(rep, work, [hs[i:i + size] for i in range(0, len(hs), size)])
    rep.count("wrapper histories", len(hs))
    rep.floor("wrapper histories", len(hs), 400)
