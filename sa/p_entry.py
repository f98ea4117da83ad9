"""P26: entry into and exit from compiled code, and the words and stack handed to it, abstractly interpreted with a scripted compiled
function (result code, gas, resume point, pending action, return data) against the reference hand-over."""
import itertools

import mirlib as m
from mirlib import K, UNIT, is_k, mk, show
from p_front import Bad
from p_worker import run
from rt import NONE, field, ref, sub_eval

INT, HOST, LEN, STACK = (mk("D", mk("sym", x)) for x in ("interpreter", "host", "stack_len", "stack"))


def rec(name, **kw):
    return mk("adt", name, 0, name, tuple(kw), *kw.values())


def interpreter(action, static, pc):
    return rec("Interpreter", bytecode=rec("ExtBytecode", action=action, pc=K(pc)), gas=mk("sym", "gas_before"), stack=mk("sym", "stack_before"),
               return_data=rec("ReturnDataImpl", **{"0": mk("sym", "returned_before")}), memory=mk("sym", "memory"), input=rec("InputsImpl", input=mk("sym", "calldata"), target_address=mk("sym", "target")),
               runtime_flag=rec("RuntimeFlags", is_static=K(static), spec_id=mk("sym", "spec")), extend=UNIT)


def at(e, st, a):
    """Location behind a (reference to a reference to ...) location."""
    while a.op == "ref":
        v = e.read(st, a.a[0], a.a[1])
        if v.op == "ref":
            a = v
            continue
        return a
    return None


def sub(e, st, a, f):
    l = at(e, st, a)
    return e.read(st, l.a[0], l.a[1] + (("f", f),)) if l is not None else None


def is_loc(t, root, *path):
    return t is not None and t.op == "ref" and t.a[0] == root and tuple(p[1] for p in t.a[1]) == path


def scripted(prog, script, seen):
    """The library around the hand-over, with the compiled function doing what the script says."""
    def pc(e, st, fr, a, site):
        return sub(e, st, a[0], "pc")

    def jump(e, st, fr, a, site):
        l = at(e, st, a[0])
        e.write(st, l.a[0], l.a[1] + (("f", "pc"),), a[1])
        return UNIT

    def of(name):
        def f(e, st, fr, a, site):
            x = e.snap(st, e.peel(st, a[0]))
            return mk("sym2", name, x)
        return f

    def flag(name):
        return lambda e, st, fr, a, site: sub(e, st, a[0], name)

    def buffer(e, st, fr, a, site):
        l = at(e, st, a[0])
        if l is None:
            return None
        return mk("ref", l.a[0], l.a[1] + (("f", "0"),), "shr")

    def stack(e, st, fr, a, site):
        if not is_loc(a[0], INT, "stack"):
            return None
        return mk("tuple", ref(STACK), ref(LEN))

    def same(e, st, fr, a, site):
        return a[0]

    def view(e, st, fr, a, site):
        return mk("sym2", "view", e.snap(st, e.peel(st, a[0])))

    def ptr(e, st, fr, a, site):
        return mk("sym2", "base", e.snap(st, e.peel(st, a[0])))

    def length(e, st, fr, a, site):
        v = e.snap(st, e.peel(st, a[0]))
        if v == mk("sym", "nothing"):
            return K(0)
        if v == mk("sym", "something"):
            return K(3)
        return mk("sym2", "len", v)

    def empty(e, st, fr, a, site):
        v = e.snap(st, e.peel(st, a[0]))
        if v in (mk("sym", "nothing"), mk("sym", "something")):
            return K(int(v == mk("sym", "nothing")))
        return None

    def spend_all(e, st, fr, a, site):
        l = at(e, st, a[0])
        e.write(st, l.a[0], l.a[1], mk("sym2", "spent", e.read(st, l.a[0], l.a[1])))
        return UNIT

    def set_remaining(e, st, fr, a, site):
        l = at(e, st, a[0])
        if a[1] != K(0):
            return None
        e.write(st, l.a[0], l.a[1], mk("sym2", "spent", e.read(st, l.a[0], l.a[1])))
        return UNIT

    def clear(e, st, fr, a, site):
        l = at(e, st, a[0])
        e.write(st, l.a[0], l.a[1], mk("bytes0"))
        return UNIT

    def set_buffer(e, st, fr, a, site):
        l = at(e, st, a[0])
        if l is None:
            return None
        e.write(st, l.a[0], l.a[1] + (("f", "0"),), e.snap(st, a[1]) if len(a) > 1 else mk("bytes0"))
        return UNIT

    def result(e, st, fr, a, site):
        return rec("InterpreterResult", result=e.snap(st, a[0]), output=e.snap(st, a[1]) if len(a) > 2 else mk("bytes0"), gas=e.snap(st, a[-1]))

    def returns(e, st, fr, a, site):
        return prog.enum(prog.enum_path("InterpreterAction"), "Return", (result(e, st, fr, a, site),))

    def entry(e, st, fr, a, site):
        l = a[0]
        while l.op in ("adt", "box", "rv", "tuple") and l.op != "ref":
            l = l.a[4] if l.op == "adt" else l.a[0]
        if l.op != "ref":
            return None
        get = lambda f: e.read(st, l.a[0], l.a[1] + (("f", f),))
        put = lambda f, v: e.write(st, l.a[0], l.a[1] + (("f", f),), v)
        names = prog.adts[[p for p in prog.adts if p.split("::")[-1] == "EvmContext"][0]]["variants"][0]["fields"]
        d = {}
        for x in names:
            n = x[0] if isinstance(x, (list, tuple)) else x["name"]
            d[n] = get(n)
        d["action"] = e.read(st, INT, (("f", "bytecode"), ("f", "action")))
        d["retval"] = e.snap(st, e.peel(st, d["return_data"]))
        d["#args"] = [x for x in a]
        seen.append(d)
        put("gas", mk("sym", "gas_after"))
        put("resume_at", resume(d["resume_at"], K(script["resume"])))
        if script["action"]:
            na = d["next_action"]
            e.write(st, na.a[0], na.a[1], m.some(mk("sym", "action_set")))
        put("return_data", mk("rv", mk("sym", script["ret"])))
        return script["result"]

    def resume(old, v):
        return mk("adt", *old.a[:4], v) if old.op == "adt" else v

    return {"Jumps::pc": pc, "ExtBytecode::pc": pc, "Jumps::absolute_jump": jump, "ExtBytecode::absolute_jump": jump, "LegacyBytecode::bytecode_slice": of("code"), "ExtBytecode::bytecode_slice": of("code"),
            "CallInput::len": length, "Host::gas_params": of("gas_params"), "ReturnData::buffer": buffer, "ReturnDataImpl::buffer": buffer, "RuntimeFlag::is_static": flag("is_static"), "RuntimeFlags::is_static": flag("is_static"),
            "RuntimeFlag::spec_id": flag("spec_id"), "RuntimeFlags::spec_id": flag("spec_id"), "EvmStack::from_interpreter_stack": stack, "SharedMemory::context_memory_mut": view, "slice::as_mut_ptr": ptr, "[T]::as_mut_ptr": ptr,
            "slice::len": length, "[T]::len": length, "slice::is_empty": empty, "[T]::is_empty": empty, "Gas::spend_all": spend_all, "Gas::set_remaining": set_remaining, "Bytes::clear": clear, "ReturnData::clear": set_buffer, "ReturnData::set_buffer": set_buffer, "InterpreterResult::new": result, "InterpreterAction::new_return": returns, "InterpreterAction::new_halt": returns,
            "NonNull::from": same, "From::from": same, "Into::into": same, "NonNull::new_unchecked": same, "x86_64::revmc_entry": entry, "arch::revmc_entry": entry, "revmc_entry": entry, "Bytes::new": lambda *a: mk("bytes0"),
            "Deref::deref": same, "DerefMut::deref_mut": same, "Clone::clone": lambda e, st, fr, a, site: e.snap(st, e.peel(st, a[0]))}


RESULTS = ("Stop", "Return", "Revert", "SelfDestruct", "CallTooDeep", "OutOfFunds", "CreateInitCodeStartingEF00", "OutOfGas", "MemoryOOG", "PrecompileOOG", "InvalidOperandOOG", "ReentrancySentryOOG", "OpcodeNotFound",
           "StateChangeDuringStaticCall", "InvalidJump", "StackUnderflow", "StackOverflow", "FatalExternalError")


def handover(prog, rep, item):
    fn, res, action, stale, static, retd, pc, resume = item
    key = f"{fn.split('_')[-1]} result={res} action={action} stale-action={stale} static={static} return-data={retd} pc={pc} resume={resume}"
    rp = prog.enum_path("InstructionResult")
    script = dict(result=prog.enum(rp, res, ()), action=action, ret=retd, resume=resume)
    seen = []
    h = {INT: interpreter(m.some(mk("sym", "action_old")) if stale else NONE, static, pc)}
    args = {1: mk("adt", "EvmCompilerFn", 0, "EvmCompilerFn", ("0",), mk("sym", "fn")), 2: ref(INT), 3: ref(HOST)}
    calls = scripted(prog, script, seen)
    with_ = fn.endswith("_with")
    if with_:
        args[4] = mk("sym", "configure")

        def configure(e, st, fr, a, site):
            x = a[1]
            while x.op == "tuple":
                x = x.a[0]
            e.write(st, x.a[0], x.a[1] + (("f", "on_log"),), m.some(mk("sym", "listener")))
            return UNIT
        calls["FnOnce::call_once"] = configure
        calls["FnMut::call_mut"] = configure
    ret, evs, h2, b = run(prog, "EvmCompilerFn::" + fn, h, args, calls)
    where = b.span
    c = lambda ok, what, msg: rep.check(ok, what, key, f"{key}: {msg}", where)
    c(len(seen) == 1, "the compiled function runs exactly once", f"runs {len(seen)} times")
    if len(seen) != 1:
        return
    d = seen[0]
    c(d["gas"] == mk("sym", "gas_before"), "gas goes in", f"gas is {show(d['gas'])}")
    r = d["resume_at"]
    c((r.a[4] if r.op == "adt" else r) == K(pc), "execution resumes at the frame's position", f"resume point is {show(r)}, the frame is at {pc}")
    c(d["is_static"] == K(static), "the static flag goes in", f"is_static is {show(d['is_static'])}")
    c(d["spec_id"] == mk("sym", "spec"), "the fork goes in", f"spec_id is {show(d['spec_id'])}")
    c(is_loc(d["next_action"], INT, "bytecode", "action"), "the pending action is the frame's", f"next_action is {show(d['next_action'])}")
    c(d["action"] == NONE, "no action is pending on entry", f"pending: {show(d['action'])}")
    c(is_loc(d["memory"], INT, "memory"), "the memory is the frame's", f"memory is {show(d['memory'])}")
    c(is_loc(d["input"], INT, "input"), "the input is the frame's", f"input is {show(d['input'])}")
    c(d["host"] == ref(HOST) or is_loc(d["host"], HOST), "the host is the caller's", f"host is {show(d['host'])}")
    c(d["retval"] == mk("sym", "returned_before"), "the return data is the frame's", f"return data is {show(d['retval'])}")
    c(any(x.op == "sym2" and x.a[0] == "code" for x in m.subterms(d["bytecode"])), "the code is the frame's", f"bytecode is {show(d['bytecode'])}")
    c(d["calldatasize"] == mk("sym2", "len", mk("sym", "calldata")), "the calldata size is the input's", f"calldatasize is {show(d['calldatasize'])}")
    c(any(x.op == "sym2" and x.a[0] == "gas_params" for x in m.subterms(d["gas_params"])), "the gas parameters are the host's", f"gas_params is {show(d['gas_params'])}")
    mv = mk("sym2", "view", mk("sym", "memory"))
    c(mv in set(m.subterms(d["mem_base"])) and d["mem_len"] == mk("sym2", "len", mv), "the cached memory view is current", f"mem_base {show(d['mem_base'])}, mem_len {show(d['mem_len'])}")
    want = m.some(mk("sym", "listener")) if with_ else NONE
    c(d["on_log"] == want, "the log listener is the caller's", f"on_log is {show(d['on_log'])}")
    a = d["#args"]
    c(len(a) >= 4 and is_loc(a[1], STACK) and is_loc(a[2], LEN), "the stack is the frame's", f"arguments {[show(x)[:60] for x in a]}")
    c(any(x == mk("sym", "fn") for x in m.subterms(a[3])) if len(a) > 3 else False, "the function called is this one", f"arguments {[show(x)[:60] for x in a]}")
    # exit
    i = h2[INT]
    gas = mk("sym", "gas_after")
    if res == "OutOfGas":
        gas = mk("sym2", "spent", gas)
    c(field(i, "gas") == gas, "gas comes back", f"the frame's gas is {show(field(i, 'gas'))}, expected {show(gas)}")
    by = field(i, "bytecode")
    c(field(by, "pc") == K(resume), "the resume point comes back", f"the frame is at {show(field(by, 'pc'))}, expected {resume}")
    c(field(by, "action") == NONE, "the action is taken", f"left pending: {show(field(by, 'action'))}")
    rd = field(field(i, "return_data"), "0")
    wr = mk("bytes0") if retd == "nothing" else mk("sym", "returned_before")
    c(rd == wr, "return data is dropped exactly when the code dropped it", f"the frame's return data is {show(rd)}, expected {show(wr)}")
    for f in ("stack", "memory"):
        c(field(i, f) == mk("sym", {"stack": "stack_before", "memory": "memory"}[f]), f"the {f} is left alone", f"{show(field(i, f))}")
    if action:
        c(ret == mk("sym", "action_set"), "the requested action is returned", f"returned {show(ret)[:150]}")
    else:
        ok = ret.op == "adt" and ret.a[2] == "Return"
        c(ok, "without a request the frame returns", f"returned {show(ret)[:150]}")
        if ok:
            x = ret.a[4]
            c(field(x, "result") == script["result"], "the result code is the function's", f"{show(field(x, 'result'))}")
            c(field(x, "gas") == gas, "the result carries the remaining gas", f"{show(field(x, 'gas'))}, expected {show(gas)}")
            c(field(x, "output") == mk("bytes0"), "the result has no output", f"{show(field(x, 'output'))[:100]}")


BYTES = [mk("sym2", "byte", i) for i in range(32)]


def words(prog, rep):
    """Byte order of the word conversions; slots of the stack helpers."""
    def w(bs):
        return mk("adt", "EvmWord", 0, "EvmWord", ("0",), mk("adt", "FixedBytes", 0, "FixedBytes", ("0",), mk("array", *bs)))

    def bytes_of(t):
        while t.op in ("adt", "box", "rv", "tuple", "cast") and not (t.op == "adt" and len(t.a) != 5):
            t = t.a[4] if t.op == "adt" else t.a[0]
        return list(t.a) if t.op == "array" else None

    def reverse(e, st, fr, a, site):
        l = at(e, st, a[0])
        v = e.read(st, l.a[0], l.a[1]) if l is not None else None
        if v is None or v.op != "array":
            return None
        e.write(st, l.a[0], l.a[1], mk("array", *reversed(v.a)))
        return UNIT
    calls = {"slice::reverse": reverse, "[T]::reverse": reverse, "Address::from_word": lambda e, st, fr, a, site: mk("sym2", "low20", e.snap(st, a[0])),
             "bytes::from_be_slice": lambda e, st, fr, a, site: mk("sym2", "u256be", e.snap(st, e.peel(st, a[0]))), "Uint::from_be_slice": lambda e, st, fr, a, site: mk("sym2", "u256be", e.snap(st, e.peel(st, a[0]))),
             "bytes::from_le_slice": lambda e, st, fr, a, site: mk("sym2", "u256le", e.snap(st, e.peel(st, a[0]))), "Uint::from_le_slice": lambda e, st, fr, a, site: mk("sym2", "u256le", e.snap(st, e.peel(st, a[0])))}
    b32 = mk("adt", "FixedBytes", 0, "FixedBytes", ("0",), mk("array", *BYTES))
    rv = BYTES[::-1]
    cases = [("from_be_bytes", b32, rv), ("from_le_bytes", b32, BYTES), ("from_ne_bytes", b32, BYTES), ("from_be", w(BYTES), rv), ("from_le", w(BYTES), BYTES), ("to_be_bytes", w(BYTES), rv), ("to_le_bytes", w(BYTES), BYTES),
             ("to_ne_bytes", w(BYTES), BYTES), ("to_be", w(BYTES), rv), ("to_le", w(BYTES), BYTES), ("swap_bytes", w(BYTES), rv)]
    for n, arg, want in cases:
        ret, _, _, b = run(prog, "EvmWord::" + n, {}, {1: arg}, calls)
        got = bytes_of(ret)
        rep.check(got == want, "byte order of word conversions", n, f"{n}: bytes {show(ret)[:150]}", b.span)
    ret, _, _, b = run(prog, "EvmWord::to_address", {}, {1: w(BYTES)}, calls)
    ok = ret.op == "sym2" and ret.a[0] == "low20" and bytes_of(ret.a[1]) == rv
    rep.check(ok, "an address is the low 20 bytes of the big-endian word", "to_address", f"{show(ret)[:150]}", b.span)
    for n, o in (("from_be_slice", "u256be"), ("from_le_slice", "u256le")):
        ret, _, _, b = run(prog, "EvmWord::" + n, {}, {1: mk("rv", mk("sym", "bytes"))}, calls)
        rep.check(any(x == mk("sym2", o, mk("sym", "bytes")) for x in m.subterms(ret)), "byte order of slice conversions", n, f"{n}: {show(ret)[:150]}", b.span)


def slots(prog, rep):
    calls = {}

    def unchecked(e, st, fr, a, site):
        st.flags = st.flags + (("slot", e.snap(st, a[1])),)
        return ref(mk("D", mk("sym2", "slot", e.snap(st, a[1]))))

    def checked(e, st, fr, a, site):
        i = e.snap(st, a[1])
        st.flags = st.flags + (("slot", i),)
        return m.some(ref(mk("D", mk("sym2", "slot", i)))) if is_k(i) and i.a[0] < 1024 else NONE
    for k in ("slice::get_unchecked", "slice::get_unchecked_mut", "[T]::get_unchecked", "[T]::get_unchecked_mut"):
        calls[k] = unchecked
    for k in ("slice::get", "slice::get_mut", "[T]::get", "[T]::get_mut"):
        calls[k] = checked
    same = lambda e, st, fr, a, site: a[0]
    for k in ("MaybeUninit::assume_init_ref", "MaybeUninit::assume_init_mut", "MaybeUninit::new"):
        calls[k] = same
    st = mk("rv", mk("adt", "EvmStack", 0, "EvmStack", ("0",), mk("sym", "words")))
    for n in (1, 2, 17, 1024):
        for fn, args, want in [("top_unchecked", {2: K(n)}, n - 1), ("top_unchecked_mut", {2: K(n)}, n - 1), ("get_unchecked", {2: K(n)}, n), ("get", {2: K(n)}, n), ("get_mut", {2: K(n)}, n)] + [
                (f, {2: K(n), 3: K(j)}, n - 1 - j) for f in ("from_top_unchecked", "from_top_unchecked_mut") for j in range(min(n, 4))]:
            ret, evs, _, b = run(prog, "EvmStack::" + fn, {}, {1: st, **args}, calls)
            got = [x[1] for x in evs if x[0] == "slot"]
            rep.check(got == [K(want)], "stack helpers reach the right slot", f"{fn} {n} {args}", f"{fn}: slot {[show(x) for x in got]}, expected {want}", b.span)
            if fn in ("get", "get_mut"):
                rep.check((ret.a[2] == "Some") == (n < 1024), "a slot beyond the stack does not exist", f"{fn} {n}", f"{show(ret)[:100]}", b.span)
    L = mk("D", mk("sym", "len"))
    for n in (0, 1, 1023):
        ret, evs, h2, b = run(prog, "EvmStack::push", {L: K(n)}, {1: st, 2: mk("sym", "value"), 3: ref(L)}, calls)
        got = [x[1] for x in evs if x[0] == "slot"]
        rep.check(got == [K(n)] and h2[L] == K(n + 1), "push stores on top and grows by one", f"{n}", f"slot {[show(x) for x in got]}, length {show(h2[L])}", b.span)


def entry(prog, rep):
    items = []
    for fn in ("call_with_interpreter", "call_with_interpreter_with"):
        for res in RESULTS:
            for action, stale in itertools.product((0, 1), repeat=2):
                items.append((fn, res, action, stale, (RESULTS.index(res) + action) % 2, ("nothing", "something")[(RESULTS.index(res) // 2 + stale) % 2], (0, 5)[stale], (0, 77)[action]))
        for res, static, retd, pc, resume in itertools.product(("Stop", "OutOfGas", "Revert"), (0, 1), ("nothing", "something"), (0, 9), (0, 1)):
            items.append((fn, res, 0, 0, static, retd, pc, resume))
    for it in items:
        try:
            handover(prog, rep, it)
        except Bad as u:
            rep.violation("hand-over:undecided", str(u), prog.fn("EvmCompilerFn::" + it[0]).span)
            break
    for f in (words, slots):
        try:
            f(prog, rep)
        except Bad as u:
            rep.violation(f"{f.__name__}:undecided", str(u), prog.fn("EvmWord::to_be_bytes").span)
    rep.count("hand-over cases", len(items))
    rep.floor("hand-over cases", len(items), 180)
