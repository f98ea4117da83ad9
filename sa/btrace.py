"""Effect traces of the runtime library's entry points (`__revmc_builtin_*`), from the dataflow engine."""
import mirlib as m
from terms import FALSE, K, T, TOP, TRUE, UNIT, contains, is_k, leaves, mk, show, subterms

PREFIX = "__revmc_builtin_"


class Path:
    def __init__(self, events, facts, exit_, where):
        self.events = events
        self.facts = facts
        self.exit = exit_   # ('ok',) or ('err', term) or ('panic',)
        self.where = where


MEM_TYPES = ("SharedMemory", "MemoryTr", "MemoryExtTr")


class TraceHooks(m.Hooks):
    def __init__(self):
        self.paths = []
        self.calls = set()
        self.pushes = False

    def inline(self, eng, fr, body, args):
        # keep word conversions symbolic
        if body.short.startswith("EvmWord::") or (body.d.get("self_ty") or "").endswith("EvmWord") or "EvmWord" in body.short:
            return False
        return True

    def emit(self, eng, st, ev):
        st.flags = st.flags + (ev,)

    def fork(self, eng, st, fr, ev_ok, ev_fail, v_ok, v_fail):
        a, b = st.copy(), st.copy()
        self.emit(eng, a, ev_ok)
        self.emit(eng, b, ev_fail)
        return [(a, v_ok), (b, v_fail)]

    def on_call(self, eng, st, fr, short, fn, args, site):
        if fn is None:
            return None
        self.calls.add(short)
        sn = [eng.snap(st, a) for a in args]
        span = eng.cur_span
        if short.startswith("EvmWord::") or ("EvmWord" in (fn.get("rname") or fn["name"]) and len(args) == 1):
            v = eng.peel(st, args[0])
            nm = short.split("::")[1]
            if nm in ("to_u256", "into_u256", "from", "into", "clone", "as_u256", "from_u256"):
                return v
            if nm in ("to_address",):
                return mk("addr", v)
            if nm.startswith("from_") or nm.startswith("to_"):
                if v.op == "k" and v.a[0] == 0:
                    return v
                return mk("w:" + nm, v)
        if short in ("Gas::record_regular_cost", "Gas::record_state_cost", "Gas::record_cost"):
            k = "state" if "state" in short else "regular"
            loc = show(args[0])
            eng.havoc(st, short, site, args[:1], ["&mut"])
            return self.fork(eng, st, fr, ("charge", k, sn[1], loc, span), ("charge_fail", k, sn[1], loc, span), TRUE, FALSE)
        if short.startswith("Gas::") and short.split("::")[1] in ("record_refund", "refill_reservoir", "spend_all", "erase_cost", "set_refund", "set_spent", "record_cost_unsafe"):
            self.emit(eng, st, ("gas", short, sn[1] if len(sn) > 1 else UNIT, span))
            return UNIT
        if short.endswith("::resize_memory"):
            eng.havoc(st, short, site, args[:2], ["&mut", "&mut"])
            e = mk("call", short, site, *sn)
            return self.fork(eng, st, fr, ("expand", sn[3], sn[4], tuple(show(x) for x in sn[:3]), span), ("expand_fail", span), m.ok(UNIT),
                             m.err(m_proj(eng, e)))
        if short.startswith("Host::"):
            self.emit(eng, st, ("host", short.split("::")[1], tuple(sn), static_known(st), span))
            return None
        if short.split("::")[0] in MEM_TYPES:
            self.emit(eng, st, ("mem", short.split("::")[1], tuple(sn), span))
            if short.split("::")[1] in ("len", "is_empty", "local_memory_offset", "slice", "slice_len", "get_word", "get_byte", "get_u256", "global_slice", "global_slice_range", "context_memory_mut", "context_memory", "set", "set_data", "set_data_from_global", "copy", "set_byte", "set_word", "set_u256"):
                # these do not move what the rules track except contents
                return mk("call", short, "", *sn)
            return None
        if short in ("Vec::push", "SmallVec::push", "ArrayVec::push") and self.pushes:
            ev = ("push", sn[1], span)
            if not any(x[0] == "push" and x[1] is sn[1] for x in st.flags):
                self.emit(eng, st, ev)
            return None
        if short.split("::")[-1] in ("call_mut", "call_once", "call") and ("dyn " in self_ty(fn) or fn.get("virtual")):
            self.emit(eng, st, ("dyncall", tuple(sn), span))
            return UNIT
        if "revmc_exit" in fn["name"]:
            root, proj = eng.deref(args[0])
            v = eng.read(st, root, proj + (("f", "exit_result"),))
            self.finish(eng, st, fr, ("err", v), span)
            return "stop"
        if short.endswith("load_account_delegated"):
            self.emit(eng, st, ("host", "load_account_delegated", tuple(sn), static_known(st), span))
            return None
        return None

    def on_store(self, eng, st, fr, root, proj, val, span):
        if root.op == "D":
            p = tuple(x[1] for x in proj if x[0] == "f")
            if root.a[0].op in ("arg", "padd"):
                self.emit(eng, st, ("store", root.a[0], p, eng.snap(st, val), static_known(st), span))
            else:
                self.emit(eng, st, ("store", root.a[0], p, eng.snap(st, val), static_known(st), span))

    def on_return(self, eng, st, fr, val):
        self.finish(eng, st, fr, ("ok", val), "")

    def finish(self, eng, st, fr, ex, span):
        self.paths.append(Path(st.flags, dict(st.facts), ex, fr.body.name))


def m_proj(eng, e):
    return eng.project(eng.project(e, ("v", "Err")), ("f", "0"))


def self_ty(fn):
    return str(fn.get("rname") or "") + str(fn.get("self_ty") or "") + str(fn.get("name")) + str(fn.get("targs") or "") + str(fn.get("args") or "")


def static_known(st):
    for t, v in st.facts.items():
        if t.op == "fld" and t.a[1] == "is_static":
            return v if isinstance(v, int) else None
    return None


def trace(prog, body, consts=None, facts=None):
    h = TraceHooks()
    h.pushes = body.name.endswith(PREFIX + "log")
    e = m.Engine(prog, h, max_part=4000, max_steps=60000)
    e.run(body, args=consts or {}, flags=(), facts=facts)
    return h.paths, e, h


def builtins(prog):
    r = {}
    for b in prog.bodies.values():
        n = b.name.split("::")[-1]
        if n.startswith(PREFIX) and b.crate == "revmc_builtins" and b.kind == "Fn":
            r[n[len(PREFIX):]] = b
    return r


if __name__ == "__main__":
    import sys
    import time
    import facts
    p = m.load(facts.ensure("builtins"))
    bs = builtins(p)
    for n in sys.argv[1:] or sorted(bs):
        t = time.time()
        paths, e, h = trace(p, bs[n])
        print(f"=== {n}: {len(paths)} paths, {e.steps} steps, {time.time()-t:.2f}s over={e.over}")
        if len(sys.argv) > 1:
            for x in paths:
                print("  --", x.exit[0], show(x.exit[1]), )
                for ev in x.events:
                    print("      ", ev[0], *[show(y) if y.__class__ is T else ([show(z) for z in y] if isinstance(y, tuple) and y and y[0].__class__ is T else y) for y in ev[1:]])
                print("      F", [f"{show(k)}={v}" for k, v in x.facts.items()])
