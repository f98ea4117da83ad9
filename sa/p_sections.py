"""Gas and stack sections: the per-instruction transfer function of the section analysis and the instruction predicates it (and every other pass) relies on."""
import cg
import par
import evm
import mirlib as m
import shapes
import teval
from terms import FALSE, K, TRUE, UNIT, is_k, mk, show, subterms

SUSPEND = {"CALL", "CALLCODE", "DELEGATECALL", "STATICCALL", "CREATE", "CREATE2"}
STOPS = {"STOP", "RETURN", "REVERT", "INVALID", "SELFDESTRUCT"}


def name(c):
    return evm.OPS[c].name if c in evm.OPS else f"0x{c:02x}"


def is_diverging(c, fl, F):
    n = name(c)
    return (n == "JUMP" and bool(fl & F["INVALID_JUMP"])) or bool(fl & (F["DISABLED"] | F["UNKNOWN"])) or n in STOPS


PRED = {
    "InstData::is_jump": lambda c, fl, F: name(c) in ("JUMP", "JUMPI"),
    "InstData::is_static_jump": lambda c, fl, F: name(c) in ("JUMP", "JUMPI") and bool(fl & F["STATIC_JUMP"]),
    "InstData::has_const_jumpi_condition": lambda c, fl, F: name(c) == "JUMPI" and bool(fl & F["CONST_JUMP_CONDITION"]),
    "InstData::is_jumpdest": lambda c, fl, F: name(c) == "JUMPDEST",
    "InstData::is_stack_section_head": lambda c, fl, F: bool(fl & F["STACK_SECTION_HEAD"]),
    "InstData::is_dead_code": lambda c, fl, F: bool(fl & F["DEAD_CODE"]),
    "InstData::is_diverging": is_diverging,
    "InstData::is_branching": lambda c, fl, F: name(c) in ("JUMP", "JUMPI") or is_diverging(c, fl, F),
    "InstData::can_fall_through": lambda c, fl, F: not is_diverging(c, fl, F) and name(c) != "JUMP" and not (name(c) == "JUMPI" and fl & F["CONST_JUMP_CONDITION"]),
    "InstData::may_suspend": lambda c, fl, F: name(c) in SUSPEND,
}
FLAGS = ("STATIC_JUMP", "INVALID_JUMP", "MULTI_JUMP", "CONST_JUMP_CONDITION", "DISABLED", "UNKNOWN", "NOOP", "STACK_SECTION_HEAD", "DEAD_CODE")


def flagset(prog):
    return {n: cg.flag_bits(prog, n) for n in FLAGS}


def predicates(prog, rep, only=None):
    F = flagset(prog)
    bits = list(F.values())
    rep.check(len(set(bits)) == len(bits) and all(b and b & (b - 1) == 0 for b in bits), "distinct instruction flags", "flags",
              f"instruction flags are not distinct bits: {F}", "crates/revmc-codegen/src/bytecode/mod.rs")
    combos = [0] + bits + [F["STATIC_JUMP"] | F["INVALID_JUMP"], F["STATIC_JUMP"] | F["CONST_JUMP_CONDITION"], F["STATIC_JUMP"] | F["MULTI_JUMP"],
                           F["STATIC_JUMP"] | F["INVALID_JUMP"] | F["CONST_JUMP_CONDITION"], F["NOOP"] | F["DEAD_CODE"], F["INVALID_JUMP"] | F["DEAD_CODE"]]
    def one(rep, fn):
        want = PRED[fn]
        b = prog.fn(fn)
        for c in range(256):
            for fl in combos if name(c) in ("JUMP", "JUMPI", "JUMPDEST", "STOP", "ADD", "CALL", "PUSH1") else combos[:10]:
                res, e, h = cg.run(prog, b, {1: cg.ref(cg.inst(prog, c, fl))})
                v = cg.kbool(res)
                w = bool(want(c, fl, F))
                rep.check(v == w, "instruction predicate", f"{fn}:{name(c)}:{fl:#x}", f"{fn} is {v} for {name(c)} with flags {fl:#x}, expected {w}", b.span)
    par.pmap(rep, one, [fn for fn in PRED if not only or fn in only])
    # reachable jump destinations
    b = prog.fn("InstData::is_reachable_jumpdest")
    for c in (0x5B, 0x00, 0x56, 0x01):
        for dyn in (0, 1):
            for data in (0x1234, 0x80001234):
                res, e, h = cg.run(prog, b, {1: cg.ref(cg.inst(prog, c, 0, data=K(data))), 2: K(dyn)})
                v = cg.kbool(res)
                w = c == 0x5B and bool(dyn or data >> 31)
                rep.check(v == w, "reachable destination predicate", f"{name(c)}:{dyn}:{data:#x}",
                          f"is_reachable_jumpdest is {v} for {name(c)}, dynamic={dyn}, mark={data >> 31}; expected {w}", b.span)
    for fn, want in (("InstData::set_jumpdest_reachable", 0x80001234), ("InstData::clear_jumpdest_reachable", 0x1234)):
        b = prog.fn(fn)
        for data in (0x1234, 0x80001234):
            v = final_field(prog, b, cg.inst(prog, 0x5B, 0, data=K(data)), "data")
            rep.check(v == {K(want)}, "destination mark", f"{fn}:{data:#x}", f"{fn} turns {data:#x} into {[show(x) for x in v]}", b.span)
    b = prog.fn("InstData::jumpdest_pc")
    for data in (0x1234, 0x80001234):
        v = cg.only(cg.run(prog, b, {1: cg.ref(cg.inst(prog, 0x5B, 0, data=K(data)))})[0])
        rep.check(v == K(0x1234), "destination position", f"jumpdest_pc:{data:#x}", f"jumpdest_pc is {v and show(v)}", b.span)
    # gas-observing instructions
    b = prog.fn("InstData::requires_gasleft")
    for c in range(256):
        for on in (0, 1):
            seen = []

            def en(e, st, fr, a, site):
                seen.append(e.snap(st, a[1]))
                return K(on)
            res, e, h = cg.run(prog, b, {1: cg.ref(cg.inst(prog, c, 0))}, calls={"SpecId::is_enabled_in": en})
            v = cg.kbool(res)
            w = name(c) == "GAS" or (name(c) == "SSTORE" and on == 1)
            okv = v == w or (name(c) == "SSTORE" and v is True)
            rep.check(okv, "gas-observing instruction", f"requires_gasleft:{name(c)}:{on}", f"requires_gasleft is {v} for {name(c)} (Istanbul={on}), expected {w}", b.span)
            for s in seen:
                rep.check("ISTANBUL" in show(s) or (s.op == "k"), "gas-observing fork", f"requires_gasleft:{name(c)}:fork", f"fork consulted is {show(s)}", b.span)


def final_field(prog, body, instv, field):
    """Values of a field of *self at return."""
    D = mk("D", mk("sym", "self"))
    out = set()

    class H(cg.Collect):
        def on_return(self, eng, st, fr, val):
            out.add(eng.read(st, D, (("f", field),)))
    e = m.Engine(prog, H())
    e.run(body, args={1: mk("ref", D, (), "mut")}, flags=(), env={D: instv})
    return out


class Ev(cg.Collect):
    """Collects stores outside the frame's locals as events."""

    def __init__(self, calls=None, noinline=(), final=(), models=None):
        super().__init__(calls, noinline, models)
        self.final = final

    def on_store(self, eng, st, fr, root, proj, val, span):
        if root.op == "D":
            st.flags = st.flags + (("store", root.a[0], tuple(p for p in proj if p[0] == "f"), eng.snap(st, val)),)

    def on_return(self, eng, st, fr, val):
        self.res.append((dict(st.facts), eng.snap(st, val), st.flags, {k: eng.snap(st, eng.read(st, r, p)) for k, (r, p) in self.final}))


def idx_models(prog):
    """Index newtypes are integers."""
    ident = lambda e, st, fr, a, site: shapes.norm_idx(e, st, a[0])
    c = {}
    for t in ("Inst", "Block", "BlockId", "U256Idx", "StackIdx"):
        c[f"{t}::from_usize"] = ident
        c[f"{t}::index"] = ident
    c["Idx::index"] = ident
    c["Idx::from_usize"] = ident
    c["Inst::new"] = ident
    return c


A1, A2 = mk("arg", 1), mk("arg", 2)
I = mk("sym", "i")


def fld(t, *names):
    t = mk("deref", t)
    for n in names:
        t = mk("fld", t, n)
    return t


GRID = [  # inputs, diff, growth, gas
    (0, 0, 0, 0), (3, -2, 0, 40), (3, 2, 5, 41), (16, -16, 1, 7), (1, 1, 1, 0), (70, 9, 9, 1 << 33),
]
IO = [(0, 0), (0, 1), (1, 0), (2, 1), (7, 1), (17, 17), (16, 17), (4, 0), (3, 1), (235, 236)]


def sections(prog, rep):
    F = flagset(prog)
    predicates(prog, rep)
    b = prog.fn("SectionsAnalysis::process")
    where = b.span
    items = []
    for c in range(256):
        for cls in (("on", 0), ("disabled", F["DISABLED"]), ("unknown", F["UNKNOWN"])):
            if (cls[0] == "unknown") != (c not in evm.OPS):
                continue
            variants = [("", cls[1], 0)]
            if name(c) == "JUMPDEST":
                variants = [(":unmarked", cls[1], 5), (":marked", cls[1], 5 | 1 << 31)]
            if name(c) in ("JUMP", "JUMPI") and cls[0] == "on":
                variants = [(":dyn", 0, 0), (":static", F["STATIC_JUMP"], 9), (":invalid", F["STATIC_JUMP"] | F["INVALID_JUMP"], 0), (":const", F["STATIC_JUMP"] | F["CONST_JUMP_CONDITION"], 9)]
            items += [(f"{name(c)}:{cls[0]}{vn}", c, fl, data) for vn, fl, data in variants]

    def one(rep, it):
        rep.count("section transfer paths", step(prog, rep, *it, F, b, where))
    par.pmap(rep, one, items)
    rep.floor("section transfer paths", rep.counts.get("section transfer paths", 0), 400)
    driver(prog, rep)
    rep.sample("transfer of one instruction for 256 opcodes x {enabled, disabled} x jump/destination classes, each path compared on the (state, stack effect) grid")


def search_models(prog):
    """Searching a suffix of the instruction vector: the element found is elt(insts, search(start)); the predicate is judged separately."""
    F = flagset(prog)
    c = {}

    def to_iter(e, st, fr, a, site):
        v = e.peel(st, a[0])
        if v.op == "slice":
            return v
        n = shapes.cname(e, st, a[0])
        return mk("slice", n, K(0), mk("end")) if n == "insts" else None
    for k in ("slice::iter_mut", "slice::iter", "IndexSlice::iter_mut", "IndexSlice::iter", "IntoIterator::into_iter", "IndexVec::iter_mut", "IndexVec::iter"):
        c[k] = to_iter

    def skip(e, st, fr, a, site):
        v = e.peel(st, a[0])
        return mk("slice", v.a[0], e.snap(st, a[1]), v.a[2]) if v.op == "slice" and v.a[1] == K(0) else None
    c["Iterator::skip"] = skip

    def find(e, st, fr, a, site):
        v = e.peel(st, a[0])
        if v.op != "slice":
            return None
        cl = e.peel(st, a[1])
        body = e.p.bodies.get(cl.a[0]) if cl.op == "closure" else None
        good = body is not None
        if good:
            for op in (0x01, 0x5B, 0x00, 0x60):
                for bits, want in ((0, True), (F["DEAD_CODE"], False), (F["NOOP"], True), (F["DEAD_CODE"] | F["NOOP"], False), (F["STATIC_JUMP"], True)):
                    iv = cg.inst(prog, op, bits)
                    r, _, _ = cg.run(prog, body, {1: cg.ref(cl), 2: cg.ref(cg.ref(iv))})
                    good = good and cg.kbool(r) is want
        st.flags = st.flags + (("searched", v.a[1], good),)
        return m.some(shapes.elt("insts", mk("search", v.a[1])))
    c["Iterator::find"] = find

    def nxt(e, st, fr, a, site):
        v = e.peel(st, a[0])
        if v.op != "slice":
            return None
        return m.some(shapes.elt("insts", mk("search", v.a[1])))
    c["Iterator::next"] = nxt
    ln = lambda e, st, fr, a, site: K(100000) if shapes.cname(e, st, a[0]) in ("insts",) else None
    for k in ("IndexSlice::len_idx", "IndexVec::len_idx", "IndexSlice::len", "IndexVec::len", "Vec::len", "slice::len", "IndexVec::next_idx", "IndexSlice::next_idx"):
        c[k] = ln
    return c


def live_elt(t):
    """Flags of the element found by a search: a live instruction."""
    fs = []
    while t.op == "fld":
        fs.append(t.a[1])
        t = t.a[0]
    if fs and t.op == "deref" and t.a[0].op == "elt" and "flags" in fs:
        return 0
    return None


def recorded(ev, flags, facts, F):
    """Evaluated section records of a path: kind -> list of (start, live, fields)."""
    out = []
    for x in flags:
        if x[0] != "store" or x[1].op != "elt":
            continue
        E = x[1]
        f = x[2][0][1] if x[2] else ""
        if f in ("gas_section", "stack_section"):
            srch = E.a[1].op == "search"
            start = ev.ev(E.a[1].a[0] if srch else E.a[1])
            lv = [y[2] for y in flags if y[0] == "searched" and srch and y[1] == E.a[1].a[0]]
            alive = bool(lv) and all(lv)
            if not lv:
                for t, v in facts.items():
                    if any(s == E for s in subterms(t)) and any(s.op == "k" and s.a[0] == F["DEAD_CODE"] for s in subterms(t)):
                        p = polarity(t, F)
                        if p is not None and isinstance(v, int):
                            alive = bool(v) == (p is False)
            v = x[3]
            if len(x[2]) > 1:
                out.append((f[:-8], start, alive, {x[2][1][1]: ev.ev(v)}))
            elif v.op == "adt":
                out.append((f[:-8], start, alive, {n: ev.ev(y) for n, y in zip(v.a[3], v.a[4:])}))
            else:
                raise teval.Unk(f"recorded section {show(v)[:80]}")
        elif f == "flags":
            if F["STACK_SECTION_HEAD"] in ks(x[3]):
                out.append(("head", ev.ev(E.a[1].a[0] if E.a[1].op == "search" else E.a[1]), True, {}))
    return out


def step(prog, rep, key, c, fl, data, F, b, where):
    sIn, sOut, bg = mk("sym", "in"), mk("sym", "out"), mk("sym", "bg")
    elt = mk("D", mk("elt", "insts", I))
    calls = dict(shapes.index_calls("insts"), **idx_models(prog))
    calls.update(search_models(prog))
    calls["Bytecode::const_operand"] = lambda e, st, fr, a, site: mk("constop", shapes.norm_idx(e, st, a[1]), e.snap(st, a[2]))
    calls["Bytecode::const_output"] = lambda e, st, fr, a, site: mk("constout", shapes.norm_idx(e, st, a[1]))
    h = Ev(calls, final=[(k, (mk("D", A1), (("f", k.split(".")[0]), ("f", k.split(".")[1])))) for k in
                         ("gas.gas_cost", "gas.start_inst", "stack.inputs", "stack.diff", "stack.max_growth", "stack.start_inst")])
    e = m.Engine(prog, h, max_part=2000, max_steps=60000)
    e.run(b, args={3: I}, flags=(), env={elt: cg.inst(prog, c, fl, base_gas=bg, stack_io=mk("tuple", sIn, sOut), data=K(data))})
    rep.check(len(h.res) > 0, "section transfer", key, "no path through the section transfer", where)
    nm = name(c)
    st0 = {fld(A1, "stack", "inputs"): 0, fld(A1, "stack", "diff"): 1, fld(A1, "stack", "max_growth"): 2, fld(A1, "gas", "gas_cost"): 3}
    opts = [(None, None)] if nm != "EXP" else [(None, None), (0, None), (2, None), (3, None), (3, 9), (1, 1), (256, 0), (None, 5)]
    for dyn in ((0, 1) if nm == "JUMPDEST" else (0,)):
        for ist in ((0, 1) if nm == "SSTORE" else (1,)):
            for gi, g in enumerate(GRID):
                for io in (IO if gi < 2 or nm in ("JUMPDEST", "ADD") else IO[:4]):
                    for ex, outv in opts:
                        env = {t: g[i] for t, i in st0.items()}
                        env.update({sIn: io[0], sOut: io[1], bg: 5, I: 11, fld(A1, "gas", "start_inst"): 4, fld(A1, "stack", "start_inst"): 4,
                                    mk("deref", A1): None})
                        env[mk("constop", I, K(1))] = None if ex is None else teval.Some(teval.U(ex))
                        env[mk("constout", I)] = None if outv is None else teval.Some(teval.U(outv))
                        env[mk("fld", mk("deref", A2), "has_dynamic_jumps")] = dyn
                        cl = {"SpecId::is_enabled_in": lambda ev, *v: ist, "GasParams::exp_cost": lambda ev, *v: 1000 + int(ev.ev(v[-1]))}
                        try:
                            got = teval.apply(h.res, env, cl, out=lambda ev, r: ({k: ev.ev(t) for k, t in r[3].items()}, recorded(ev, r[2], r[0], F)), dyn=live_elt)
                        except teval.Unk as u:
                            rep.violation(f"transfer:{key}:undecided", f"the section transfer for {nm} could not be evaluated: {u}", where)
                            return len(h.res)
                        head = nm == "JUMPDEST" and (dyn or data >> 31)
                        bound = nm in SUSPEND or nm in ("JUMP", "JUMPI") or is_diverging(c, fl, F) or nm == "GAS" or (nm == "SSTORE" and ist)
                        inputs, diff, growth, gas = (0, 0, 0, 0) if head else g
                        sst = 11 if head else 4
                        exp_saves = want_saves(g[3], g[0], g[2], 4) if head else []
                        inputs = max(inputs, io[0] - diff)
                        diff += io[1] - io[0]
                        growth = max(growth, diff)
                        gas += 5
                        if nm == "EXP" and ex is not None and (outv is not None or ex <= 2):
                            gas += 1000 + ex
                        if bound:
                            exp_saves += want_saves(gas, inputs, growth, sst)
                            inputs = diff = growth = gas = 0
                            sst = 12
                        want = {"gas.gas_cost": gas, "gas.start_inst": sst, "stack.inputs": inputs, "stack.diff": diff, "stack.max_growth": growth, "stack.start_inst": sst}
                        keys = list(want)
                        outs = {(tuple(x[0][k] for k in keys), canon(x[1])) for x in got}
                        if not rep.check(len(outs) == 1, "transfer is a function", key, f"{len(got)} paths apply for {nm} state={g} io={io}: {sorted(outs)[:2]}", where):
                            return len(h.res)
                        gs = got[0]
                        diffk = [k for k in want if gs[0][k] != want[k]]
                        okd = not diffk
                        if not okd and nm == "SSTORE" and not ist:  # a boundary before Istanbul is conservative
                            okd = gs[0]["gas.gas_cost"] == 0 and gs[0]["gas.start_inst"] == 12
                        rep.check(okd, "section transfer", key, f"{nm} ({key}): section state {g} with stack effect {io}"
                                  + (f", exponent={ex}, result={outv}" if nm == "EXP" else "") + f" becomes {[(k, gs[0][k]) for k in diffk]}, expected {[(k, want[k]) for k in diffk]}", where)
                        if okd and not diffk:
                            a, w = canon(gs[1]), canon(exp_saves)
                            rep.check(a == w, "sections recorded at boundaries", key,
                                      f"{nm} ({key}): sections recorded (kind, first instruction, searched for a live one, values) {sorted(a - w)[:3]}, expected {sorted(w - a)[:3]}", where)
    return len(h.res)


def want_saves(gas, inputs, growth, start):
    return [("gas", start, True, {"gas_cost": min(gas, 0xFFFFFFFF)}),
            ("stack", start, True, {"inputs": min(inputs, 65535), "max_growth": min(growth, 32767)}), ("head", start, True, {})]


def canon(saves):
    """Empty gas sections need no record."""
    return frozenset((k, s, a, tuple(sorted(d.items()))) for k, s, a, d in saves if not (k == "gas" and d.get("gas_cost") == 0))


def ks(t):
    return {x.a[0] for x in subterms(t) if x.op == "k"}


def polarity(t, F):
    """Value of predicate t for a dead element minus nothing: True if t holds for a dead instruction, False if it holds only for a live one."""
    fl = [x for x in subterms(t) if x.op == "fld" and x.a[1] == "flags"]
    vals = []
    for bits in (F["DEAD_CODE"], 0):
        env = {}
        for x in subterms(t):
            if x.op == "fld" and ((x.a[1] == "flags") or any(y.op == "fld" and y.a[1] == "flags" for y in subterms(x))):
                env[x] = bits
        ev = teval.Evaluator(env)
        try:
            vals.append(int(ev.ev(t)))
        except (teval.Unk, TypeError, ValueError):
            return None
    return None if vals[0] == vals[1] else bool(vals[0])


def driver(prog, rep):
    """Every live instruction, in order, goes through the transfer; both last sections are recorded."""
    b = prog.fn("Bytecode::construct_sections")
    ev = []

    def proc(e, st, fr, a, site):
        st.flags = st.flags[-6:] + (("process", shapes.norm_idx(e, st, a[2]), tuple(sorted(((show(t, 12), v) for t, v in st.facts.items()), key=str))),)
        return UNIT
    seq = []

    def nxt(e, st, fr, a, site):
        return None
    F = flagset(prog)
    dead = {}
    for bits in (0, F["DEAD_CODE"], F["NOOP"], F["DISABLED"]):
        cnt = [0]
        got = []

        def nx(e, st, fr, a, site):
            v = e.peel(st, a[0])
            if v.op == "slice" and len(st.flags) > 2 and [x for x in st.flags if x == "next"][2:]:
                return search_models(prog)["Iterator::next"](e, st, fr, a, site)
            k = sum(1 for x in st.flags if x == "next")
            st.flags = st.flags + ("next",)
            return m.some(mk("sym", f"i{k}")) if k < 2 else shapes.none()

        def pr(e, st, fr, a, site):
            st.flags = st.flags + (("process", shapes.norm_idx(e, st, a[2])),)
            root, proj = e.deref(a[0])
            e.write(st, root, proj + (("f", "gas"), ("f", "gas_cost")), mk("sym", "gas"))
            return UNIT

        def fin(kind):
            def f(e, st, fr, a, site):
                st.flags = st.flags + (("final", kind),)
                return UNIT
            return f
        calls = dict(shapes.index_calls("insts"), **idx_models(prog))
        calls.update({"Iterator::next": nx, "SectionsAnalysis::process": pr})
        calls.update({k: v for k, v in search_models(prog).items() if k != "Iterator::next"})
        env = {mk("D", mk("elt", "insts", mk("sym", f"i{k}"))): cg.inst(prog, 0x01, bits) for k in range(2)}
        h = Ev(calls)
        e = m.Engine(prog, h, max_part=2000, max_steps=60000)
        e.run(b, args={}, flags=(), env=env)
        for r in h.res:
            p = [x[1] for x in r[2] if x[0] == "process"]
            want = [] if bits == F["DEAD_CODE"] else [mk("sym", "i0"), mk("sym", "i1")]
            rep.check(p == want, "instructions processed", f"construct_sections:{bits:#x}", f"with flags {bits:#x} the pass processes {[show(x) for x in p]}, expected {[show(x) for x in want]}", b.span)
            f = sorted({x[2][0][1] for x in r[2] if x[0] == "store" and x[1].op == "elt" and x[2]})
            want = ["flags", "gas_section", "stack_section"]
            try:
                ap = bits != F["DEAD_CODE"] and teval.holds(teval.Evaluator({mk("sym", "gas"): 9}, dyn=live_elt), r[0])
            except teval.Unk:
                ap = True
            rep.check(not ap or f == want, "last sections recorded", "construct_sections:finish", f"at the end the pass records {f}", b.span)
        rep.check(len(h.res) > 0, "pass reaches its end", f"construct_sections:{bits:#x}", "no path through the pass", b.span)
