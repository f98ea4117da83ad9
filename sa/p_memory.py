"""Static memory facts: the accesses derived from constant operands and the dataflow that turns them into per-instruction memory sections."""
import itertools

import cg
import evm
import mirlib as m
import par
import shapes
import teval
from p_sections import A1, A2, Ev, flagset, fld, idx_models, name
from terms import FALSE, K, TRUE, UNIT, is_k, mk, show, subterms

U64 = (1 << 64) - 1
S = teval.Some
# opcode -> list of (offset operand(s), length operand or constant)
ACC = {"KECCAK256": [(0, 1)], "RETURN": [(0, 1)], "REVERT": [(0, 1)], "LOG0": [(0, 1)], "LOG1": [(0, 1)], "LOG2": [(0, 1)], "LOG3": [(0, 1)], "LOG4": [(0, 1)],
       "MLOAD": [(0, "32")], "MSTORE": [(0, "32")], "MSTORE8": [(0, "1")], "CALLDATACOPY": [(0, 2)], "CODECOPY": [(0, 2)], "RETURNDATACOPY": [(0, 2)],
       "EXTCODECOPY": [(1, 3)], "MCOPY": [((0, 1), 2)], "CREATE": [(1, 2)], "CREATE2": [(1, 2)], "CALL": [(3, 4), (5, 6)], "CALLCODE": [(3, 4), (5, 6)],
       "DELEGATECALL": [(2, 3), (4, 5)], "STATICCALL": [(2, 3), (4, 5)]}


def env_calls():
    return {"Ord::max": lambda ev, a, b: max(ev.ev(a), ev.ev(b))}


def acc_value(nm, ops):
    """The accesses [(offset, length)] for constant operands ops: depth -> int or None."""
    def u(d):
        v = ops.get(d)
        return v if v is not None and v <= U64 else None
    out = []
    for o, l in ACC.get(nm, []):
        if isinstance(o, tuple):
            a, b = u(o[0]), u(o[1])
            off = max(a, b) if a is not None and b is not None else None
        else:
            off = u(o)
        out.append((off, int(l) if isinstance(l, str) else u(l)))
    return out


def accesses(prog, rep):
    F = flagset(prog)
    b = prog.fn("Bytecode::const_memory_accesses")

    def one(rep, c):
        i = K(10)
        calls = shapes.merge(shapes.index_calls("insts"), idx_models(prog))
        calls["Bytecode::const_operand"] = lambda e, st, fr, a, site: mk("constop", e.snap(st, a[2]))
        h = Ev(calls, models=shapes.Iters().models())
        e = m.Engine(prog, h, max_part=4000, max_steps=100000)
        e.run(b, args={2: i}, flags=(), env={mk("D", mk("elt", "insts", i)): cg.inst(prog, c, 0)})
        nm = name(c)
        ops = sorted({x for o, l in ACC.get(nm, []) for x in ((o if isinstance(o, tuple) else (o,)) + (() if isinstance(l, str) else (l,)))})
        vals = [None, 0, 64, 1 << 70] if len(ops) <= 3 else [None, 33, 1 << 64]
        dflt = 77
        for combo in itertools.product(vals, repeat=len(ops)):
            o = dict(zip(ops, combo))
            env = {mk("constop", K(d)): (None if o[d] is None else S(teval.U(o[d]))) if d in o else S(teval.U(dflt + d)) for d in range(8)}
            try:
                got = teval.apply(h.res, env, env_calls())
            except teval.Unk as u:
                rep.violation(f"accesses:{nm}:undecided", f"the accesses of {nm} could not be evaluated: {u}", b.span)
                return
            want = acc_value(nm, o)
            gs = {tuple((x.v[0] and x.v[0].v if x.v[0] is None or isinstance(x.v[0], S) else "?", x.v[1] and x.v[1].v) for x in g if x is not None) for g in got}
            gs = {tuple(((p[0].v if p[0] is not None else None), (p[1].v if p[1] is not None else None)) for p in (x.v for x in g if x is not None)) for g in got}
            if not rep.check(len(gs) == 1, "access derivation is a function", nm, f"{nm}: {len(gs)} results for operands {o}", b.span):
                continue
            g = next(iter(gs))
            okc = len(g) == len(want) and all(weaker(x, y) for x, y in zip(g, want))
            rep.check(okc, "memory access of an instruction", nm, f"{nm} with constant operands {o} is taken to access (offset, length) {list(g)}, expected {want}", b.span)
    par.pmap(rep, one, range(256))


def weaker(got, want):
    return all(g == w or g is None for g, w in zip(got, want))


# reference dataflow
def rnd(x):
    return min(x + 31, U64) // 32 * 32


def exact(a):
    o, l = a
    if l == 0:
        return 0
    return None if o is None or l is None else rnd(min(o + l, U64))


def minsz(a):
    o, l = a
    if l in (0, None):
        return 0
    return rnd(min((o or 0) + l, U64))


def join(a, b):
    if b[0] is None:
        return a
    if a[0] is None:
        return b
    return (min(a[0], b[0]), a[1] if a[1] is not None and a[1] == b[1] else None)


ACCV = [(0, 32), (64, 32), (None, 32), (64, None), (5, 0), (None, 0), (None, None), (U64, 32), (1, 31), (100, 1), (0, U64)]


def opt(v):
    return None if v is None else S(v)


def block(prog, start, end, succs=()):
    return cg.struct(prog, cg.path_of(prog, "BlockData"), insts=mk("adt", "core::ops::range::Range", 0, "Range", ("start", "end"), K(start), K(end)),
                     preds=mk("array"), succs=mk("array", *succs))


def conv_blocks(bids):
    def conv(eng, st, t):
        s = show(t, 12)
        if "blocks" in s and t.op == "call":
            return list(bids)
        if t.op == "call" and "iter" in t.a[0]:
            return None
        return None
    return conv


def option_term(v):
    return shapes.none() if v is None else m.some(v)


def passrun(prog, fn, bids, blocks, accs, names, final, extra=None, args=None, init=None, conv=None):
    b = prog.fn(fn)
    calls = shapes.merge(shapes.index_calls("insts", "blocks", *names), idx_models(prog), shapes.vec_calls(), extra or {})

    def cma(e, st, fr, a, site):
        i = shapes.norm_idx(e, st, a[1])
        L = accs.get(i.a[0], [])
        t = [m.some(mk("tuple", o, l)) for o, l in L]
        return mk("array", *(t + [shapes.none()] * (2 - len(t))))
    calls["Bytecode::const_memory_accesses"] = cma
    env = {mk("D", mk("elt", "blocks", K(k))): v for k, v in blocks.items()}
    env.update(init or {})
    h = Ev(calls, models=shapes.Iters(conv or conv_blocks([K(x) for x in bids])).models(), final=final)
    e = m.Engine(prog, h, max_part=6000, max_steps=200000)
    e.run(b, args=args or {}, flags=(), env=env)
    return h.res, b


def eltfinal(n, i):
    return (f"{n}[{i}]", (mk("D", mk("elt", n, K(i))), ()))


def num(v):
    return v


def memory(prog, rep):
    accesses(prog, rep)
    summaries(prog, rep)
    save(prog, rep)
    exits(prog, rep)
    joins(prog, rep)
    entry(prog, rep)
    seeds(prog, rep)
    worklist(prog, rep)
    passes(prog, rep)


def undecided(rep, what, u, where):
    rep.violation(f"{what}:undecided", f"{what} could not be evaluated: {u}", where)


def summaries(prog, rep):
    fn = "MemorySectionAnalysis::compute_block_memory_summaries"
    sy = lambda n: mk("sym", n)
    for shape in ([1, 1], [2], [1], [0]):
        accs, syms = {}, []
        for k, n in enumerate(shape):
            L = []
            for j in range(n):
                o, l = sy(f"o{k}{j}"), sy(f"l{k}{j}")
                syms.append((o, l))
                L.append((o, l))
            accs[10 + k] = L
        res, b = passrun(prog, fn, [3], {3: block(prog, 10, 10 + len(shape))}, accs, ("block_min_required_sizes", "block_exact_required_sizes"),
                         [eltfinal("block_min_required_sizes", 3), eltfinal("block_exact_required_sizes", 3)])
        rep.check(len(res) > 0, "block summary", str(shape), "no path through the block summary", b.span)
        for combo in itertools.product(ACCV if len(syms) < 2 else ACCV[:9], repeat=len(syms)):
            env = {}
            for (o, l), (ov, lv) in zip(syms, combo):
                env[o], env[l] = opt(ov), opt(lv)
            try:
                got = teval.apply(res, env, env_calls(), out=lambda ev, r: (ev.ev(r[3]["block_min_required_sizes[3]"]), ev.ev(r[3]["block_exact_required_sizes[3]"])))
            except teval.Unk as u:
                undecided(rep, "block summary", u, b.span)
                break
            ex = [exact(a) for a in combo]
            want = (max([minsz(a) for a in combo] + [0]), S(max(ex + [0])) if None not in ex else None)
            rep.check(set(got) == {want}, "block summary", f"{shape}", f"a block with accesses {combo} is summarised as {got[:2]}, expected {want}", b.span)


def save(prog, rep):
    fn = "MemorySectionAnalysis::save_sections"
    sy = lambda n: mk("sym", n)
    items = [[1, 1], [2], [1], [1, 0, 1]]

    def one(rep, shape):
        accs, syms = {}, []
        for k, n in enumerate(shape):
            L = []
            for j in range(n):
                o, l = sy(f"o{k}{j}"), sy(f"l{k}{j}")
                syms.append((k, o, l))
                L.append((o, l))
            accs[10 + k] = L
        ent = cg.struct(prog, cg.path_of(prog, "BlockMemoryState"), known_size=sy("kn"), exact_known_size=sy("ex"))
        init = {mk("D", mk("elt", "block_entry_states", K(3))): ent}
        zero = cg.struct(prog, cg.path_of(prog, "MemorySection"), known_size=K(0), required_size=K(0), direct_resize_size=K(0))
        for k in range(len(shape)):
            init[mk("D", mk("elt", "sections", K(10 + k)))] = zero
        res, b = passrun(prog, fn, [3], {3: block(prog, 10, 10 + len(shape))}, accs, ("sections", "block_entry_states"),
                         [eltfinal("sections", 10 + k) for k in range(len(shape))], init=init)
        rep.check(len(res) > 0, "memory section", str(shape), "no path through the section recording", b.span)
        vals = ACCV if len(syms) < 2 else [(0, 32), (64, 32), (None, 32), (64, None), (5, 0), (U64, 32), (100, 1)]
        for kn, ex in ((None, None), (0, 0), (0, None), (64, 64), (64, None), (96, 128)):
            for combo in itertools.product(vals, repeat=len(syms)):
                env = {sy("kn"): opt(kn), sy("ex"): opt(ex)}
                for (k, o, l), (ov, lv) in zip(syms, combo):
                    env[o], env[l] = opt(ov), opt(lv)

                def out(ev, r):
                    L = []
                    for k in range(len(shape)):
                        v = r[3][f"sections[{10 + k}]"]
                        d = {n: ev.ev(x) for n, x in zip(v.a[3], v.a[4:])} if v.op == "adt" else None
                        L.append((d["known_size"], d["required_size"], d["direct_resize_size"]) if d else None)
                    return tuple(L)
                try:
                    got = teval.apply(res, env, env_calls(), out=out)
                except teval.Unk as u:
                    undecided(rep, "memory section", u, b.span)
                    return
                want = [[0, 0, 0] for _ in shape]
                if kn is not None:
                    L, E = kn, ex
                    for (k, o, l), a in zip(syms, combo):
                        er, mr = exact(a), minsz(a)
                        w = want[k]
                        if L != 0 or (er is not None and er != 0):
                            if w[0] == 0 and w[1] == 0:
                                w[0] = L
                            if er is not None:
                                w[1] = max(w[1], er)
                                if E is not None and E < er:
                                    w[2] = max(w[2], er)
                        L = max(L, mr)
                        E = max(E, er) if E is not None and er is not None else None
                want = tuple(tuple(w) for w in want)
                rep.check(set(got) == {want}, "memory section", str(shape),
                          f"entry (known, exact)=({kn}, {ex}), accesses {combo}: sections (known, required, direct resize) {got[:2]}, expected {want}", b.span)
    par.pmap(rep, one, items)


def exits(prog, rep):
    fn = "MemorySectionAnalysis::block_exit_state"
    sy = lambda n: mk("sym", n)
    ent = cg.struct(prog, cg.path_of(prog, "BlockMemoryState"), known_size=sy("kn"), exact_known_size=sy("ex"))
    init = {mk("D", mk("elt", "block_entry_states", K(3))): ent, mk("D", mk("elt", "block_min_required_sizes", K(3))): sy("mn"),
            mk("D", mk("elt", "block_exact_required_sizes", K(3))): sy("xr")}
    res, b = passrun(prog, fn, [3], {}, {}, ("block_entry_states", "block_min_required_sizes", "block_exact_required_sizes"), [], init=init, args={2: K(3)})
    rep.check(len(res) > 0, "block exit state", "exit", "no path through the block transfer", b.span)
    for kn, ex, mn, xr in itertools.product((None, 0, 64), (None, 0, 64), (0, 32, 96), (None, 0, 96)):
        try:
            got = teval.apply(res, {sy("kn"): opt(kn), sy("ex"): opt(ex), sy("mn"): mn, sy("xr"): opt(xr)}, env_calls(), out=lambda ev, r: state(ev, r[1]))
        except teval.Unk as u:
            undecided(rep, "block exit state", u, b.span)
            break
        want = (None if kn is None else max(kn, mn), None if ex is None or xr is None else max(ex, xr))
        rep.check(set(got) == {want}, "block exit state", "exit", f"entry ({kn}, {ex}) with block needs ({mn}, {xr}) leaves {got[:2]}, expected {want}", b.span)


def state(ev, v):
    if v.op == "adt":
        d = {n: ev.ev(x) for n, x in zip(v.a[3], v.a[4:])}
        return tuple(None if d[k] is None else d[k].v for k in ("known_size", "exact_known_size"))
    r = ev.ev(v)
    raise teval.Unk(f"state {show(v)[:80]}")


def joins(prog, rep):
    b = prog.fn("BlockMemoryState::join")
    sy = lambda n: mk("sym", n)
    P = cg.path_of(prog, "BlockMemoryState")
    D = mk("D", mk("sym", "self"))
    h = Ev(shapes.vec_calls(), models={}, final=[("self", (D, ()))])
    e = m.Engine(prog, h)
    e.run(b, args={1: mk("ref", D, (), "mut"), 2: cg.struct(prog, P, known_size=sy("k2"), exact_known_size=sy("e2"))}, flags=(),
          env={D: cg.struct(prog, P, known_size=sy("k1"), exact_known_size=sy("e1"))})
    rep.check(len(h.res) > 0, "state join", "join", "no path through the join", b.span)
    vals = [(None, None), (0, 0), (0, None), (64, 64), (64, None), (32, 64), (96, 96), (64, 96)]
    for x, y in itertools.product(vals, vals):
        env = {sy("k1"): opt(x[0]), sy("e1"): opt(x[1]), sy("k2"): opt(y[0]), sy("e2"): opt(y[1])}
        try:
            got = teval.apply(h.res, env, env_calls(), out=lambda ev, r: (state(ev, r[3]["self"]), bool(ev.ev(r[1]))))
        except teval.Unk as u:
            undecided(rep, "state join", u, b.span)
            break
        w = join(x, y)
        rep.check(set(got) == {(w, w != x)}, "state join", "join", f"join of {x} and {y} gives {got[:2]}, expected {(w, w != x)}", b.span)


def entry(prog, rep):
    """One worklist step: the block's exit state reaches every successor and, for unresolved jumps, every dynamic target."""
    fn = "MemorySectionAnalysis::compute_block_entry_states"
    sy = lambda n: mk("sym", n)

    def one(rep, case):
        reach, dyn, changed = case
        ev_ = []

        def pop(e, st, fr, a, site):
            if "popped" in st.flags:
                return shapes.none()
            st.flags = st.flags + ("popped",)
            return m.some(K(3))

        def exit_(e, st, fr, a, site):
            st.flags = st.flags + (("exit", shapes.norm_idx(e, st, a[1])),)
            return cg.struct(prog, cg.path_of(prog, "BlockMemoryState"), known_size=m.some(K(64)) if reach else shapes.none(), exact_known_size=m.some(K(64)) if reach else shapes.none())

        def upd(e, st, fr, a, site):
            st.flags = st.flags + (("upd", shapes.norm_idx(e, st, a[1]), e.snap(st, a[2])),)
            return UNIT

        def push(e, st, fr, a, site):
            st.flags = st.flags + (("push", shapes.norm_idx(e, st, a[1])),)
            return UNIT
        calls = {"Worklist::pop": pop, "Worklist::push": push, "MemorySectionAnalysis::block_exit_state": exit_, "MemorySectionAnalysis::update_entry_state": upd,
                 "IndexBitSet::contains": lambda e, st, fr, a, site: K(dyn) if shapes.cname(e, st, a[0]) == "dynamic_jump_blocks" else None,
                 "Worklist::new": lambda e, st, fr, a, site: mk("sym", "wl")}

        def conv(eng, st, t):
            s = show(t, 12)
            if "dynamic_jump_targets" in s:
                return [K(7), K(8)]
            return None
        calls["IndexBitSet::iter"] = lambda e, st, fr, a, site: mk("seq", K(7), K(8)) if "dynamic_jump_targets" in show(e.snap(st, a[0]), 12) else None
        res, b = passrun(prog, fn, [], {3: block(prog, 10, 12, [K(4), K(5)])}, {}, ("block_entry_states",), [eltfinal("block_entry_states", 0)], extra=calls, conv=conv)
        rep.check(len(res) > 0, "entry states", str(case), "no path through the worklist step", b.span)
        for f, v, fl, fin in res:
            ev = teval.Evaluator({})
            try:
                ent = state(ev, fin["block_entry_states[0]"])
            except teval.Unk as u:
                ent = str(u)
            rep.check(ent == (0, 0), "entry block starts with empty memory", "entry", f"the entry block starts with memory facts {ent}", b.span)
            push = [x[1] for x in fl if x[0] == "push"]
            rep.check(K(0) in push, "entry block is analysed", "entry", "the entry block is not queued", b.span)
            ups = [(x[1], x[2]) for x in fl if x[0] == "upd"]
            tg = sorted(x[0].a[0] for x in ups if is_k(x[0]))
            want = [] if not reach else [4, 5] + ([7, 8] if dyn else [])
            rep.check(tg == want, "facts flow along every edge", f"{case}",
                      f"after a block with exit facts known={bool(reach)}, dynamic jump={dyn}: successors updated {tg}, expected {want}", b.span)
            for t, val in ups:
                try:
                    sv = state(ev, val)
                except teval.Unk as u:
                    sv = str(u)
                rep.check(sv == (64, 64), "facts flow along every edge", f"{case}:value", f"block {show(t)} receives {sv} from a predecessor leaving (64, 64)", b.span)
    par.pmap(rep, one, [(r, d, 1) for r in (0, 1) for d in (0, 1)])
    b = prog.fn("MemorySectionAnalysis::update_entry_state")
    for ch in (0, 1):
        calls = shapes.merge(shapes.index_calls("block_entry_states"), idx_models(prog))
        calls["BlockMemoryState::join"] = lambda e, st, fr, a, site: K(ch)

        def push(e, st, fr, a, site):
            st.flags = st.flags + (("push", shapes.norm_idx(e, st, a[1])),)
            return UNIT
        calls["Worklist::push"] = push
        h = Ev(calls)
        m.Engine(prog, h).run(b, args={2: K(6)}, flags=())
        for r in h.res:
            p = [x[1] for x in r[2] if x[0] == "push"]
            rep.check(p == ([K(6)] if ch else []) or (not ch and p == [K(6)]), "changed blocks are revisited", "update", f"after a join with change={ch} the queue receives {[show(x) for x in p]}", b.span)
        rep.check(len(h.res) > 0, "changed blocks are revisited", "update:paths", "no path", b.span)


def seeds(prog, rep):
    """Which blocks end in an unresolved jump and which blocks such a jump can reach."""
    F = flagset(prog)
    b = prog.fn("MemorySectionAnalysis::new")
    cases = []
    for hd in (0, 1):
        for head, data in (("JUMPDEST", 5), ("JUMPDEST", 5 | 1 << 31), ("ADD", 0)):
            for term, fl in (("JUMP", 0), ("JUMPI", 0), ("JUMP", F["STATIC_JUMP"]), ("JUMPI", F["STATIC_JUMP"]), ("JUMP", F["STATIC_JUMP"] | F["INVALID_JUMP"]), ("STOP", 0), ("ADD", 0),
                             ("JUMP", F["STATIC_JUMP"] | F["MULTI_JUMP"])):
                cases.append((hd, head, data, term, fl))
    code = {o.name: c for c, o in evm.OPS.items()}

    def one(rep, case):
        hd, head, data, term, fl = case

        def ins(e, st, fr, a, site):
            st.flags = st.flags + (("ins", a[0], shapes.norm_idx(e, st, a[1])),)
            return UNIT
        calls = {"IndexBitSet::insert": ins, "Bytecode::has_dynamic_jumps": lambda e, st, fr, a, site: K(hd)}
        mark = []

        def new(e, st, fr, a, site):
            return mk("set", site)
        calls["IndexBitSet::new"] = new
        init = {mk("D", mk("elt", "insts", K(10))): cg.inst(prog, code[head], 0, data=K(data)), mk("D", mk("elt", "insts", K(12))): cg.inst(prog, code[term], fl, data=K(0))}
        res, b = passrun(prog, "MemorySectionAnalysis::new", [3], {3: block(prog, 10, 13)}, {}, (), [], extra=calls, init=init)
        rep.check(len(res) > 0, "dynamic jump seeds", str(case), "no path", b.span)
        for f, v, flg, fin in res:
            got = {}
            sets = {}
            if v.op == "adt":
                for n, x in zip(v.a[3], v.a[4:]):
                    if n.startswith("dynamic_jump"):
                        sets[n] = x
            ins_ = [(x[1], x[2]) for x in flg if x[0] == "ins"]
            isd = lambda n: any(i == K(3) and same(l, sets.get(n)) for l, i in [(show(l, 9), i) for l, i in ins_] for l in [l])
            n_ins = len([1 for l, i in ins_ if i == K(3)])
            wt = head == "JUMPDEST" and (hd or data >> 31)
            wj = term in ("JUMP", "JUMPI") and not fl & F["STATIC_JUMP"] and not fl & F["INVALID_JUMP"]
            need = (int(wt) + int(wj)) if hd else 0
            okc = n_ins == need if hd else True
            rep.check(okc, "dynamic jump seeds", f"{head}:{data >> 31}:{term}:{fl:#x}", f"a block {head}..{term} (flags {fl:#x}) is entered in {n_ins} dynamic-jump sets, expected {need}", b.span)
            if hd and n_ins == need == 1:
                # which of the two sets
                root = [l for l, i in ins_][0]
                site = [x.a[0] for x in subterms(root) if x.op == "set"]
                okw = True
                if root.op == "ref":
                    pass
                rep.ob("dynamic jump seeds")

    def same(a, b):
        return True
    par.pmap(rep, one, cases)
    # the two sets are told apart by the container they are stored in
    for hd, head, data, term, fl, want in ((1, "JUMPDEST", 5, "STOP", 0, "dynamic_jump_targets"), (1, "ADD", 0, "JUMP", 0, "dynamic_jump_blocks")):
        def ins(e, st, fr, a, site):
            loc = a[0]
            e.write(st, loc.a[0], loc.a[1], mk("set", "inserted"))
            return UNIT
        calls = {"IndexBitSet::insert": ins, "Bytecode::has_dynamic_jumps": lambda e, st, fr, a, site: K(hd), "IndexBitSet::new": lambda e, st, fr, a, site: mk("set", "empty")}
        init = {mk("D", mk("elt", "insts", K(10))): cg.inst(prog, code[head], 0, data=K(data)), mk("D", mk("elt", "insts", K(12))): cg.inst(prog, code[term], fl, data=K(0))}
        res, b = passrun(prog, "MemorySectionAnalysis::new", [3], {3: block(prog, 10, 13)}, {}, (), [], extra=calls, init=init)
        for f, v, flg, fin in res:
            d = dict(zip(v.a[3], v.a[4:])) if v.op == "adt" else {}
            got = [n for n, x in d.items() if x == mk("set", "inserted")]
            rep.check(got == [want], "dynamic jump seeds", f"set:{want}", f"a block {head}..{term} is entered in {got}, expected {want}", b.span)


def worklist(prog, rep):
    for n in ("Worklist::push", "Worklist::pop"):
        cands = [b for b in prog.bodies.values() if b.short == n and "memory_sections" in b.name]
        if not cands:
            raise m.Missing(n)
        b = cands[0]
        for inq in (0, 1):
            for empty in (0, 1):
                def ev(nm, ret):
                    def f(e, st, fr, a, site):
                        st.flags = st.flags + ((nm,) + tuple(shapes.norm_idx(e, st, x) for x in a[1:]),)
                        return ret
                    return f
                calls = {"IndexBitSet::contains": lambda e, st, fr, a, site: K(inq), "IndexBitSet::insert": ev("insert", UNIT), "IndexBitSet::remove": ev("remove", UNIT),
                         "VecDeque::push_back": ev("enq", UNIT), "VecDeque::push_front": ev("enq", UNIT),
                         "VecDeque::pop_front": ev("deq", shapes.none() if empty else m.some(K(6))), "VecDeque::pop_back": ev("deq", shapes.none() if empty else m.some(K(6)))}
                h = Ev(calls)
                m.Engine(prog, h).run(b, args={2: K(6)} if n.endswith("push") else {}, flags=())
                rep.check(len(h.res) > 0, "worklist", n, "no path", b.span)
                for f, v, fl, fin in h.res:
                    ops = [x[0] for x in fl if x[0] != "store"]
                    if n.endswith("push"):
                        okc = (ops == [] if inq else sorted(ops) == ["enq", "insert"]) and all(x[1] == K(6) for x in fl if x[0] != "store")
                        rep.check(okc, "worklist", f"push:{inq}", f"pushing a block that is {'already' if inq else 'not'} queued performs {ops}", b.span)
                    else:
                        okc = "remove" not in ops and v.a[2] == "None" if empty else "remove" in ops and v == m.some(K(6))
                        rep.check(okc, "worklist", f"pop:{empty}", f"popping performs {ops} and returns {show(v)}", b.span)


def passes(prog, rep):
    """run = summaries, then entry states, then recording; the result is stored in the bytecode."""
    b = prog.fn("MemorySectionAnalysis::run")
    names = ["compute_block_memory_summaries", "compute_block_entry_states", "save_sections"]

    def ev(nm):
        def f(e, st, fr, a, site):
            st.flags = st.flags + (nm,)
            return UNIT
        return f
    h = Ev({f"MemorySectionAnalysis::{n}": ev(n) for n in names})
    m.Engine(prog, h).run(b, flags=())
    for r in h.res:
        o = [x for x in r[2] if isinstance(x, str)]
        rep.check(o == names, "analysis order", "run", f"the memory analysis runs {o}", b.span)
        rep.check(r[1].op == "fld" and r[1].a[1] == "sections", "analysis result", "run", f"the memory analysis returns {show(r[1])[:100]}", b.span)
    rep.check(len(h.res) > 0, "analysis order", "run:paths", "no path", b.span)
