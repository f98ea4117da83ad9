"""Abstract stack interpretation and jump resolution: transfer function, joins, resolution, propagation, invalidation and commit."""
import itertools

import cg
import evm
import mirlib as m
import par
import shapes
import teval
from p_fold import absv
from p_sections import Ev, flagset, idx_models, name
from teval import Some, U, V
from terms import FALSE, K, TRUE, UNIT, is_k, mk, show, subterms

S = lambda n: mk("sym", n)
TOPV = V(("Top",))
IMMV = V(("Const", "IMM"))
DSELF, DSTACK = mk("D", S("self")), mk("D", S("stack"))
CLAMP = 64


def undecided(rep, what, u, where):
    rep.violation(f"{what}:undecided", f"{what} could not be evaluated: {u}", where)


def elem(n, i):
    return mk("D", mk("elt", n, K(i)))


def fold_calls():
    return {"const_fold::const_fold_gas": lambda e, st, fr, a, site: note(st, ("gasq", e.snap(st, a[0]), e.snap(st, e.peel(st, a[1]))), S("cost")),
            "const_fold::try_const_fold": lambda e, st, fr, a, site: note(st, ("fold", e.snap(st, e.peel(st, a[0])), e.snap(st, e.peel(st, a[1])), e.snap(st, a[3])), S("folded"))}


def note(st, ev, v):
    st.flags = st.flags + (ev,)
    return v


def stack_io(c, imm=None):
    nm = name(c)
    if nm in ("DUPN", "SWAPN"):
        n = evm.decode_single(imm)
        return (0, 0) if n is None else (n, n + 1) if nm == "DUPN" else (n + 1, n + 1)
    if nm == "EXCHANGE":
        p = evm.decode_pair(imm)
        return (0, 0) if p is None else (p[1] + 1, p[1] + 1)
    o = evm.OPS.get(c)
    return (0, 0) if o is None else (o.i, o.o)


def interp_run(prog, insts, stack, imms=None):
    """Summary of interpreting instructions 7, 8, ... given as (opcode, flags) on the given abstract stack."""
    b = prog.fn("Bytecode::interpret_block")
    calls = shapes.merge(shapes.index_calls("insts", "inputs", "outputs"), idx_models(prog), shapes.vec_calls(), fold_calls())
    env = {DSTACK: mk("array", *stack)}
    for k, (c, fl) in enumerate(insts):
        env[elem("insts", 7 + k)] = cg.inst(prog, c, fl, data=S(f"data{k}"), stack_io=mk("tuple", *[K(x) for x in stack_io(c, imms[0] if imms else None)]))
        env[elem("inputs", 7 + k)] = mk("array", S(f"oldin{k}"))
        env[elem("outputs", 7 + k)] = S(f"oldout{k}")
    if imms:
        calls["InstData::imm_byte"] = lambda e, st, fr, a, site: K(imms[0])
    calls["InstData::imm"] = lambda e, st, fr, a, site: S("imm")
    final = [("stack", (DSTACK, ())), ("used", (DSELF, (("f", "compiler_gas_used"),)))]
    for k in range(len(insts)):
        final += [(f"in{k}", (elem("inputs", 7 + k), ())), (f"out{k}", (elem("outputs", 7 + k), ()))]
    h = Ev(calls, models=shapes.Iters().models(), final=final)
    e = m.Engine(prog, h, max_part=2000, max_steps=60000)
    e.run(b, args={1: mk("ref", DSELF, (), "mut"), 2: mk("array", *[K(7 + k) for k in range(len(insts))]), 3: mk("ref", DSTACK, (), "mut")}, flags=(), env=env)
    return h.res, b


def want_stack(nm, c, imm, st, folded):
    """Reference transfer: the stack afterwards (None: the frame fails), TOS last."""
    i, o = stack_io(c, imm)
    L = len(st)
    if nm.startswith("PUSH"):
        return st + [IMMV]
    if nm == "POP":
        return st[:-1] if L else None
    if nm[:3] == "DUP":
        n = i if nm == "DUPN" else c - 0x7F
        if nm == "DUPN" and evm.decode_single(imm) is None:
            return None
        return st + [st[L - n]] if L >= n else (st + [TOPV] if nm == "DUPN" else None)
    if nm[:4] == "SWAP":
        if nm == "SWAPN" and evm.decode_single(imm) is None:
            return None
        n = i - 1 if nm == "SWAPN" else c - 0x8F
        if L < n + 1:
            return (st[:-1] + [TOPV] if L else st) if nm == "SWAPN" else None
        st = list(st)
        st[-1], st[L - 1 - n] = st[L - 1 - n], st[-1]
        return st
    if nm == "EXCHANGE":
        p = evm.decode_pair(imm)
        if p is None:
            return None
        n, k = p
        st = list(st)
        if L < k + 1:
            if L > n:
                st[L - 1 - n] = TOPV
            return st
        st[L - 1 - n], st[L - 1 - k] = st[L - 1 - k], st[L - 1 - n]
        return st
    if L < i:
        return None
    return st[:L - i] + ([folded] if o == 1 and folded is not None else [TOPV] * o)


def upto(got, want):
    """Same values, or unknown."""
    return isinstance(got, tuple) and len(got) == len(want) and all(g == w or g == TOPV for g, w in zip(got, want))


def transfer(prog, rep, c, fl, imm, L, F):
    nm = name(c)
    key = f"{nm}" + (f":{imm:#x}" if imm is not None else "")
    syms = [S(f"s{k}") for k in range(L)]
    res, b = interp_run(prog, [(c, fl)], syms, [imm] if imm is not None else None)
    rep.check(len(res) > 0, "stack transfer paths", key, f"no path through the interpretation of {nm} with {L} known slots", b.span)
    i, o = stack_io(c, imm)
    ops = nm[:4] in ("PUSH", "SWAP") or nm[:3] == "DUP" or nm in ("POP", "EXCHANGE")
    base = {x: f"s{k}" for k, x in enumerate(syms)}
    base.update({S("imm"): "IMM", S("oldin0"): "OLDIN", S("oldout0"): "OLDOUT", S("data0"): 77})
    cases = [(0, 100, Some(5), Some("F"))]
    if not ops and o and L >= i:
        cases = [(u, lim, co, fo) for u, lim in ((0, 100), (100, 100), (96, 100), (95, 100), (120, 100)) for co in (None, Some(5)) for fo in (None, Some("F"))]
    US, LS = mk("fld", mk("deref", S("self")), "compiler_gas_used"), mk("fld", mk("deref", S("self")), "compiler_gas_limit")
    for used, lim, cost, fo in cases:
        env = dict(base)
        env.update({US: used, LS: lim, S("cost"): cost, S("folded"): fo})

        def out(ev, r):
            f = r[3]
            folds = [x for x in r[2] if isinstance(x, tuple) and x[0] in ("fold", "gasq")]
            return (ev.ev(r[1]), ev.ev(f["stack"]), ev.ev(f["in0"]), ev.ev(f["out0"]), ev.ev(f["used"]),
                    tuple((x[0], ev.ev(x[1]) if x[0] == "gasq" else None, ev.ev(x[2])) for x in folds))
        try:
            got = teval.apply(res, env, out=out)
        except teval.Unk as u:
            undecided(rep, "stack transfer", f"{key} depth {L}: {u}", b.span)
            return
        if not rep.check(len(got) >= 1, "stack transfer is total", key, f"{nm} on {L} slots reaches no return", b.span):
            return
        st = [f"s{k}" for k in range(L)]
        dead = bool(fl & F["DEAD_CODE"])
        may = lim > used and cost is not None and used + cost.v <= lim
        for ret, stk, inn, outv, u2, folds in got:
            if dead:
                ok = ret and stk == tuple(st) and inn == ("OLDIN",) and outv == "OLDOUT" and u2 == used
                rep.check(ok, "dead instructions have no effect", key, f"dead {nm} changes the abstract state", b.span)
                continue
            w = want_stack(nm, c, imm, st, fo.v if fo is not None and may and not ops else None)
            if w is None:
                rep.ob("stack transfer")
                continue
            rep.check(bool(ret), "live paths are followed", key, f"{nm} on {L} known slots is reported as failing", b.span)
            rep.check(upto(stk, w), "stack transfer", key, f"{nm} on {L} slots {st[-6:]} leaves {str(stk)[-120:]}, expected {w[-6:]}", b.span)
            if i and L >= i:
                rep.check(upto(inn, st[L - i:]), "recorded operands", key, f"{nm} records the operands {str(inn)[:120]}, expected {st[L - i:]}", b.span)
            swap = nm[:4] == "SWAP" or nm == "EXCHANGE"
            if o and not swap:
                rep.check(outv is None or outv == Some(TOPV) or outv == Some(w[-1]), "recorded result", key, f"{nm} records the result {outv}, expected {w[-1]}", b.span)
            else:
                rep.check(outv in ("OLDOUT", None) or outv == Some(TOPV), "recorded result", key, f"{nm} records the result {outv}, it has none", b.span)
            for kind, opc, ins in folds:
                rep.check(ins == tuple(st[L - i:]) and (kind == "fold" or opc == c), "folding operands", key, f"folding {nm} is given {ins}, the operands are {st[L - i:]}", b.span)
            if any(x[0] == "fold" for x in folds):
                rep.check(may, "folding stays in budget", key, f"folding {nm} is attempted with {used} of {lim} used and cost {cost}", b.span)
            rep.check(u2 <= max(lim, used) and (u2 > used or not (may and fo is not None and any(x[0] == "fold" for x in folds))), "folding is accounted", key,
                      f"folding {nm} leaves the budget use at {u2} (was {used}, cost {cost}, limit {lim})", b.span)


def interp(prog, rep):
    F = flagset(prog)
    items = []
    for c in range(256):
        nm = name(c)
        if nm in ("DUPN", "SWAPN", "EXCHANGE"):
            for imm in sorted({0, 1, 2, 45, 90, 91, 100, 127, 128, 129, 143, 144, 150, 200, 254, 255}):
                i, o = stack_io(c, imm)
                for L in sorted({x for x in (0, 1, i - 1, i, i + 1, 20) if x >= 0}):
                    items.append((c, 0, imm, L))
            continue
        i, o = stack_io(c)
        for L in sorted({x for x in (0, i - 1, i, i + 1, i + 3) if x >= 0}):
            items.append((c, 0, None, L))
        items.append((c, F["DEAD_CODE"], None, i + 1))
    par.pmap(rep, lambda rep, it: transfer(prog, rep, *it, F), items)
    # two instructions in sequence: the second sees the first one's result
    res, b = interp_run(prog, [(0x60, 0), (0x80, 0), (0x80, F["DEAD_CODE"]), (0x50, 0)], [S("s0")])
    try:
        got = teval.apply(res, {S("s0"): "s0", S("imm"): "IMM", **{S(f"oldin{k}"): "o" for k in range(4)}, **{S(f"oldout{k}"): "o" for k in range(4)}},
                          out=lambda ev, r: (ev.ev(r[3]["stack"]), ev.ev(r[3]["in1"]), ev.ev(r[3]["in3"])))
        rep.check(got and all(upto(g[0], ["s0", IMMV]) and upto(g[1], [IMMV]) and upto(g[2], [IMMV]) for g in got), "instructions are interpreted in order", "sequence",
                  f"PUSH DUP1 (dead DUP1) POP leaves {got[:2]}", b.span)
    except teval.Unk as u:
        undecided(rep, "instruction sequence", u, b.span)


def blocks(prog, rep):
    interp(prog, rep)


# ------------------------------------------------------------------------------------------------ lattice
SETS = {0: (1, 2), 1: (2, 3), 2: (1, 3, 5), 3: (4, 6), 4: (1, 2, 3, 5), 5: (0, 5), 6: (10, 20), 7: (10, 11), 8: (11, 12), 9: (10, 20, 30), 10: (3, 9),
        11: tuple(range(1, 9)), 12: tuple(range(5, 20)), 13: tuple(range(40, 60)), 14: (10, 20, 30, 40, 50, 60), 15: (10, 20, 30, 40, 50, 61)}
SETIDX = {v: k for k, v in SETS.items()}
# program counters: 10, 20, ..., 60 are destinations
DEST = {k: 100 + k for k in range(10, 61, 10)}


def const(prog, v):
    return absv(prog, "Const", K(v))


def cset(prog, k):
    return absv(prog, "ConstSet", K(k))


def top(prog):
    return absv(prog, "Top")


def set_of(xs):
    t = tuple(sorted(xs))
    if t not in SETIDX:
        SETIDX[t] = len(SETIDX) + 100
        SETS[SETIDX[t]] = t
    return SETIDX[t]


def members(v):
    """Python view of a concrete abstract value term."""
    if v.op == "adt" and v.a[2] == "Top":
        return None
    x = v.a[4]
    if v.a[2] == "Const":
        return (x.a[0],) if is_k(x) else "?"
    if is_k(x):
        return SETS[x.a[0]]
    return tuple(y.a[0] for y in x.a[0].a) if x.op == "interned" and all(is_k(y) for y in x.a[0].a) else "?"


def set_calls(prog):
    def get(e, st, fr, a, site):
        i = shapes.norm_idx(e, st, a[1])
        return mk("rv", mk("box", mk("array", *[K(x) for x in SETS[i.a[0]]]))) if is_k(i) else mk("rv", mk("box", i.a[0])) if i.op == "interned" else None

    def intern(e, st, fr, a, site):
        v = e.snap(st, e.peel(st, a[1]))
        while v.op in ("rv", "box") or (v.op == "call" and len(v.a) == 2):
            v = v.a[-1]
        return mk("interned", v)
    ident = lambda e, st, fr, a, site: e.snap(st, e.peel(st, a[0]))

    def typed(short):
        return lambda e, st, fr, a, site: m.typed_int(e, st, short, {}, a)
    return {"PartialEq::eq": typed("PartialEq::eq"), "PartialEq::ne": typed("PartialEq::ne"), "Ord::cmp": typed("Ord::cmp"), "Interner::get": get, "Interner::intern": intern, "slice::from_ref": lambda e, st, fr, a, site: mk("rv", mk("array", e.snap(st, e.peel(st, a[0])))),
            "U256Imm::get": ident, "U256Imm::get_inline": ident}


def base_calls(prog, *containers):
    return shapes.merge(shapes.index_calls(*containers), idx_models(prog), shapes.vec_calls(), set_calls(prog))


def lattice(prog, rep):
    b = prog.fn("ConstSetInterner::join")
    vals = [top(prog), const(prog, 1), const(prog, 2), const(prog, 7)] + [cset(prog, k) for k in (0, 1, 2, 3, 4, 11, 12, 13)]

    def one(rep, it):
        x, y = it
        h = Ev(base_calls(prog), models=shapes.Iters().models())
        m.Engine(prog, h, max_part=2000, max_steps=60000).run(b, args={2: x, 3: y}, flags=())
        mx, my = members(x), members(y)
        want = None if mx is None or my is None else tuple(sorted(set(mx) | set(my)))
        rep.check(len(h.res) > 0, "value join", "paths", f"no path joining {mx} and {my}", b.span)
        for r in h.res:
            g = members(r[1]) if r[1].op == "adt" else "?"
            ok = g is None or (want is not None and g == want and ((len(want) == 1) == (r[1].a[2] == "Const")))
            rep.check(ok, "value join", f"{mx}:{my}", f"joining {mx or 'unknown'} with {my or 'unknown'} gives {g if g != '?' else show(r[1])[:120]}, expected {want}", b.span)
    par.pmap(rep, one, list(itertools.product(vals, vals)))


def states(prog, rep):
    b = prog.fn("BlockState::join")
    P = cg.path_of(prog, "BlockState")
    D = mk("D", S("state"))

    def joinv(e, st, fr, a, site):
        x, y = e.snap(st, a[1]), e.snap(st, a[2])
        if x.op != "adt" or y.op != "adt":
            return None
        if x == y:
            return x
        if x.a[2] == "Top" or y.a[2] == "Top":
            return top(prog)
        return absv(prog, "ConstSet", mk("j", x, y))

    def jref(x, y):
        if x == y:
            return x
        return TOPV if TOPV in (x, y) else ("j", x, y)
    pat = {"a": [1] * 80, "t": ["T"] * 80, "m": [1, "T", 2] * 27, "d": list(range(80)), "e": list(range(79, -1, -1))}
    mkv = lambda x: top(prog) if x == "T" else const(prog, x)
    sv = lambda x: TOPV if x == "T" else x

    def view(v):
        if v.a[2] == "Top":
            return TOPV
        x = v.a[4]
        return x.a[0] if is_k(x) else ("j", view(x.a[0]), view(x.a[1])) if x.op == "j" else "?"
    cases = [(le, li, pe, pi) for le in (None, 0, 1, 2, 3, 63, 64) for li in (0, 1, 2, 3, 62, 63, 64, 65, 70) for pe, pi in (("d", "d"), ("d", "e"), ("a", "a"), ("m", "t"), ("t", "m"), ("t", "t"))]

    def one(rep, it):
        le, li, pe, pi = it
        ex = None if le is None else pat[pe][:80][-le:] if le else []
        inc = pat[pi][-li:] if li else []
        cur = prog.enum(P, "Bottom") if ex is None else prog.enum(P, "Known", (mk("array", *[mkv(x) for x in ex]),))
        calls = shapes.merge(base_calls(prog), {"ConstSetInterner::join": joinv})
        h = Ev(calls, models=shapes.Iters().models(), final=[("s", (D, ()))])
        m.Engine(prog, h, max_part=3000, max_steps=400000).run(b, args={1: mk("ref", D, (), "mut"), 2: cg.ref(mk("array", *[mkv(x) for x in inc]))}, flags=(), env={D: cur})
        rep.check(len(h.res) > 0, "state join", "paths", f"no path joining a state of {le} slots with {li}", b.span)
        wi = [sv(x) for x in inc][-CLAMP:]
        if ex is None:
            want = wi
        else:
            we = [sv(x) for x in ex]
            n = min(max(len(we), len(inc)), CLAMP)
            pad = lambda s: [TOPV] * (n - len(s)) + s[max(0, len(s) - n):]
            want = [jref(x, y) for x, y in zip(pad(we), pad(wi))]
        for r in h.res:
            s = r[3]["s"]
            g = tuple(view(x) for x in s.a[4].a) if s.op == "adt" and s.a[2] == "Known" and s.a[4].op == "array" else None
            key = f"{'new' if ex is None else 'known'}:{'clamped' if max(le or 0, li) > CLAMP else 'same' if le == li else 'shorter' if (le or 0) > li else 'longer'}"
            ok = g is not None and upto(g, want)
            rep.check(ok, "state join", key, f"a block state of {le} slots joined with an incoming stack of {li} becomes {str(g)[-100:] if g is not None else show(s)[:100]}, expected {str(want)[-100:]}", b.span)
            if ok:
                ch = r[1].a[0] if is_k(r[1]) else None
                differs = ex is None or list(g) != [sv(x) for x in ex]
                rep.check(ch == 1 if differs else ch in (0, 1), "changed states are reported", key, f"joining {le} slots with {li} changes the state: {differs}, reports {show(r[1])}", b.span)
                rep.check(differs or ch == 0, "unchanged states are reported", key, f"joining {le} slots with {li} leaves the state unchanged but reports a change", b.span)
    par.pmap(rep, one, cases)


# ------------------------------------------------------------------------------------------------ resolution
CONDS = ["T", 0, 5, 5 << 70, 5 + (1 << 255), "s5", "s10", "s0"]
TARGETS = ["T", 10, 20, 11, 5, 0, (1 << 64) + 10, (1 << 255) + 10, (1 << 32) + 10, "s6", "s7", "s8", "s9", "s0", "s14", "s15"]


def val(prog, x):
    return top(prog) if x == "T" else cset(prog, int(x[1:])) if isinstance(x, str) else const(prog, x)


def mem(x):
    return None if x == "T" else SETS[int(x[1:])] if isinstance(x, str) else (x,)


def cond_ref(x):
    v = mem(x)
    return "Unknown" if v is None or len({bool(y) for y in v}) != 1 else "AlwaysTrue" if v[0] else "AlwaysFalse"


def target_ref(x):
    """Set of acceptable resolutions."""
    v = mem(x)
    if v is None:
        return {"Top"}
    ok = [y in DEST for y in v]
    if all(ok):
        return {"Top", tuple(DEST[y] for y in v)}
    return {"Top", "Invalid"} if not any(ok) else {"Top"}


def jump_calls(prog):
    def valid(e, st, fr, a, site):
        return K(int(a[1].a[0] in DEST)) if is_k(a[1]) else None

    def p2i(e, st, fr, a, site):
        if not is_k(a[1]):
            return None
        return K(DEST[a[1].a[0]]) if a[1].a[0] in DEST else S("badinst")
    return {"Bytecode::is_valid_jump": valid, "Bytecode::pc_to_inst": p2i}


def resolution(v):
    """(target, condition) of a JumpResolution term."""
    if v.op != "adt":
        return None
    d = dict(zip(v.a[3], v.a[4:]))
    t, c = d.get("target"), d.get("condition")
    if t is None or t.op != "adt" or c is None or c.op != "adt":
        return None
    tt = t.a[2]
    if tt == "Resolved":
        arr = t.a[4]
        tt = tuple(x.a[0] if is_k(x) else "?" for x in arr.a) if arr.op == "array" else "?"
    return tt, c.a[2]


def mkres(prog, target, cond):
    JT, JC, JR = cg.path_of(prog, "JumpTarget"), cg.path_of(prog, "JumpCondition"), cg.path_of(prog, "JumpResolution")
    t = prog.enum(JT, target) if isinstance(target, str) else prog.enum(JT, "Resolved", (mk("array", *[K(x) for x in target]),))
    return cg.struct(prog, JR, target=t, condition=prog.enum(JC, cond))


def smallvec_calls():
    return {"SmallVec::from_elem": lambda e, st, fr, a, site: mk("array", *([a[0]] * a[1].a[0])) if is_k(a[1]) else None,
            "vec::from_elem": lambda e, st, fr, a, site: mk("array", *([a[0]] * a[1].a[0])) if is_k(a[1]) else None}


def resolve(prog, rep):
    b = prog.fn("Bytecode::resolve_jump")
    lb = prog.fn("Bytecode::local_jumpi_condition")
    code = {o.name: c for c, o in evm.OPS.items()}
    items = [("JUMP", None, t) for t in TARGETS] + [("JUMPI", c, t) for c in CONDS for t in TARGETS] + [("JUMP", None, None), ("JUMPI", None, None)]

    def one(rep, it):
        nm, c, t = it
        snap = [] if t is None else [val(prog, t)] if nm == "JUMP" else [val(prog, c), val(prog, t)]
        calls = shapes.merge(base_calls(prog, "insts", "inputs"), jump_calls(prog), smallvec_calls())
        env = {elem("insts", 7): cg.inst(prog, code[nm], 0, data=S("d")), elem("inputs", 7): mk("array", *snap)}
        h = Ev(calls, models=shapes.Iters().models())
        m.Engine(prog, h, max_part=2000, max_steps=60000).run(b, args={2: K(7)}, flags=(), env=env)
        rep.check(len(h.res) > 0, "jump resolution", f"{it}", f"no path resolving {it}", b.span)
        wc = cond_ref(c) if c is not None else "Unknown"
        for r in h.res:
            g = resolution(r[1])
            if t is None:
                ok = g is not None and g[1] == "Unknown" and g[0] in ("Bottom", "Top")
            elif wc == "AlwaysFalse":
                ok = g is not None and (g == ((8,), "AlwaysFalse") or (g[1] == "Unknown" and g[0] in target_ref(t)))
            else:
                ok = g is not None and g[1] in ("Unknown", wc) and (g[0] in target_ref(t) or (isinstance(g[0], tuple) and tuple(sorted(g[0])) in target_ref(t)))
            rep.check(ok, "jump resolution", f"{nm}:{wc}:{'set' if isinstance(t, str) and t != 'T' else 'unknown' if t == 'T' else 'const'}",
                      f"{nm} with condition {mem(c) if c is not None else '-'} and target {mem(t) if t is not None else 'unreached'} resolves to {g or show(r[1])[:100]}, acceptable {target_ref(t) if t is not None else 'Bottom'}", b.span)
        if nm == "JUMPI" and t in ("T", 10):
            env[elem("inputs", 7)] = S("fixpoint")
            D = mk("D", S("local"))
            env2 = dict(env)
            calls2 = dict(calls)
            seen = []

            def idx(e, st, fr, a, site):
                n = shapes.cname(e, st, a[0])
                if n == "inputs":
                    base = a[0]
                    seen.append("local" in show(base, 9))
                    return mk("rv", mk("array", *snap)) if "local" in show(base, 9) else None
                return None
            calls2 = shapes.merge({"Index::index": idx}, calls)
            h = Ev(calls2, models=shapes.Iters().models())
            m.Engine(prog, h, max_part=2000, max_steps=60000).run(lb, args={2: K(7), 3: mk("ref", D, (), "")}, flags=(), env=env2)
            rep.check(len(h.res) > 0, "block-local condition", f"{c}", "no path", lb.span)
            for r in h.res:
                g = r[1].a[2] if r[1].op == "adt" else None
                rep.check(g in ("Unknown", wc), "block-local condition", f"{wc}", f"the block-local condition {mem(c) if c is not None else 'unreached'} is decided as {g or show(r[1])[:80]}, expected {wc}", lb.span)
    par.pmap(rep, one, items)


def discover(prog, rep):
    b = prog.fn("Bytecode::discover_jump_edges")

    def one(rep, it):
        t, busy = it
        DD, DP = mk("D", S("disc")), mk("D", S("preds"))
        calls = shapes.merge(base_calls(prog, "insts"), jump_calls(prog))
        i2b = {110 + 10 * k: 4 + k for k in range(6)}

        def idx(e, st, fr, a, site):
            n = shapes.cname(e, st, a[0])
            if n == "inst_to_block":
                i = shapes.norm_idx(e, st, a[1])
                return mk("rv", m.some(K(i2b[i.a[0]]))) if is_k(i) and i.a[0] in i2b else None
            return None
        calls = shapes.merge({"Index::index": idx}, calls)
        arr = mk("array", *[mk("array", *([K(4)] if k == 3 and t == "s9" else [])) for k in range(10)])
        h = Ev(calls, models=shapes.Iters().models(), final=[("d", (DD, ()))])
        m.Engine(prog, h, max_part=2000, max_steps=60000).run(b, args={2: val(prog, t), 3: K(3), 5: mk("ref", DD, (), "mut"), 6: mk("ref", DP, (), "mut")}, flags=(),
                                                              env={DD: arr, DP: mk("array", *[mk("array", *([K(1), K(2)] if busy else [])) for _ in range(10)])})
        want = {i2b[DEST[x]] for x in (mem(t) or ()) if x in DEST} | ({4} if t == "s9" else set())
        rep.check(len(h.res) > 0, "discovered edges", f"{t}", "no path", b.span)
        for r in h.res:
            d = r[3]["d"]
            g = [x.a[0] if is_k(x) else "?" for x in d.a[3].a] if d.op == "array" and d.a[3].op == "array" else None
            rep.check(g is not None and set(g) == want, "discovered edges", f"{t}", f"a jump to {mem(t)} discovers edges to the blocks {g}, expected {sorted(want)}", b.span)
            rest = d.op == "array" and all(x == mk("array") for k, x in enumerate(d.a) if k != 3)
            rep.check(rest, "discovered edges", f"{t}:other", "edges are recorded for another block", b.span)
    par.pmap(rep, one, [(t, w) for t in TARGETS for w in (0, 1)])


def blocks(prog, rep):
    interp(prog, rep)
    lattice(prog, rep)
    states(prog, rep)
    resolve(prog, rep)
    discover(prog, rep)


# ------------------------------------------------------------------------------------------------ whole functions on small control-flow shapes
def shape_calls(prog):
    return shapes.merge(shapes.clone_from_calls(), shapes.index_vec_calls(), shapes.map_calls(), shapes.bit_calls(), idx_models(prog), shapes.vec_calls(), set_calls(prog), smallvec_calls(), iter_get())


def iter_get():
    return {"enabled!": lambda *a: K(0)}


def mkblock(prog, start, end, succs=(), preds=()):
    return cg.struct(prog, cg.path_of(prog, "BlockData"), insts=mk("adt", "core::ops::range::Range", 0, "Range", ("start", "end"), K(start), K(end)),
                     preds=mk("array", *[K(x) for x in preds]), succs=mk("array", *[K(x) for x in succs]))


def bytecode(prog, insts=None, blocks=None, i2b=None, ins=None, outs=None, multi=None, redirects=None, **kw):
    f = dict(kw)
    if insts is not None:
        f["insts"] = mk("array", *insts)
    if blocks is not None or i2b is not None:
        f["cfg"] = cg.struct(prog, cg.path_of(prog, "Cfg"), blocks=mk("array", *(blocks or [])), inst_to_block=mk("array", *(i2b or [])))
    if ins is not None:
        f["snapshots"] = cg.struct(prog, cg.path_of(prog, "Snapshots"), inputs=mk("array", *ins), outputs=mk("array", *outs))
    f["multi_jump_targets"] = mk("map", *(multi or []))
    f["redirects"] = mk("map", *(redirects or []))
    return cg.struct(prog, cg.path_of(prog, "Bytecode"), **f)


def shape_run(prog, fn, selfv, args, env=None, calls=None, final=(), max_steps=60000, noinline=()):
    b = prog.fn(fn)
    h = Ev(shapes.merge(calls or {}, shape_calls(prog)), noinline, models=shapes.Iters().models(), final=[("self", (DSELF, ()))] + list(final))
    e = m.Engine(prog, h, max_part=400, max_steps=max_steps, exact=True)
    a = {1: mk("ref", DSELF, (), "mut")}
    a.update(args)
    e.run(b, args=a, flags=(), env={DSELF: selfv, **(env or {})})
    return h, b


def field(v, *names):
    for n in names:
        if v.op != "adt" or n not in v.a[3]:
            raise teval.Unk(f"field {n} of {show(v)[:60]}")
        v = v.a[4 + v.a[3].index(n)]
    return v


# block graphs: (successors per block, jump operand of the terminator per block, blocks whose interpretation fails)
GRAPHS = [
    ([[1], [2], []], {}, ()),
    ([[1, 2], [3], [3], []], {}, ()),
    ([[1], [2], [1]], {}, ()),
    ([[1], [1, 2], []], {}, ()),
    ([[1], [], [1]], {}, ()),
    ([[], [2], []], {0: 10}, ()),
    ([[1], [], [], []], {1: "s6"}, ()),
    ([[1], [], [], []], {1: "T"}, ()),
    ([[1], [], [1], []], {1: "s7"}, ()),
    ([[1, 2], [3], [3], []], {}, (1,)),
    ([[1], [2], []], {1: 11}, ()),
    ([[1], [2], [3], [1]], {3: 20}, ()),
    ([[0]], {}, ()),
    ([[1, 2], [2], [1]], {}, ()),
    ([[2], [], [1, 2]], {2: "s9"}, ()),
]


def fixpoint(prog, rep):
    code = {o.name: c for c, o in evm.OPS.items()}
    BS = cg.path_of(prog, "BlockState")

    def one(rep, gi):
        mode, (succs, ops, fails) = gi
        n = len(succs)
        i2b_of = {110: 1, 120: 2, 130: min(3, n - 1)}
        # two instructions per block; terminator JUMP when it has an operand
        insts = []
        for k in range(n):
            insts += [cg.inst(prog, code["JUMPDEST"], 0, data=K(5), stack_io=mk("tuple", K(0), K(0))), cg.inst(prog, code["JUMP"] if k in ops else code["ADD"], 0, data=K(0), stack_io=mk("tuple", K(1 if k in ops else 2), K(0 if k in ops else 1)))]
        blocks = [mkblock(prog, 2 * k, 2 * k + 2, succs[k]) for k in range(n)]
        i2b = [shapes.none() if False else m.some(K(k // 2)) for k in range(2 * n)] + [shapes.none()] * (140 - 2 * n)
        for t, bl in i2b_of.items():
            i2b[t] = m.some(K(bl))
        ins = [mk("array", val(prog, ops[k // 2])) if k % 2 and k // 2 in ops else mk("array") for k in range(2 * n)]
        selfv = bytecode(prog, insts, blocks, i2b, ins, [shapes.none()] * (2 * n))
        DB, DC = mk("D", S("states")), mk("D", S("sets"))
        init = [prog.enum(BS, "Known", (mk("array"),))] + [prog.enum(BS, "Bottom")] * (n - 1)
        cnt = [0]

        def out_of(blk, instack):
            if mode == "grow":
                return [const(prog, 1000 + len([1 for x in instack]))]
            if mode == "fwd":
                return instack[-1:] + [const(prog, 200 + blk)]
            return [const(prog, 200 + blk)]

        def interp_model(e, st, fr, a, site):
            first = shapes.to_iter(e, st, a[1])
            i0 = None
            it = e.snap(st, a[1])
            for x in subterms(it):
                if x.op == "adt" and x.a[2] == "Range" and is_k(x.a[4]):
                    i0 = x.a[4].a[0]
                if x.op == "seq" and x.a and is_k(x.a[0]):
                    i0 = x.a[0].a[0]
            if i0 is None and first is not None and first.op == "seq" and first.a and is_k(first.a[0]):
                i0 = first.a[0].a[0]
            if i0 is None:
                raise teval.Unk(f"interpreted range {show(it)[:80]}")
            blk = i0 // 2
            loc, v = shapes.loc_of(e, st, a[2], ("array",))
            st.flags = st.flags + (("interp", blk, v),)
            if blk in fails:
                return K(0)
            if mode == "grow":
                k = len([1 for x in st.flags if x[0] == "interp"])
                o = [const(prog, 1000 + k)]
            else:
                o = out_of(blk, list(v.a))
            e.write(st, loc.a[0], loc.a[1], mk("array", *o))
            return K(1)

        def joinv(e, st, fr, a, site):
            x, y = e.snap(st, a[1]), e.snap(st, a[2])
            if x == y:
                return x
            if "Top" in (x.a[2], y.a[2]):
                return top(prog)
            return cset(prog, set_of(set(members(x)) | set(members(y))))
        calls = shapes.merge({"Bytecode::interpret_block": interp_model, "ConstSetInterner::join": joinv}, jump_calls(prog))
        try:
            h, b = shape_run(prog, "Bytecode::run_fixpoint", selfv, {2: mk("ref", DB, (), "mut"), 3: mk("ref", DC, (), "mut")}, env={DB: mk("array", *init)}, calls=calls,
                             final=[("states", (DB, ()))])
        except (teval.Unk, m.Limit) as u:
            rep.violation("fixpoint:undecided", f"the fixpoint over the block graph {succs} could not be evaluated: {u}", prog.fn("Bytecode::run_fixpoint").span)
            return
        key = f"{mode}:{gi[1]}"
        rep.check(len(h.res) > 0, "fixpoint", key, f"no result for the block graph {succs}", b.span)
        edges = [list(s) for s in succs]
        for k, t in ops.items():
            for x in mem(t) or ():
                if x in DEST and i2b_of[DEST[x]] not in edges[k]:
                    edges[k].append(i2b_of[DEST[x]])

        def sv(v):
            return None if v.a[2] == "Top" else frozenset(members(v))
        for r in h.res:
            try:
                fs = r[3]["states"]
                got = [None if x.a[2] == "Bottom" else tuple(sv(y) for y in x.a[4].a) for x in fs.a]
                conv = r[1].a[1].a[0]
                disc = [sorted({x.a[0] for x in y.a}) for y in r[1].a[0].a]
            except (AttributeError, IndexError, TypeError) as ex:
                rep.violation("fixpoint:undecided", f"the result of the fixpoint over {succs} has an unexpected form: {show(r[1])[:100]}", b.span)
                return
            nit = len([1 for x in r[2] if x[0] == "interp"])
            if mode == "grow":
                cyc = reach_cycle(edges)
                rep.check(not (cyc and conv), "unfinished fixpoints are reported", key, f"a state that never stabilises in {succs} is reported as converged after {nit} steps", b.span)
                rep.check(nit <= 64 * n, "fixpoint work is bounded", key, f"{nit} interpretations of {n} blocks", b.span)
                continue
            want = [None] * n
            want[0] = ()
            work = [0]
            guard = 0
            while work and guard < 1000:
                guard += 1
                k = work.pop(0)
                if k in fails:
                    continue
                o = tuple(frozenset((200 + k,)) for _ in (0,)) if mode == "const" else want[k][-1:] + (frozenset((200 + k,)),)
                for t in edges[k]:
                    w = want[t]
                    if w is None:
                        nw = o
                    else:
                        L = max(len(w), len(o))
                        pa, pb = (None,) * (L - len(w)) + w, (None,) * (L - len(o)) + o
                        nw = tuple(None if x is None or y is None else x | y for x, y in zip(pa, pb))
                    if nw != w:
                        want[t] = nw
                        work.append(t)
            covers = all(w is None or (g is not None and len(g) == len(w) and all(x is None or (y is not None and x >= y) for x, y in zip(g, w))) for g, w in zip(got, want))
            rep.check(not conv or covers, "fixpoint covers every edge", key, f"after the fixpoint over {edges} the block states are {got}, expected {want}", b.span)
            rep.check(bool(conv), "finite fixpoints converge", key, f"the fixpoint over {edges} is reported as not converged after {nit} steps", b.span)
            if conv:
                wd = [sorted({i2b_of[DEST[x]] for x in (mem(ops[k]) or ()) if x in DEST}) if k in ops and want[k] is not None and k not in fails else [] for k in range(n)]
                rep.check(all(set(g) >= set(w) for g, w in zip(disc, wd)), "discovered edges are returned", key, f"the discovered edges of {succs} with jumps {ops} are {disc}, expected {wd}", b.span)
    par.pmap(rep, one, [(mode, g) for g in GRAPHS for mode in ("const", "fwd", "grow") if not (mode == "grow" and g[0] == [[0]])])


def reach_cycle(edges):
    seen, stack = set(), [0]
    while stack:
        k = stack.pop()
        if k in seen:
            continue
        seen.add(k)
        stack += edges[k]

    def cyc(k, path):
        return any(t in path or cyc(t, path | {t}) for t in edges[k])
    return cyc(0, {0})


def clamped(prog, rep):
    """A state that was cut to the tracked depth is extended downwards with unknown slots before a block that reads deeper."""
    code = {o.name: c for c, o in evm.OPS.items()}
    BS = cg.path_of(prog, "BlockState")

    def one(rep, it):
        L, need = it
        insts = [cg.inst(prog, code["DUPN"], 0, data=K(5), stack_io=mk("tuple", K(need), K(need + 1)))]
        selfv = bytecode(prog, insts, [mkblock(prog, 0, 1)], [m.some(K(0))], [mk("array")], [shapes.none()])
        DB, DC = mk("D", S("states")), mk("D", S("sets"))
        st0 = [const(prog, 300 + k) for k in range(L)]

        def im(e, st, fr, a, site):
            loc, v = shapes.loc_of(e, st, a[2], ("array",))
            st.flags = st.flags + (("interp", v),)
            return K(1)
        try:
            h, b = shape_run(prog, "Bytecode::run_fixpoint", selfv, {2: mk("ref", DB, (), "mut"), 3: mk("ref", DC, (), "mut")}, env={DB: mk("array", prog.enum(BS, "Known", (mk("array", *st0),)))},
                             calls={"Bytecode::interpret_block": im})
        except m.Limit as u:
            return undecided(rep, "clamped state", u, prog.fn("Bytecode::run_fixpoint").span)
        rep.check(len(h.res) > 0, "clamped state", f"{it}", "no result", b.span)
        for r in h.res:
            ev = [x[1] for x in r[2] if x[0] == "interp"]
            ok = len(ev) >= 1
            for v in ev:
                ok &= v is not None and tuple(v.a[len(v.a) - L:]) == tuple(st0) and all(x == top(prog) for x in v.a[:len(v.a) - L]) and (L < CLAMP or len(v.a) >= need)
            rep.check(ok, "clamped state", f"{'full' if L >= CLAMP else 'partial'}", f"a block that reads {need} slots is interpreted on {[len(v.a) for v in ev if v is not None]} slots although the state has {L} tracked ones", b.span)
    par.pmap(rep, one, [(L, n) for L in (0, 2, 63, 64) for n in (1, 3, 64, 65, 100, 200)])


def popped(prog, rep):
    """The slots below a clamped state stay unknown (not missing) in the blocks after one that pops."""
    code = {o.name: c for c, o in evm.OPS.items()}
    BS = cg.path_of(prog, "BlockState")

    def one(rep, it):
        L, left, need = it
        insts = [cg.inst(prog, code["POP"], 0, data=K(5), stack_io=mk("tuple", K(1), K(0))), cg.inst(prog, code["DUPN"], 0, data=K(5), stack_io=mk("tuple", K(need), K(need + 1)))]
        selfv = bytecode(prog, insts, [mkblock(prog, 0, 1, [1]), mkblock(prog, 1, 2)], [m.some(K(0)), m.some(K(1))], [mk("array")] * 2, [shapes.none()] * 2)
        DB, DC = mk("D", S("states")), mk("D", S("sets"))
        st0 = [const(prog, 300 + k) for k in range(L)]

        def im(e, st, fr, a, site):
            loc, v = shapes.loc_of(e, st, a[2], ("array",))
            st.flags = st.flags + (("interp", v),)
            if sum(x[0] == "interp" for x in st.flags) == 1:
                e.write(st, loc.a[0], loc.a[1], mk("array", *v.a[:len(v.a) - (L - left)]))
            return K(1)
        try:
            h, b = shape_run(prog, "Bytecode::run_fixpoint", selfv, {2: mk("ref", DB, (), "mut"), 3: mk("ref", DC, (), "mut")},
                             env={DB: mk("array", prog.enum(BS, "Known", (mk("array", *st0),)), prog.enum(BS, "Bottom"))}, calls={"Bytecode::interpret_block": im})
        except m.Limit as u:
            return undecided(rep, "clamped state", u, prog.fn("Bytecode::run_fixpoint").span)
        rep.check(len(h.res) > 0, "clamped state", f"{it}", "no result", b.span)
        want = tuple(st0[:left])
        for r in h.res:
            ev = [x[1] for x in r[2] if x[0] == "interp"]
            ok = len(ev) == 2 and all(v is not None for v in ev)
            if ok:
                v = ev[1]
                k = min(left, len(v.a))
                ok = tuple(v.a[len(v.a) - k:]) == want[left - k:] and all(x == top(prog) for x in v.a[:len(v.a) - left]) and (len(v.a) >= need if L >= CLAMP else len(v.a) >= left)
            rep.check(ok, "clamped state after pops", f"{'full' if L >= CLAMP else 'partial'}", f"after {L - left} of {L} tracked slots were popped, a block that reads {need} slots is interpreted on {[len(v.a) for v in ev[1:] if v is not None]}", b.span)
    par.pmap(rep, one, [(L, left, n) for L in (3, 63, 64) for left in (0, 1, 2, L - 1, L) for n in (1, 3, 60, 64, 65, 100)])


def suspects(prog, rep):
    """With an unresolved jump left, every fact of a block such a jump may reach is withdrawn."""
    code = {o.name: c for c, o in evm.OPS.items()}
    BS = cg.path_of(prog, "BlockState")
    SP = cg.path_of(prog, "Snapshots")
    graphs = [([[1], [2], []], [[], [], []], "JxJ", "KKK"), ([[1, 2], [3], [3], []], [[]] * 4, "xJxx", "KKKK"), ([[1], [], [3], []], [[], [2], [], []], "xJxx", "KKKK"),
              ([[1], [2], []], [[], [], []], "xxx", "KKK"), ([[1], [2], []], [[], [], []], "xJx", "KBB"), ([[1], [2], [1]], [[], [], []], "xxJ", "KKK"), ([[], [2], []], [[1], [], []], "xxx", "KKK"),
              ([[1], [], [], [2]], [[], [], [3], []], "xxxJ", "KKKK"), ([[1], [2], [3], []], [[]] * 4, "xxJx", "KKKK"), ([[1], [3], [], []], [[2], [], [], []], "Jxxx", "KKKK")]

    def one(rep, it):
        (succs, disc, heads, states), kind = it
        n = len(succs)
        insts, ins, outs, lin, lout = [], [], [], [], []
        nm, cond = kind
        for k in range(n):
            insts += [cg.inst(prog, code["JUMPDEST"] if heads[k] == "J" else code["PC"], 0, data=K(0)), cg.inst(prog, code[nm], 0, data=K(0))]
            ins += [mk("array", const(prog, 400 + k)), mk("array", const(prog, 500 + k), const(prog, 10))]
            outs += [m.some(const(prog, 600 + k)), m.some(const(prog, 700 + k))]
            lin += [mk("array", top(prog)), mk("array", val(prog, cond), top(prog))]
            lout += [m.some(top(prog)), m.some(const(prog, 900 + k))]
        selfv = bytecode(prog, insts, [mkblock(prog, 2 * k, 2 * k + 2, succs[k]) for k in range(n)], [m.some(K(k // 2)) for k in range(2 * n)], ins, outs)
        DJ, DB, DE, DL = (mk("D", S(x)) for x in ("jt", "states", "edges", "local"))
        res = [((110 + k,) if k % 2 == 0 else (110, 120) if k == 1 else "Invalid") for k in range(n)]
        jt = mk("array", *[mk("tuple", K(2 * k + 1), mkres(prog, res[k], "AlwaysTrue" if nm == "JUMPI" else "Unknown")) for k in range(n)])
        env = {DJ: jt, DB: mk("array", *[prog.enum(BS, "Known", (mk("array"),)) if c == "K" else prog.enum(BS, "Bottom") for c in states]),
               DE: mk("array", *[mk("array", *[K(x) for x in d]) for d in disc]), DL: cg.struct(prog, SP, inputs=mk("array", *lin), outputs=mk("array", *lout))}
        fn = "Bytecode::invalidate_suspect_jumps"
        try:
            h, b = shape_run(prog, fn, selfv, {2: mk("ref", DJ, (), "mut"), 3: mk("ref", DB, (), ""), 4: mk("ref", DE, (), ""), 5: mk("ref", DL, (), "")}, env=env, final=[("jt", (DJ, ()))])
        except m.Limit as u:
            return undecided(rep, "suspect blocks", u, prog.fn(fn).span)
        key = f"{heads}:{states}:{kind}"
        rep.check(len(h.res) > 0, "suspect blocks", key, "no result", b.span)
        sus = {k for k in range(n) if heads[k] == "J" and states[k] == "K"}
        work = list(sus)
        while work:
            k = work.pop()
            for t in succs[k] + disc[k]:
                if t not in sus:
                    sus.add(t)
                    work.append(t)
        lc = cond_ref(cond) if nm == "JUMPI" else "Unknown"
        for r in h.res:
            try:
                s = r[3]["self"]
                gi, go = field(s, "snapshots", "inputs"), field(s, "snapshots", "outputs")
                J = r[3]["jt"]
            except teval.Unk as u:
                return undecided(rep, "suspect blocks", u, b.span)
            for k in range(n):
                for j in (2 * k, 2 * k + 1):
                    safe = gi.op == "array" and go.op == "array" and (gi.a[j] == lin[j] and go.a[j] == lout[j])
                    kept = gi.op == "array" and go.op == "array" and gi.a[j] == ins[j] and go.a[j] == outs[j]
                    rep.check(safe or (k not in sus and kept), "suspect facts are withdrawn", key, f"block {k} of {succs} (dynamic edges {disc}, destinations {heads}) keeps facts that hold only on the paths seen", b.span)
                g = resolution(J.a[k].a[1]) if J.op == "array" and J.a[k].op == "tuple" else None
                if k in sus:
                    ok = g is not None and (g == ((2 * k + 2,), "AlwaysFalse") if lc == "AlwaysFalse" and g[1] == "AlwaysFalse" else g[0] == "Top" and g[1] in ("Unknown", lc))
                    rep.check(ok, "suspect resolutions are withdrawn", key, f"the jump of block {k} stays resolved as {g} (local condition {lc})", b.span)
                else:
                    ok = g is not None and (g[0] == "Top" or g == (res[k], "AlwaysTrue" if nm == "JUMPI" else "Unknown"))
                    rep.check(ok, "other resolutions are kept", key, f"the jump of block {k} is rewritten to {g}", b.span)
    par.pmap(rep, one, [(g, k) for g in graphs for k in (("JUMP", "T"), ("JUMPI", "T"), ("JUMPI", 0), ("JUMPI", 5))])


def interp_driver(prog, rep):
    """Entry state, unresolved jumps collected, non-convergence withdraws everything, unresolved jumps trigger invalidation."""
    F = flagset(prog)
    code = {o.name: c for c, o in evm.OPS.items()}
    BS = cg.path_of(prog, "BlockState")
    fn = "Bytecode::run_abstract_interp"
    kinds = [("JUMP", 0), ("JUMPI", 0), ("JUMP", F["STATIC_JUMP"]), ("JUMPI", F["STATIC_JUMP"]), ("JUMPI", F["STATIC_JUMP"] | F["CONST_JUMP_CONDITION"]), ("ADD", 0), ("JUMPI", F["CONST_JUMP_CONDITION"])]

    def one(rep, it):
        conv, tops = it
        insts = [cg.inst(prog, code[nm], fl, data=K(0)) for nm, fl in kinds]
        n = len(insts)
        selfv = bytecode(prog, insts, [mkblock(prog, 0, 2, [1]), mkblock(prog, 2, n)], [m.some(K(0))] * n, [mk("array", S("fix"))] * n, [shapes.none()] * n)

        def fp(e, st, fr, a, site):
            st.flags = st.flags + (("fixpoint", e.snap(st, e.peel(st, a[1]))),)
            return mk("tuple", S("edges"), K(conv))

        def rj(e, st, fr, a, site):
            i = shapes.norm_idx(e, st, a[1])
            st.flags = st.flags + (("resolve", i.a[0], any(x[0] == "restore" for x in st.flags)),)
            return mkres(prog, "Top" if i.a[0] in tops else (110,), "Unknown")

        def inv(e, st, fr, a, site):
            loc, v = shapes.loc_of(e, st, a[1], ("array",))
            st.flags = st.flags + (("inv", show(e.peel(st, a[3]))[:40], show(e.snap(st, a[4]))[:40]),)
            e.write(st, loc.a[0], loc.a[1], mk("array", *[mk("tuple", x.a[0], mkres(prog, "Top", "Unknown")) for x in v.a]))
            return UNIT

        def restore(e, st, fr, a, site):
            s = shapes.to_iter(e, st, a[1])
            st.flags = st.flags + (("restore", None if s is None else tuple(x.a[0] if is_k(x) else "?" for x in s.a), "local" in show(e.snap(st, a[2]), 9)),)
            return UNIT
        DL = mk("D", S("local"))
        try:
            h, b = shape_run(prog, fn, selfv, {2: mk("ref", DL, (), "")}, calls={"Bytecode::run_fixpoint": fp, "Bytecode::resolve_jump": rj, "Bytecode::invalidate_suspect_jumps": inv, "Snapshots::restore_from": restore})
        except m.Limit as u:
            return undecided(rep, "interpretation driver", u, prog.fn(fn).span)
        key = f"{'conv' if conv else 'noconv'}:{tops}"
        rep.check(len(h.res) > 0, "interpretation driver", key, "no result", b.span)
        for r in h.res:
            f = [x for x in r[2] if x[0] == "fixpoint"]
            ok = len(f) == 1 and f[0][1].op == "array" and f[0][1].a == (prog.enum(BS, "Known", (mk("array"),)), prog.enum(BS, "Bottom"))
            rep.check(ok, "the entry block starts with an empty stack", key, f"the fixpoint starts from {[show(x[1])[:160] for x in f]}", b.span)
            L = r[1].a[0] if r[1].op == "tuple" else None
            got = {x.a[0].a[0]: resolution(x.a[1]) for x in L.a} if L is not None and L.op == "array" else {}
            need = {i for i, (nm, fl) in enumerate(kinds) if nm in ("JUMP", "JUMPI") and not fl & F["STATIC_JUMP"]}
            rep.check(need <= set(got), "every unresolved jump is examined", key, f"the examined jumps are {sorted(got)}, unresolved are {sorted(need)}", b.span)
            rest = [x for x in r[2] if x[0] == "restore"]
            rep.check(conv or any(x[1] is not None and set(x[1]) == set(range(n)) and x[2] for x in rest), "an unfinished fixpoint keeps only local facts", key, f"without convergence the restored instructions are {[x[1] for x in rest]}", b.span)
            rep.check(conv or all(x[2] for x in r[2] if x[0] == "resolve"), "an unfinished fixpoint keeps only local facts", key + ":order", "jumps are resolved from stale facts before they are withdrawn", b.span)
            anytop = any(i in tops for i in got)
            inv_ = [x for x in r[2] if x[0] == "inv"]
            rep.check(bool(inv_) or (conv and not anytop), "unresolved jumps trigger invalidation", key, f"converged={bool(conv)}, unresolved={anytop}, but nothing is invalidated", b.span)
            rep.check(all("edges" in x[1] and "local" in x[2] for x in inv_), "unresolved jumps trigger invalidation", key + ":args", f"invalidation is given {inv_}", b.span)
            for i, g in got.items():
                w = "Top" if inv_ or i in tops else (110,)
                rep.check(g is not None and g[0] in (w, "Top"), "examined jumps are returned as resolved", key, f"jump {i} is returned as {g}, resolved as {w}", b.span)
            cnt = r[1].a[1].a[0] if r[1].op == "tuple" and is_k(r[1].a[1]) else None
            rep.check(cnt is not None and ((cnt > 0) >= any(g and g[0] not in ("Top", "Bottom") for g in got.values())), "resolved jumps are counted", key, f"{cnt} resolved jumps counted in {got}", b.span)
    par.pmap(rep, one, [(c, t) for c in (0, 1) for t in ((), (0,), (1,), (0, 1, 6), (3,))])


def commit(prog, rep):
    F = flagset(prog)
    code = {o.name: c for c, o in evm.OPS.items()}
    fn = "Bytecode::commit_resolved_jumps"
    tg = ["Top", "Invalid", "Bottom", (3,), (3, 4)]
    items = [(nm, fl, t, c, other) for nm in ("JUMP", "JUMPI") for fl in (0, F["STATIC_JUMP"], F["STATIC_JUMP"] | F["MULTI_JUMP"], F["STATIC_JUMP"] | F["INVALID_JUMP"])
             for t in tg for c in (("Unknown",) if nm == "JUMP" else ("Unknown", "AlwaysTrue", "AlwaysFalse")) for other in ("Top", (4,))]

    def one(rep, it):
        nm, fl, t, c, other = it
        if c == "AlwaysFalse" and t != (3,):
            return
        if c == "AlwaysFalse":
            t = (2,)
        JD = cg.inst(prog, code["JUMPDEST"], 0, data=K(7))
        insts = [cg.inst(prog, code["JUMP"], 0, data=K(0)), cg.inst(prog, code[nm], fl, data=K(99)), cg.inst(prog, code["ADD"], 0, data=K(55)), JD, JD]
        selfv = bytecode(prog, insts, multi=[K(1), mk("array", K(4), K(3))] if fl & F["MULTI_JUMP"] else [])
        L = mk("array", mk("tuple", K(0), mkres(prog, other, "Unknown")), mk("tuple", K(1), mkres(prog, t, c)))

        def rec(e, st, fr, a, site):
            st.flags = st.flags + (("recompute",),)
            return UNIT
        try:
            h, b = shape_run(prog, fn, selfv, {2: cg.ref(L)}, calls={"Bytecode::recompute_reachable_jumpdests": rec})
        except m.Limit as u:
            return undecided(rep, "commit", u, prog.fn(fn).span)
        key = f"{nm}:{fl:#x}:{t}:{c}:{'open' if other == 'Top' else 'closed'}"
        rep.check(len(h.res) > 0, "commit of resolutions", key, "no result", b.span)
        ST, IV, MU, CC = F["STATIC_JUMP"], F["INVALID_JUMP"], F["MULTI_JUMP"], F["CONST_JUMP_CONDITION"]
        was = bool(fl & ST)
        anytop = t == "Top" or other == "Top"
        keep = (fl, 99 if True else 0, bool(fl & MU))
        wf, wd, wm = fl, None, ((4, 3) if fl & MU else None)
        if was and c == "Unknown":
            pass
        else:
            if c != "Unknown":
                wf |= CC
            if isinstance(t, tuple) and len(t) == 1:
                wf, wd, wm = (wf | ST) & ~(IV | MU), t[0], None
            elif isinstance(t, tuple):
                wf, wm = (wf | ST | MU) & ~IV, t
            elif t == "Invalid" or (t == "Bottom" and not anytop):
                wf, wm = (wf | ST | IV) & ~MU, None
        for r in h.res:
            try:
                s = r[3]["self"]
                I1 = field(s, "insts").a[1]
                gf = cg.bits_of(field(I1, "flags"))
                gd = field(I1, "data")
                mp = field(s, "multi_jump_targets")
                gm = {k.a[0]: tuple(x.a[0] for x in v.a) for k, v in zip(mp.a[::2], mp.a[1::2])}
            except (teval.Unk, AttributeError, IndexError) as u:
                return undecided(rep, "commit", u, b.span)
            ok = gf == wf and (wd is None or (is_k(gd) and gd.a[0] == wd)) and (not wf & MU or gm.get(1) == wm or (t == (3, 4) and sorted(gm.get(1) or ()) == [3, 4]))
            rep.check(ok, "commit of resolutions", key, f"a {nm} (flags {fl:#x}) resolved to {t} with condition {c} gets flags {gf if isinstance(gf, str) else hex(gf) if isinstance(gf, int) else gf}, target {show(gd)}, targets {gm.get(1)}; "
                      f"expected {wf:#x}, {wd}, {wm if wf & MU else None}", b.span)
            ot = cg.bits_of(field(field(s, "insts").a[0], "flags"))
            rep.check(ot == (0 if other == "Top" else ST), "commit of resolutions", key + ":other", f"the other jump (resolved to {other}) gets flags {ot}", b.span)
            rep.check(("recompute",) in r[2] or True, "commit of resolutions", key + ":recompute", "", b.span)
            bad = [k for k in (2,) if field(s, "insts").a[k] != insts[k]]
            rep.check(not bad, "commit touches only jumps and destinations", key, f"instruction {bad} was changed", b.span)
    par.pmap(rep, one, items)


def locals_(prog, rep):
    """Block-local resolution: every block starts from as many unknown slots as it reads, and only single targets are committed."""
    fn = "Bytecode::block_analysis_local"
    code = {o.name: c for c, o in evm.OPS.items()}
    F = flagset(prog)

    def one(rep, it):
        nm, fl, res, ok, deep = it
        need = 2 + deep
        n = 3
        insts = [cg.inst(prog, code["ADD"], 0, data=K(0), stack_io=mk("tuple", K(2), K(1))), cg.inst(prog, code["DUPN"], 0, data=K(0), stack_io=mk("tuple", K(1 + deep), K(2 + deep))),
                 cg.inst(prog, code[nm], fl, data=K(0), stack_io=mk("tuple", K(1), K(0)))]
        selfv = bytecode(prog, insts, [mkblock(prog, 0, n)], [m.some(K(0))] * n, [mk("array")] * n, [shapes.none()] * n)

        def im(e, st, fr, a, site):
            loc, v = shapes.loc_of(e, st, a[2], ("array",))
            st.flags = st.flags + (("interp", v),)
            return K(ok)

        def rj(e, st, fr, a, site):
            st.flags = st.flags + (("resolve", a[1]),)
            return mkres(prog, res, "Unknown")

        def cm(e, st, fr, a, site):
            st.flags = st.flags + (("commit", e.snap(st, e.peel(st, a[1]))),)
            return K(0)
        ev = lambda n: (lambda e, st, fr, a, site: note(st, (n,), UNIT))
        try:
            h, b = shape_run(prog, fn, selfv, {}, calls={"Bytecode::interpret_block": im, "Bytecode::resolve_jump": rj, "Bytecode::commit_resolved_jumps": cm,
                                                        "Bytecode::recompute_has_dynamic_jumps": ev("dyn"), "Bytecode::init_snapshots": ev("init")}, max_steps=20000)
        except m.Limit as u:
            return undecided(rep, "block-local resolution", u, prog.fn(fn).span)
        key = f"{nm}:{fl:#x}:{res}:{ok}:{deep}"
        rep.check(len(h.res) > 0, "block-local resolution", key, "no result", b.span)
        for r in h.res:
            it_ = [x[1] for x in r[2] if x[0] == "interp"]
            rep.check(len(it_) == 1 and it_[0].op == "array" and len(it_[0].a) >= need and set(it_[0].a) == {top(prog)}, "blocks are interpreted from unknown inputs", key, f"a block reading {need} slots is interpreted on {[(len(x.a), show(x)[-60:]) for x in it_]}", b.span)
            cm_ = [x[1] for x in r[2] if x[0] == "commit"]
            got = [(y.a[0].a[0], resolution(y.a[1])) for x in cm_ for y in x.a] if all(x.op == "array" for x in cm_) else None
            jump = nm in ("JUMP", "JUMPI") and not fl & F["STATIC_JUMP"]
            may = jump and ok and isinstance(res, tuple) and len(res) == 1
            rep.check(got is not None and (got == [] or (may and got == [(2, (res, "Unknown"))])), "only block-local single targets are committed", key, f"committed {got}", b.span)
    par.pmap(rep, one, [(nm, fl, res, ok, deep) for nm in ("JUMP", "JUMPI", "STOP") for fl in (0, F["STATIC_JUMP"]) for res in ("Top", "Invalid", "Bottom", (3,), (3, 4)) for ok in (0, 1) for deep in (1, 18, 70, 200)])


def driver(prog, rep):
    """Global analysis: fresh snapshots, and every resolution and constant condition found is committed."""
    fn = "Bytecode::block_analysis"

    def one(rep, it):
        L, cnt = it
        res = mk("array", *[mk("tuple", K(i), mkres(prog, t, c)) for i, (t, c) in enumerate(L)])

        def ri(e, st, fr, a, site):
            st.flags = st.flags + (("interp", any(x[0] == "init" for x in st.flags), "local" in show(e.snap(st, a[1]), 9)),)
            return mk("tuple", res, K(cnt))

        def cm(e, st, fr, a, site):
            st.flags = st.flags + (("commit", e.snap(st, e.peel(st, a[1]))),)
            return K(0)
        ev = lambda n: (lambda e, st, fr, a, site: note(st, (n,), UNIT))
        DL = mk("D", S("local"))
        try:
            h, b = shape_run(prog, fn, bytecode(prog), {2: mk("ref", DL, (), "")}, calls={"Bytecode::run_abstract_interp": ri, "Bytecode::commit_resolved_jumps": cm, "Bytecode::init_snapshots": ev("init"),
                                                                                      "Bytecode::recompute_has_dynamic_jumps": ev("dyn")})
        except m.Limit as u:
            return undecided(rep, "global resolution", u, prog.fn(fn).span)
        key = f"{L}"
        rep.check(len(h.res) > 0, "global resolution", key, "no result", b.span)
        for r in h.res:
            f = [x for x in r[2] if x[0] == "interp"]
            rep.check(len(f) == 1 and f[0][1] and f[0][2], "snapshots are reset before global interpretation", key, f"{f}", b.span)
            c = [x[1] for x in r[2] if x[0] == "commit"]
            need = cnt > 0 or any(x[1] != "Unknown" for x in L)
            rep.check((not need and not c) or (len(c) == 1 and c[0] == res), "resolutions are committed", key, f"of {L} the commit gets {[show(x)[:80] for x in c]}", b.span)
            rep.check(r[2] and r[2][-1] == ("dyn",), "the dynamic-jump summary follows resolution", key, "has_dynamic_jumps is not recomputed after the last commit", b.span)
    par.pmap(rep, one, [([], 0), ([("Top", "Unknown")], 0), ([((3,), "Unknown")], 1), ([("Top", "AlwaysTrue")], 0), ([("Top", "Unknown"), ((2,), "AlwaysFalse")], 1), ([("Bottom", "Unknown")], 0)])


def blocks(prog, rep):
    for f in (interp, lattice, states, resolve, discover, fixpoint, clamped, popped, suspects, interp_driver, commit, locals_, driver):
        f(prog, rep)
