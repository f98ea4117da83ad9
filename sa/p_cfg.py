"""P13: control-flow graph, reachability and dead code, on a family of instruction-class sequences.

refresh_cfg (with everything it calls) is abstractly interpreted on sequences of instruction classes; the resulting marks, blocks and
edges must be sound with respect to the reference step relation of the sequence."""
import itertools
import random

import cg
import evm
import mirlib as m
import par
import shapes
import teval
from mirlib import K, UNIT, is_k, mk, show
from p_blocks import bytecode, field, shape_run, undecided
from p_sections import flagset

CODE = {o.name: c for c, o in evm.OPS.items()}
REACH = 1 << 31


class Prog:
    """A sequence of classes. Class = (name, target(s))."""

    def __init__(self, items, dead=(), redirects=()):
        self.items, self.dead, self.redirects = list(items), set(dead), dict(redirects)
        self.n = len(self.items)

    def key(self):
        return " ".join(x[0] + ("" if len(x) < 2 else ">" + ",".join(map(str, x[1]))) + ("!" if i in self.dead else "") for i, x in enumerate(self.items)) + ("" if not self.redirects else " " + str(self.redirects))


def fall(c):
    return c not in ("STOP", "JUMPs", "JUMPm", "JUMPi", "JUMPd", "JUMPIc", "JUMPIk", "JUMPIx", "JUMPIy", "UNK")


def final(p, t):
    seen = set()
    while t in p.redirects and t not in seen:
        seen.add(t)
        t = p.redirects[t]
    return t


def step(p, i, dests):
    """Instructions control can be at after i."""
    c = p.items[i][0]
    out = set()
    if fall(c) and i + 1 < p.n:
        out.add(i + 1)
    if c in ("JUMPs", "JUMPIs", "JUMPIc", "JUMPIk", "JUMPm", "JUMPIm"):
        out |= set(p.items[i][1])
    if c in ("JUMPd", "JUMPId", "JUMPIy"):
        out |= set(dests)
    return {final(p, t) for t in out}


def reach(p):
    dests = {i for i, x in enumerate(p.items) if x[0] == "JD"}
    R, work = set(), [0]
    while work:
        i = work.pop()
        if i in R or i >= p.n:
            continue
        R.add(i)
        work += list(step(p, i, dests))
    return R, dests


def build(prog, p, F):
    ST, IV, MU, CC, DC, UN = (F[x] for x in ("STATIC_JUMP", "INVALID_JUMP", "MULTI_JUMP", "CONST_JUMP_CONDITION", "DEAD_CODE", "UNKNOWN"))
    spec = {"OP": ("ADD", 0), "JD": ("JUMPDEST", 0), "STOP": ("STOP", 0), "UNK": ("ADD", UN),
            "JUMPs": ("JUMP", ST), "JUMPm": ("JUMP", ST | MU), "JUMPi": ("JUMP", ST | IV), "JUMPd": ("JUMP", 0),
            "JUMPIs": ("JUMPI", ST), "JUMPIm": ("JUMPI", ST | MU), "JUMPIi": ("JUMPI", ST | IV), "JUMPId": ("JUMPI", 0),
            "JUMPIc": ("JUMPI", ST | CC), "JUMPIk": ("JUMPI", ST | CC), "JUMPIx": ("JUMPI", ST | IV | CC), "JUMPIy": ("JUMPI", CC)}
    insts, multi = [], []
    for i, x in enumerate(p.items):
        nm, fl = spec[x[0]]
        if i in p.dead:
            fl |= DC
        data = x[1][0] if len(x) > 1 and not fl & MU else 5 if nm == "JUMPDEST" else 0
        if nm == "JUMPDEST" and i % 2:
            data |= REACH  # a stale mark
        insts.append(cg.inst(prog, CODE[nm], fl, data=K(data)))
        if fl & MU:
            multi += [K(i), mk("array", *[K(t) for t in x[1]])]
    return bytecode(prog, insts, [], [], multi=multi, redirects=[y for k, v in p.redirects.items() for y in (K(k), K(v))])


def programs():
    P = []
    A = lambda s, **kw: P.append(Prog(parse(s), **kw))
    for s in """OP OP STOP
OP JD STOP
JUMPs>2 OP JD OP STOP
JUMPs>3 JD OP JD STOP
JUMPd OP JD OP STOP
JUMPd JD OP JUMPs>1 JD STOP
JUMPIs>3 OP STOP JD STOP
JUMPIs>2 OP JD STOP
JUMPIs>3 JUMPs>4 OP JD JD STOP
JUMPId OP STOP JD STOP
JUMPIc>3 OP OP JD STOP
JUMPIk>1 OP STOP JD STOP
JUMPIx OP JD STOP
JUMPIy OP JD STOP
JUMPIi OP JD STOP
JUMPi OP JD STOP
JUMPm>2,4 OP JD STOP JD STOP
JUMPm>4,2 JD JD OP JD STOP
JUMPIm>2,4 OP JD STOP JD STOP
JD OP JUMPIs>0 STOP
JD JUMPs>0 OP STOP
OP JUMPs>3 JUMPd JD STOP JD OP
JUMPs>4 JUMPd OP JD JD STOP
STOP OP JUMPd JD STOP
UNK OP JD STOP
OP UNK JUMPd JD OP
JUMPs>2 JUMPs>4 JD STOP JD STOP
JUMPs>4 JD JUMPs>6 OP JD JUMPs>1 JD STOP
JUMPs>3 JD STOP JD JUMPs>1 JD
STOP JD JUMPs>1 JD JUMPIs>3 STOP
STOP JD JUMPd
STOP JD OP JUMPs>5 OP JD JUMPd
OP JUMPIs>4 OP STOP JD JUMPIs>6 JD STOP
JUMPs>2 STOP JD JUMPIs>6 JUMPs>2 OP JD OP
JD JD JD STOP
JUMPIs>1 JD STOP
JUMPIs>2 JUMPs>2 JD STOP
JUMPm>1,3 JD STOP JD JUMPm>1,3
JUMPs>3 JD OP JD JUMPIk>5 OP JUMPs>1
JUMPs>1 JD JUMPs>3 JD JUMPs>5 JD STOP
OP
JD
JUMPd
STOP""".split("\n"):
        A(s)
    # merged blocks: the duplicate is dead and redirected
    A("JUMPIs>3 JUMPs>5 OP JD STOP JD STOP", dead=(5, 6), redirects={5: 3})
    A("JUMPIs>3 JUMPs>5 OP JD STOP JD STOP", dead=(3, 4), redirects={3: 5})
    A("JUMPIs>3 OP JUMPs>7 JD STOP JD STOP JD STOP", dead=(5, 6, 7, 8), redirects={7: 5, 5: 3})
    A("JUMPIs>7 OP JUMPs>5 JD STOP JD STOP JD STOP", dead=(3, 4, 5, 6), redirects={3: 5, 5: 7})
    A("JUMPm>3,5 OP OP JD STOP JD STOP", dead=(5, 6), redirects={5: 3})
    A("JUMPIs>4 OP STOP STOP JD JUMPIs>4 OP STOP", dead=(6, 7), redirects={6: 1})
    A("JUMPIs>3 OP STOP JD JUMPIs>3 OP STOP JD STOP", dead=(5, 6), redirects={5: 1})
    A("OP JUMPIs>4 JD STOP JD STOP OP STOP", dead=(4, 5), redirects={4: 2})
    A("JUMPIs>2 OP JD STOP JUMPd JD STOP", dead=(4,))
    A("JUMPm>2,4,6 OP JD STOP JD STOP JD STOP", dead=(4, 5, 6, 7), redirects={4: 2, 6: 4})
    A("JUMPs>7 OP OP JD STOP JD STOP JD STOP", dead=(5, 6, 7, 8), redirects={7: 5, 5: 3})
    A("JUMPm>7,9 OP OP JD STOP JD STOP JD STOP JD STOP", dead=(5, 6, 7, 8, 9, 10), redirects={9: 7, 7: 5, 5: 3})
    A("JUMPIs>9 JUMPs>3 OP JD STOP JD STOP JD STOP JD STOP JD STOP", dead=(3, 4, 5, 6, 7, 8, 9, 10), redirects={3: 5, 5: 7, 7: 9, 9: 11})
    # a deterministic family of short sequences
    rnd = random.Random(20)
    cls = ["OP", "JD", "STOP", "JUMPs", "JUMPd", "JUMPIs", "JUMPId", "JUMPm", "JUMPIm", "JUMPi", "JUMPIi", "JUMPIc", "JUMPIk", "JUMPIx", "JUMPIy", "UNK"]
    wts = [3, 7, 2, 3, 1, 3, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1]
    while len(P) < 330:
        n = rnd.randint(3, 8)
        names = rnd.choices(cls, wts, k=n)
        if names[0] == "STOP" or rnd.random() < 0.6 and "JUMPd" in names:
            names[0] = "OP"
        ds = [i for i, x in enumerate(names) if x == "JD"]
        items, ok = [], True
        for i, x in enumerate(names):
            if x in ("JUMPs", "JUMPIs", "JUMPIc"):
                if not ds:
                    ok = False
                    break
                items.append((x, (rnd.choice(ds),)))
            elif x in ("JUMPm", "JUMPIm"):
                if len(ds) < 2:
                    ok = False
                    break
                items.append((x, tuple(rnd.sample(ds, 2))))
            elif x == "JUMPIk":
                if i + 1 >= n:
                    ok = False
                    break
                items.append((x, (i + 1,)))
            else:
                items.append((x,))
        if ok:
            P.append(Prog(items))
    return P


def parse(s):
    out = []
    for w in s.split():
        if ">" in w:
            a, b = w.split(">")
            out.append((a, tuple(int(x) for x in b.split(","))))
        else:
            out.append((w,))
    return out


def ints(v):
    return [x.a[0] for x in v.a] if v.op in ("array", "seq") and all(is_k(x) for x in v.a) else None


def graph(prog, rep):
    F = flagset(prog)

    def one(rep, p):
        key = p.key()
        fn = "Bytecode::refresh_cfg"
        try:
            h, b = shape_run(prog, fn, build(prog, p, F), {}, max_steps=200000)
        except m.Limit as u:
            return undecided(rep, "control-flow graph", u, prog.fn(fn).span)
        rep.check(len(h.res) > 0, "control-flow graph", key, f"no result for {key}", b.span)
        R, dests = reach(p)
        for r in h.res:
            try:
                s = r[3]["self"]
                I = field(s, "insts")
                fl = [cg.bits_of(field(x, "flags")) for x in I.a]
                data = [field(x, "data").a[0] for x in I.a]
                dyn = field(s, "has_dynamic_jumps").a[0]
                bl = [(field(x, "insts").a[4].a[0], field(x, "insts").a[5].a[0], ints(field(x, "succs")), ints(field(x, "preds"))) for x in field(s, "cfg", "blocks").a]
                i2b = [None if x.a[2] == "None" else x.a[4].a[0] for x in field(s, "cfg", "inst_to_block").a]
                red = field(s, "redirects")
                red = {k.a[0]: v.a[0] for k, v in zip(red.a[::2], red.a[1::2])}
            except (teval.Unk, AttributeError, IndexError, TypeError) as u:
                return undecided(rep, "control-flow graph", f"{key}: {u!r}", b.span)
            dead = {i for i in range(p.n) if fl[i] & F["DEAD_CODE"]}
            live = set(range(p.n)) - dead
            C = lambda c, d: rep.check(c, "x", key, d, b.span)
            bad = sorted((R - p.dead) & dead)
            rep.check(not bad, "reachable code stays live", key, f"in `{key}` the reachable instructions {bad} are marked dead", b.span)
            rep.check(p.dead <= dead, "removed code stays removed", key, f"in `{key}` the removed instructions {sorted(p.dead - dead)} come back", b.span)
            unres = [i for i in live if p.items[i][0] in ("JUMPd", "JUMPId", "JUMPIy")]
            rep.check(bool(dyn) or not unres, "unresolved jumps are remembered", key, f"in `{key}` the jumps {unres} are unresolved but the program counts as having none", b.span)
            tgts = {final(p, t) for i in live & R for t in (p.items[i][1] if len(p.items[i]) > 1 and p.items[i][0] != "JUMPIk" else ())}
            miss = sorted(t for t in tgts if p.items[t][0] == "JD" and not dyn and not data[t] & REACH)
            rep.check(not miss, "static targets are marked reachable", key, f"in `{key}` the jump targets {miss} are not marked", b.span)
            chg = [i for i in range(p.n) if p.items[i][0] == "JD" and data[i] & ~REACH != 5]
            rep.check(not chg, "destination positions are kept", key, f"{chg}", b.span)
            rep.check(set(red) == set(p.redirects) and all(v not in red and v == final(p, k) for k, v in red.items()), "redirects point at the final block", key, f"in `{key}` redirects become {red}", b.span)
            # blocks
            cover = {}
            for k, (x, y, _, _) in enumerate(bl):
                for i in range(x, y):
                    if i in live:
                        cover.setdefault(i, []).append(k)
            R2 = R & live
            gone = sorted(i for i in R2 if cover.get(i) is None or len(cover[i]) != 1)
            rep.check(not gone, "every live instruction is in one block", key, f"in `{key}` instructions {gone} are in blocks {[cover.get(i) for i in gone]}", b.span)
            wrong = sorted(i for i in R2 if i2b[i] != cover.get(i, [None])[0])
            rep.check(not wrong, "block lookup matches the blocks", key, f"in `{key}` instructions {wrong} map to the wrong block", b.span)
            for k, (x, y, su, pr) in enumerate(bl):
                if x not in R2:
                    continue
                body = [i for i in range(x, y)]
                rep.check(all(i in live for i in body), "blocks contain only live code", key, f"in `{key}` block {x}..{y} spans removed code", b.span)
                mid = [i for i in body[:-1] if not fall(p.items[i][0]) or p.items[i][0].startswith("JUMPI")]
                rep.check(not mid, "control leaves a block only at its end", key, f"in `{key}` instruction {mid} branches inside block {x}..{y}", b.span)
                heads = [i for i in body[1:] if p.items[i][0] == "JD" and (dyn or i in tgts)]
                rep.check(not heads, "control enters a block only at its start", key, f"in `{key}` destination {heads} is inside block {x}..{y}", b.span)
                t = body[-1]
                need = step(p, t, set())
                have = set(su or ())
                heads_of = {q[0]: j for j, q in enumerate(bl)}
                for w in sorted(need):
                    if w in dead:
                        continue
                    j = heads_of.get(w)
                    rep.check(j is not None and j in have, "every transfer is an edge", key, f"in `{key}` control goes from {t} to {w}, but block {x}..{y} has the successors {[bl[q][0] for q in have]}", b.span)
                extra = [q for q in have if bl[q][0] not in need]
                rep.check(not extra, "every edge is a transfer", key, f"in `{key}` block {x}..{y} has an edge to {[bl[q][0] for q in extra]}", b.span)
                rep.check(all(k in (bl[q][3] or ()) for q in have), "predecessors mirror successors", key, f"in `{key}` a successor of block {x}..{y} does not list it", b.span)
            for k, (x, y, su, pr) in enumerate(bl):
                rep.check(all(k in (bl[q][2] or ()) for q in (pr or ())), "predecessors mirror successors", key, f"in `{key}` block {x}..{y} lists a predecessor that does not lead to it", b.span)
    ps = programs()
    rep.floor("instruction-class sequences", len(ps), 300)
    par.pmap(rep, one, ps)


def order(prog, rep):
    """Pass order: no pass sees a stale control-flow graph, and the cost passes see the final program."""
    fn = "Bytecode::analyze"
    b = prog.fn(fn)
    AC = {x: cg.flag_bits(prog, x, "AnalysisConfig") for x in ("DEDUP", "DSE")}
    ev = lambda n: (lambda e, st, fr, a, site: note(st, (n, args_of(e, st, a)), UNIT))

    def args_of(e, st, a):
        return tuple(show(e.snap(st, x), 6)[:60] for x in a[1:])

    def note(st, x, r):
        st.flags = st.flags + (x,)
        return r
    NM = ("refresh_cfg", "block_analysis_local", "block_analysis", "dedup_blocks", "dead_store_elim", "calc_may_suspend", "construct_sections", "construct_memory_sections", "log_ir_stats", "log_const_input_stats")
    for d in (0, 1):
        for e_ in (0, 1):
            bits = AC["DEDUP"] * d | AC["DSE"] * e_
            calls = {"Bytecode::" + n: ev(n) for n in NM}
            calls["Clone::clone"] = lambda e, st, fr, a, site: note(st, ("clone", ()), mk("sym", "localcopy")) if "snapshots" in show(a[0]) else None
            selfv = bytecode(prog, [], config=cg.flags_term(prog, bits, "AnalysisConfig"))
            try:
                h, b = shape_run(prog, fn, selfv, {}, calls=calls)
            except m.Limit as u:
                return undecided(rep, "pass order", u, b.span)
            key = f"dedup={d}:dse={e_}"
            rep.check(len(h.res) > 0, "pass order", key, "no result", b.span)
            for r in h.res:
                L = [x for x in r[2] if x[0] in NM or x[0] == "clone"]
                n = [x[0] for x in L]
                pos = {x: n.index(x) for x in n}
                rep.check(all(x in pos for x in ("refresh_cfg", "block_analysis_local", "calc_may_suspend", "construct_sections", "construct_memory_sections")), "every required pass runs", key, f"the passes are {n}", b.span)
                stale, ok = True, True
                for x in n:
                    if x == "refresh_cfg":
                        stale = False
                    elif x in ("block_analysis_local", "block_analysis", "dedup_blocks"):
                        ok &= not stale
                        stale = True
                    elif x in ("dead_store_elim", "construct_sections", "construct_memory_sections", "calc_may_suspend"):
                        ok &= not stale
                rep.check(ok, "no pass sees a stale graph", key, f"the passes are {n}", b.span)
                last = max([pos.get(x, -1) for x in ("block_analysis", "dedup_blocks", "dead_store_elim")] + [max([i for i, x in enumerate(n) if x == "refresh_cfg"], default=-1)])
                rep.check(all(pos.get(x, -1) > last for x in ("construct_sections", "construct_memory_sections", "calc_may_suspend")), "costs are computed for the final program", key, f"the passes are {n}", b.span)
                rep.check(("dedup_blocks" in pos) <= bool(d) and ("dead_store_elim" in pos) <= bool(e_), "optional passes are optional", key, f"the passes are {n}", b.span)
                if "block_analysis" in pos:
                    rep.check("clone" in pos and pos["block_analysis_local"] < pos["clone"] < pos["block_analysis"], "block-local facts are saved before they are overwritten", key, f"the passes are {n}", b.span)
                    for x in L:
                        if x[0] in ("block_analysis", "dedup_blocks"):
                            rep.check(len(x[1]) == 1 and "localcopy" in x[1][0], "later passes get the block-local facts", key + ":" + x[0], f"{x[0]} is given {x[1]}", b.span)
                if "dead_store_elim" in pos and "dedup_blocks" in pos:
                    rep.check(pos["dedup_blocks"] < pos["dead_store_elim"], "merging precedes store removal", key, f"the passes are {n}", b.span)


def suspend(prog, rep):
    fn = "Bytecode::calc_may_suspend"
    F = flagset(prog)

    def one(rep, it):
        ops, dead = it
        selfv = bytecode(prog, [cg.inst(prog, c, F["DEAD_CODE"] if i in dead else 0, data=K(0)) for i, c in enumerate(ops)], may_suspend=K(0))
        try:
            h, b = shape_run(prog, fn, selfv, {})
        except m.Limit as u:
            return undecided(rep, "suspension", u, prog.fn(fn).span)
        nm = [evm.OPS[c].name for c in ops]
        want = any(n in ("CALL", "CALLCODE", "DELEGATECALL", "STATICCALL", "CREATE", "CREATE2") and i not in dead for i, n in enumerate(nm))
        rep.check(len(h.res) > 0, "suspension", f"{nm}", "no result", b.span)
        for r in h.res:
            g = field(r[3]["self"], "may_suspend")
            rep.check(is_k(g) and bool(g.a[0]) >= want, "suspension is noticed", f"{nm}:{sorted(dead)}", f"a program with {nm} (dead {sorted(dead)}) is compiled as if it {'could' if want else 'could not'} not suspend: {show(g)}", b.span)
    allops = sorted(evm.OPS)
    par.pmap(rep, one, [((c,), ()) for c in allops] + [((CODE["ADD"], CODE["CALL"]), ()), ((CODE["CALL"], CODE["ADD"]), ()), ((CODE["CALL"], CODE["CREATE"]), (0,)), ((CODE["CALL"],), (0,))])


def cfg(prog, rep):
    for f in (graph, order, suspend):
        f(prog, rep)
