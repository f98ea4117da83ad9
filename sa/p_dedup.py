"""P15: block merging. dedup_blocks (with refresh_cfg before and after, as in the pass order) is abstractly interpreted on a family of
programs; the merged program must simulate the original one from every entry: same instructions and immediates, transfers to blocks that
correspond, every run-time jump value still dispatched, and no fact that holds for only one of the merged blocks."""
import itertools
import random

import cg
import evm
import mirlib as m
import par
import shapes
import teval
from mirlib import K, is_k, mk
from p_blocks import DSELF, bytecode, const, cset, field, shape_run, stack_io, top, undecided
from p_sections import flagset

CODE = {o.name: c for c, o in evm.OPS.items()}
REACH = 1 << 31
LOC = mk("sym", "local_snapshots")
IMM = {"PUSH", "DUPN", "SWAPN", "EXCH"}


class Prog:
    """items: (class, argument); blocks of the generator are remembered only for naming."""

    def __init__(self, items, ctx):
        self.items, self.ctx, self.n = items, ctx, len(items)

    def key(self):
        return " ".join(c + ("" if a is None else ">" + ",".join(map(str, a)) if isinstance(a, tuple) else f"#{a:x}") for c, a in self.items)


SPEC = {"OP": ("ADD", ()), "MUL": ("MUL", ()), "CDL": ("CALLDATALOAD", ()), "JD": ("JUMPDEST", ()), "STOP": ("STOP", ()), "REV": ("REVERT", ()), "PC": ("PC", ()), "GAS": ("GAS", ()), "CALL": ("CALL", ()),
        "PUSH": ("PUSH2", ()), "PUSH0": ("PUSH0", ()), "DUPN": ("DUPN", ()), "SWAPN": ("SWAPN", ()), "EXCH": ("EXCHANGE", ()), "UNK": ("ADD", ("UNKNOWN",)),
        "JUMPs": ("JUMP", ("STATIC_JUMP",)), "JUMPm": ("JUMP", ("STATIC_JUMP", "MULTI_JUMP")), "JUMPi": ("JUMP", ("STATIC_JUMP", "INVALID_JUMP")), "JUMPd": ("JUMP", ()),
        "JUMPIs": ("JUMPI", ("STATIC_JUMP",)), "JUMPIm": ("JUMPI", ("STATIC_JUMP", "MULTI_JUMP")), "JUMPIi": ("JUMPI", ("STATIC_JUMP", "INVALID_JUMP")), "JUMPId": ("JUMPI", ()),
        "JUMPIc": ("JUMPI", ("STATIC_JUMP", "CONST_JUMP_CONDITION")), "JUMPIx": ("JUMPI", ("STATIC_JUMP", "INVALID_JUMP", "CONST_JUMP_CONDITION"))}
STOPS = ("STOP", "REV", "UNK", "JUMPs", "JUMPm", "JUMPi", "JUMPd", "JUMPIc", "JUMPIx")


def family():
    rnd = random.Random(41)
    bodies = [[("PUSH", 0x100)], [("PUSH", 0x1)], [("PUSH", 0x10000)], [("PUSH", 0x0101)], [("PUSH", 0)], [("OP", None)], [("MUL", None)], [("PC", None)], [("GAS", None)], [], [("DUPN", 0x80)], [("DUPN", 0x81)], [("SWAPN", 0x80)], [("EXCH", 0x8e)], [("EXCH", 0x8f)],
              [("OP", None), ("OP", None)], [("PUSH", 2), ("MUL", None)], [("CALL", None)], [("PUSH0", None)], [("CDL", None)], [("OP", None), ("PC", None), ("OP", None)]]
    ends = ["STOP", "STOP", "REV", "JUMPs", "JUMPs", "JUMPm", "JUMPi", "JUMPd", "JUMPIc", "JUMPIx", "JUMPIs", "UNK", "FALL", "JUMPIm", "JUMPIi"]
    wts = [6, 3, 3, 6, 3, 5, 2, 0.7, 2, 1, 4, 1, 2, 1, 1]
    out = []

    def near(body, end):
        """A block that differs in one respect."""
        body = list(body)
        k = rnd.randrange(len(body) + 1)
        if k == len(body):
            return body, rnd.choices(ends, wts)[0]
        c, a = body[k]
        alt = {"PUSH": lambda: ("PUSH", rnd.choice((0, 1, 0x100, 0x10000, 0x101, 2))), "DUPN": lambda: ("DUPN", rnd.choice((0x80, 0x81))), "SWAPN": lambda: ("SWAPN", rnd.choice((0x80, 0x81))), "EXCH": lambda: ("EXCH", rnd.choice((0x8e, 0x8f)))}
        body[k] = alt.get(c, lambda: rnd.choice([x for b in bodies for x in b]))()
        return body, end
    while len(out) < 1100:
        nb = rnd.randint(3, 7)
        pool = [(rnd.choice(bodies), rnd.choices(ends, wts)[0]) for _ in range(rnd.randint(1, 2))]
        pool += [near(*rnd.choice(pool)) for _ in range(rnd.randint(0, 2))]
        blocks = []
        for i in range(nb):
            body, end = rnd.choice(pool) if rnd.random() < 0.85 else (rnd.choice(bodies), rnd.choices(ends, wts)[0])
            blocks.append((i > 0 and rnd.random() < (0.55 if blocks and blocks[-1][2][:5] == 'JUMPI' else 0.8), list(body), end))
        jds = [i for i, b in enumerate(blocks) if b[0]]
        if len(jds) < 2:
            continue
        # the entry dispatches to the rest
        ent = rnd.choice(("JUMPm", "JUMPIs", "JUMPIm", "JUMPm", "JUMPm", "keep"))
        start, items, sel = {}, [], {}
        fav = rnd.sample(jds, 2)
        for i, (jd, body, end) in enumerate(blocks):
            start[i] = len(items)
            if jd:
                items.append(("JD", None))
            items += body
            if i == 0 and ent != "keep":
                end = ent
            if end in ("JUMPs", "JUMPIs", "JUMPIc"):
                items.append((end, (rnd.choice(fav if rnd.random() < 0.7 else jds),)))
            elif end in ("JUMPm", "JUMPIm"):
                items.append((end, tuple(rnd.sample(jds, len(jds) if i == 0 else 2) if rnd.random() < 0.6 else fav)))
            elif end == "FALL":
                if not body and not jd:
                    items.append(("OP", None))
            else:
                items.append((end, None))
        if items[-1][0] not in STOPS:
            items.append(("STOP", None))
        items = [(c, tuple(start[t] for t in a) if isinstance(a, tuple) else a) for c, a in items]
        out.append(Prog(items, {k: rnd.choice((100, 101, "T", 100 + k)) for k in range(len(items))}))
    T = lambda s: out.append(Prog(parse(s), {k: 100 for k in range(99)}))
    # a dispatch whose destinations were merged next to a plain jump to the merged block, in both orders
    T("JUMPm>1,3,5,9 JD JUMPs>5 JD JUMPm>5,7 JD STOP JD STOP JD STOP")
    T("JUMPm>1,3,5,9 JD JUMPm>5,7 JD JUMPs>5 JD STOP JD STOP JD STOP")
    T("JUMPm>1,3,5,9 JD JUMPm>5,7 JD JUMPm>7,9 JD STOP JD STOP JD STOP")
    T("JUMPm>1,3,5 JD JUMPi JD JUMPi JD STOP")
    T("JD STOP JD STOP")
    T("JUMPIs>3 OP STOP JD JUMPIs>7 OP STOP JD OP STOP")
    T("OP JUMPIs>4 OP STOP JD OP JUMPIs>9 OP STOP JD STOP")
    T("JUMPd JD STOP JD STOP")
    T("JUMPIs>4 JUMPIs>6 OP JUMPd JD STOP JD STOP OP STOP")
    T("JUMPIs>3 PUSH#1 STOP JD JUMPIs>7 PUSH#2 STOP JD JUMPIs>11 PUSH#1 STOP JD STOP")
    return out


def parse(s):
    r = []
    for w in s.split():
        c, _, a = w.partition(">")
        c2, _, im = c.partition("#")
        r.append((c2, tuple(int(x) for x in a.split(",")) if a else int(im, 16) if im else None))
    return r


def build(prog, p, F):
    insts, multi, gi, go, li, lo = [], [], [], [], [], []
    for i, (c, a) in enumerate(p.items):
        nm, fl = SPEC[c]
        flags = sum(F[x] for x in fl)
        data = a[0] if isinstance(a, tuple) and "MULTI_JUMP" not in fl else a if c in IMM else 5 + i if c == "JD" else 0
        insts.append(cg.inst(prog, CODE[nm], flags, data=K(data), stack_io=mk("tuple", *[K(x) for x in stack_io(CODE[nm], a if c in ("DUPN", "SWAPN", "EXCH") else None)])))
        if "MULTI_JUMP" in fl:
            multi += [K(i), mk("array", *[K(t) for t in a])]
        x = p.ctx[i]
        ctxv = top(prog) if x == "T" else cset(prog, 1) if x % 7 == 3 else const(prog, x)
        own = const(prog, 40 + len(nm)) if i % 1 == 0 else top(prog)
        gi.append(mk("array", ctxv, own))
        li.append(mk("array", top(prog), own))
        go.append(m.some(ctxv))
        lo.append(m.some(top(prog)))
    s = bytecode(prog, insts, [], [], gi, go, multi=multi)
    return s, cg.struct(prog, cg.path_of(prog, "Snapshots"), inputs=mk("array", *li), outputs=mk("array", *lo))


def mcalls(prog):
    def bytes_of(end):
        def f(e, st, fr, a, site):
            v = shapes.norm_idx(e, st, a[0])
            return mk("array", *[K(x) for x in v.a[0].to_bytes(4, end)]) if is_k(v) and 0 <= v.a[0] < 1 << 32 else None
        return f
    return {"opcode::min_imm_len": lambda e, s, f, a, si: K(evm.OPS[a[0].a[0]].imm if a[0].a[0] in evm.OPS else 0),
            "int::to_ne_bytes": bytes_of("little"), "int::to_le_bytes": bytes_of("little"), "int::to_be_bytes": bytes_of("big")}


def ref_le(x, y):
    """The fact y (of the merged code) is implied by the fact x."""
    if y.op != "adt" or y.a[2] == "Top":
        return y.op == "adt"
    return x == y


class Bad(Exception):
    pass


def simulate(p, st, F):
    I = field(st, "insts").a
    fl = [cg.bits_of(field(x, "flags")) for x in I]
    data = [field(x, "data").a[0] for x in I]
    red = field(st, "redirects")
    red = {k.a[0]: v.a[0] for k, v in zip(red.a[::2], red.a[1::2])}
    mt = field(st, "multi_jump_targets")
    mt = {k.a[0]: [t.a[0] for t in v.a] for k, v in zip(mt.a[::2], mt.a[1::2])}
    si, so = field(st, "snapshots", "inputs").a, field(st, "snapshots", "outputs").a
    if any(x is None for x in fl):
        raise teval.Unk("flags")

    def res(t):
        seen = set()
        while t in red:
            if t in seen:
                raise Bad(f"redirects from {t} form a cycle")
            seen.add(t)
            t = red[t]
        return t
    seen, work = set(), [(0, 0)]  # the entry is not looked up through redirects
    while work:
        o, f = work.pop()
        if (o, f) in seen or o >= p.n:
            continue
        seen.add((o, f))
        if f >= p.n:
            raise Bad(f"control that would be at {o} runs off the end")
        oc, oa = p.items[o]
        fc, fa = p.items[f]
        if fl[f] & F["DEAD_CODE"]:
            raise Bad(f"control that would be at {o} reaches the removed instruction {f}")
        if SPEC[oc][0] != SPEC[fc][0] or (oc in IMM and oa != fa) or ("UNKNOWN" in SPEC[oc][1]) != ("UNKNOWN" in SPEC[fc][1]):
            raise Bad(f"{oc} {oa} at {o} is replaced by {fc} {fa} at {f}")
        if oc == "PC" and o != f:
            raise Bad(f"PC at {o} is replaced by PC at {f}")
        yield ("snap", o, f, si[f], so[f])
        fall_o, fall_f = oc not in STOPS, fc not in STOPS and not (fl[f] & F["CONST_JUMP_CONDITION"])
        if fall_o != fall_f:
            raise Bad(f"{oc} at {o} and {fc} at {f} differ in falling through")
        if fall_o:
            work.append((o + 1, res(f + 1)))
        tg = oa if isinstance(oa, tuple) else None
        if SPEC[oc][0] in ("JUMP", "JUMPI"):
            inv = "INVALID_JUMP" in SPEC[oc][1]
            finv = bool(fl[f] & F["INVALID_JUMP"])
            st_f = bool(fl[f] & F["STATIC_JUMP"])
            if inv:
                if st_f and not finv:
                    raise Bad(f"the always-invalid jump at {o} is replaced by a valid one at {f}")
            elif tg is None:  # unresolved
                if st_f:
                    raise Bad(f"the unresolved jump at {o} is replaced by the resolved one at {f}")
                for d in range(p.n):
                    if p.items[d][0] == "JD":
                        if fl[d] & F["DEAD_CODE"]:
                            raise Bad(f"the unresolved jump at {o} can go to {d}, which is no longer a destination")
                        work.append((d, d))
            elif finv and st_f:
                raise Bad(f"the jump at {o} is replaced by an always-invalid one at {f}")
            elif st_f and fl[f] & F["MULTI_JUMP"]:
                for t in tg:
                    if t not in mt.get(f, ()):
                        raise Bad(f"the jump at {o} can go to {t}, which the dispatch at {f} does not list ({mt.get(f)})")
                    work.append((t, res(t)))
            elif st_f:
                for t in tg:
                    work.append((t, res(data[f])))
            else:
                work += [(t, res(t)) for t in tg]


def merging(prog, rep):
    F = flagset(prog)
    calls = mcalls(prog)

    def one(rep, p):
        key = p.key()
        sv, loc = build(prog, p, F)
        fn = "Bytecode::dedup_blocks"
        b = prog.fn(fn)
        try:
            h, _ = shape_run(prog, "Bytecode::refresh_cfg", sv, {}, max_steps=200000)
            outs = []
            for r in h.res:
                h2, _ = shape_run(prog, fn, r[3]["self"], {2: mk("ref", LOC, (), "not")}, env={LOC: loc}, calls=calls, max_steps=600000)
                for r2 in h2.res:
                    h3, _ = shape_run(prog, "Bytecode::refresh_cfg", r2[3]["self"], {}, max_steps=200000)
                    outs += [x[3]["self"] for x in h3.res]
        except m.Limit as u:
            return undecided(rep, "block merging", f"{key}: {u}", b.span)
        rep.check(len(outs) > 0, "block merging", key, f"no result for {key}", b.span)
        for st in outs:
            try:
                why = None
                for _, o, f, si, so in simulate(p, st, F):
                    x = field(sv, "snapshots", "inputs").a[o]
                    y = field(sv, "snapshots", "outputs").a[o]
                    if si.op != "array" or any(not ref_le(u, v) for u, v in zip(x.a, si.a)) or len(si.a) > len(x.a):
                        why = why or f"the operand facts kept for instruction {f} do not hold when it stands for {o}"
                    if not (so.op == "adt" and (so.a[2] == "None" or ref_le(y.a[4], so.a[4]))):
                        why = why or f"the result fact kept for instruction {f} does not hold when it stands for {o}"
                red = field(st, "redirects")
                rep.count("merged blocks", len(red.a) // 2)
            except Bad as w:
                why = str(w)
            except (teval.Unk, AttributeError, IndexError, TypeError) as u:
                return undecided(rep, "block merging", f"{key}: {u!r}", b.span)
            rep.check(why is None, "the merged program simulates the original", key, f"in `{key}` after merging: {why}", b.span)
    fam = family()
    rep.floor("programs", len(fam), 1100)
    par.pmap(rep, one, fam)
