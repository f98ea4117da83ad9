"""The instruction table and the bytecode parser, decided cell by cell by conditional constant propagation."""
import cg
import par
import evm
import mirlib as m
from terms import FALSE, K, T, TRUE, contains, is_k, mk, show, subterms

UNKNOWN, DYNAMIC, DISABLED, MASK = 1 << 31, 1 << 30, 1 << 29, 0xFFFF
NONE = m.NONE
NAMES = {"SHL": None}


def name(code):
    o = evm.OPS.get(code)
    return o.name if o else f"0x{code:02x}"


def cells(prog):
    for n, s in prog.statics.items():
        b = s.get("bytes")
        if b and len(b) == 15 * 256 * 4 * 2 and "bytecode::info" in n:
            raw = bytes.fromhex(b)
            return n, [[int.from_bytes(raw[(f * 256 + c) * 4:][:4], "little") for c in range(256)] for f in range(15)]
    raise m.Missing("the static instruction table (15 forks x 256 opcodes)")


def ref_cell(f, c):
    """(class, gas, dynamic) of one cell."""
    o = evm.OPS.get(c)
    fork = evm.FORKS[f]
    if o is None:
        return ("unknown", 0, False)
    if not o.enabled(fork):
        return ("disabled", 0, False)
    return ("on", o.static_gas(fork), o.dyn is not None)


def info_term(prog, v):
    p = cg.path_of(prog, "OpcodeInfo")
    a = prog.adts[p]["variants"][0]
    fs = tuple(f[0] if isinstance(f, (list, tuple)) else f["name"] for f in a["fields"])
    return mk("adt", p, 0, a["name"], fs, K(v))


def k(res):
    v = cg.only(res)
    return v.a[0] if v is not None and v.op == "k" else None


def pair(v):
    if v is not None and v.op == "tuple" and len(v.a) == 2 and all(is_k(x) for x in v.a):
        return (v.a[0].a[0], v.a[1].a[0])
    return None


def opt(v):
    """None / python value of a constant Option."""
    if v is None or v.op != "adt":
        return "?"
    if v.a[2] == "None":
        return None
    x = v.a[4]
    return x.a[0] if is_k(x) else pair(x)


def table(prog, rep):
    nm, tab = cells(prog)
    accessors = {}
    fns = {n: prog.fn(f"OpcodeInfo::{n}") for n in ("is_unknown", "is_disabled", "base_gas", "is_dynamic")}
    for v in {x for r in tab for x in r}:
        accessors[v] = {n: k(cg.run(prog, b, {1: info_term(prog, v)})[0]) for n, b in fns.items()}
    for f in range(15):
        for c in range(256):
            cls, gas, dyn = ref_cell(f, c)
            a = accessors[tab[f][c]]
            where = f"{fns['is_unknown'].file} (table {nm})"
            key = f"{evm.FORKS[f]}:{name(c)}"
            rep.check(a["is_unknown"] == (cls == "unknown"), "opcode known", key,
                      f"under {evm.FORKS[f]}, {name(c)} is {'un' if a['is_unknown'] else ''}known to the compiler", where)
            if cls == "unknown":
                continue
            rep.check(a["is_disabled"] == (cls == "disabled"), "opcode availability", key,
                      f"under {evm.FORKS[f]}, {name(c)} is {'disabled' if a['is_disabled'] else 'enabled'} in the compiler's table", where)
            if cls == "on":
                rep.check(a["base_gas"] == gas, "constant gas", key,
                          f"under {evm.FORKS[f]}, {name(c)} costs {a['base_gas']} constant gas in the compiler's table, {gas} in the EVM", where)
                rep.check(a["is_dynamic"] == dyn, "dynamic marking", key, f"under {evm.FORKS[f]}, {name(c)} dynamic gas flag is {a['is_dynamic']}", where)
    rep.floor("table cells", 15 * 256, 3840)
    # the table is indexed by the fork
    om = prog.fn("info::op_info_map")
    sp = prog.enum_path("SpecId") if any(p.endswith("SpecId") for p in prog.adts) else None
    res, e, h = cg.run(prog, om)
    for _, v, _ in res:
        ok = contains(v, lambda t: t.op in ("static",)) and (contains(v, lambda t: t.op == "arg" and t.a[0] == 1)
                                                             or "arg1" in show(v, 20))
        rep.check(ok, "table indexed by fork", "op_info_map", f"the per-fork table is looked up as {show(v, 12)[:200]}, not by the requested fork", om.span)
    # stack effects and immediates
    io = prog.fn("opcode::compute_stack_io")
    sio = prog.fn("opcode::stack_io")
    il = prog.fn("opcode::min_imm_len")
    for c in range(256):
        o = evm.OPS.get(c)
        if o is None:
            continue
        if o.i is not None:
            for imm in (NONE, m.some(cg.ref(mk("array", *[K(0x5B)] * max(1, o.imm))))):
                res, _, _ = cg.run(prog, io, {1: K(c), 2: imm}, calls={"opcode::stack_io": lambda e, s, f, a, si: mk("sio", a[0])})
                v = cg.only(res)
                rep.check(v is not None and v == mk("sio", K(c)), "stack effect from the opcode table", o.name,
                          f"the stack effect of {o.name} is computed as {show(v)[:200] if v else 'several values'}", io.span)
    for c, want in ((0x01, None), (0x60, None), (0xF1, None)):
        for b, fs in ((sio, ("inputs", "outputs")), (il, ("immediate_size",))):
            res, _, _ = cg.run(prog, b, {1: K(c)})
            got = [show(v, 12) for _, v, _ in res]
            for g, fcts in zip(got, [f for f, _, _ in res]):
                zero = g in ("0", "(0, 0)")
                ok = zero or all(f in g for f in fs) and "OPCODE_INFO" in g and (f"[{c}]" in g or f", {c})" in g)
                if zero:
                    continue
                # order
                if ok and len(fs) == 2:
                    ok = g.index("inputs") < g.index("outputs")
                rep.check(ok, "opcode table accessors", b.short, f"{b.short}({name(c)}) yields {g[:200]}", b.span)
            rep.check(any(g not in ("0", "(0, 0)") for g in got), "opcode table accessors", b.short + ":used", f"{b.short} never reads the opcode table", b.span)
    ds, dp = prog.fn("opcode::decode_single"), prog.fn("opcode::decode_pair")
    for x in range(256):
        s, p = evm.decode_single(x), evm.decode_pair(x)
        rep.check(opt(cg.only(cg.run(prog, ds, {1: K(x)})[0])) == s, "single immediate", f"0x{x:02x}", f"immediate 0x{x:02x} of DUPN/SWAPN decodes wrongly", ds.span)
        rep.check(opt(cg.only(cg.run(prog, dp, {1: K(x)})[0])) == p, "pair immediate", f"0x{x:02x}", f"immediate 0x{x:02x} of EXCHANGE decodes wrongly", dp.span)
        imm = m.some(cg.ref(mk("array", K(x))))
        for nm2, want in (("DUPN", (s, s + 1) if s is not None else (0, 0)), ("SWAPN", (s + 1, s + 1) if s is not None else (0, 0)),
                          ("EXCHANGE", (p[1] + 1, p[1] + 1) if p is not None else (0, 0))):
            got = pair(cg.only(cg.run(prog, io, {1: K(evm.BY_NAME[nm2].code), 2: imm})[0]))
            rep.check(got == want, "deep stack effect", f"{nm2}:0x{x:02x}", f"{nm2} 0x{x:02x} takes {got} stack items, expected {want}", io.span)
    for nm2, want in (("DUPN", (145, 146)), ("SWAPN", (146, 146)), ("EXCHANGE", None)):
        p0 = evm.decode_pair(0)
        want = want or (p0[1] + 1, p0[1] + 1)
        got = pair(cg.only(cg.run(prog, io, {1: K(evm.BY_NAME[nm2].code), 2: NONE})[0]))
        rep.check(got == want, "truncated deep immediate", nm2, f"{nm2} at the end of code takes {got}, expected {want}", io.span)
    rep.sample("table: 15 forks x 256 opcodes, flags and constant gas")
    rep.sample("EIP-8024 immediates: 256 single, 256 pair, 768 stack effects")


# --- parser -------------------------------------------------------------------------------------------------------------

class Parse:
    """One symbolic step of the parser: the iterator yields one given instruction at `pc`, then nothing."""

    def __init__(self, prog):
        self.p = prog
        self.b = prog.fn("Bytecode::new_mono")
        self.op = cg.path_of(prog, "Opcode")

    def run(self, op, cls, imm, gas=7):
        prog = self.p
        v = {"unknown": UNKNOWN, "disabled": DISABLED | gas, "on": gas}[cls]
        infos = cg.ref(mk("array", *[info_term(prog, v if c == op else gas) for c in range(256)]))
        pc = mk("sym", "pc")

        def nxt(e, st, fr, a, site):
            if "it" in st.flags:
                return NONE
            st.flags = st.flags + ("it",)
            o = mk("adt", self.op, 0, "Opcode", ("opcode", "immediate"), K(op), NONE if imm is None else m.some(cg.ref(mk("array", K(imm)))))
            return m.some(mk("tuple", pc, o))

        def rec(n, ret=None):
            def f(e, st, fr, a, site):
                st.flags = st.flags + ((n,) + tuple(e.snap(st, x) for x in a[1:]),)
                return ret
            return f

        def last(e, st, fr, a, site):
            for x in reversed(st.flags):
                if x[0] == "push" and x[1].op == "adt":
                    return m.some(cg.ref(x[1]))
            return NONE
        calls = {
            "Iterator::next": nxt, "IndexVec::push": rec("push"), "Vec::push": rec("push"), "BitSlice::set": rec("set"), "BitVec::set": rec("set"),
            "BitSlice::replace": rec("set"), "HashMap::insert": rec("insert"), "OpcodesIterWithPc::rewind": rec("rewind"),
            "info::op_info_map": lambda e, s, f, a, si: infos,
            "U256Imm::new": lambda e, s, f, a, si: mk("imm", e.snap(s, a[0])), "U256Imm::to_raw": lambda e, s, f, a, si: e.snap(s, a[0]),
            "IndexSlice::last": last, "slice::last": last, "Option::unwrap_or_else": lambda e, s, f, a, si: mk("sym", "gas_params"),
            "opcode::stack_io": lambda e, s, f, a, si: mk("tuple", mk("sin", a[0]), mk("sout", a[0])),
            "opcode::min_imm_len": lambda e, s, f, a, si: K(evm.OPS[a[0].a[0]].imm if a[0].a[0] in evm.OPS else 0),
            "IndexVec::next_idx": lambda e, s, f, a, si: mk("sym", "inst"), "IndexSlice::next_idx": lambda e, s, f, a, si: mk("sym", "inst"),
        }
        return cg.run(prog, self.b, calls=calls)


def parse(prog, rep):
    P = Parse(prog)
    where = P.b.span
    flag = {n: cg.flag_bits(prog, n) for n in ("UNKNOWN", "DISABLED")}

    def one(rep, c):
        n = 0
        o = evm.OPS.get(c)
        classes = ["unknown"] if o is None else ["on", "disabled"]
        for cls in classes:
            deep = o is not None and o.i is None
            imms = [None]
            if deep and cls == "on":
                imms = [None] + list(range(256))
            for imm in imms:
                key = f"{name(c)}:{cls}" + ("" if imm is None else f":0x{imm:02x}")
                res, e, h = P.run(c, cls, imm)
                rep.check(len(res) > 0, "parser step", key, "the parser step has no path to its end", where)
                for fcts, v, fl in res:
                    n += 1
                    step(prog, rep, key, c, o, cls, imm, fl, v, flag, where, fcts)
        rep.count("parser paths", n)
    par.pmap(rep, one, list(range(0xE0, 0x100)) + list(range(0xE0)))
    rep.floor("parser paths", rep.counts.get("parser paths", 0), 1200)
    structure(prog, rep)
    rep.sample("one parser step for each of 256 opcodes x {enabled, disabled, unknown} and 257 deep-stack immediates")


def is_pc(t):
    while t.op == "cast":
        t = t.a[1]
    return t == mk("sym", "pc")


def step(prog, rep, key, c, o, cls, imm, fl, v, flag, where, fcts):
    pushes = [x[1] for x in fl if x[0] == "push" and x[1].op == "adt"]
    pcs = [x[1] for x in fl if x[0] == "push" and x[1].op != "adt"]
    ins = [x for x in fl if x[0] == "insert"]
    sets = [x for x in fl if x[0] == "set"]
    rew = [x for x in fl if x[0] == "rewind"]
    if not rep.check(len(pushes) >= 1, "instruction recorded", key, "the parsed instruction is not recorded", where):
        return
    d = {nm: val for nm, val in zip(pushes[0].a[3], pushes[0].a[4:])}
    rep.check(d["opcode"] == K(c), "opcode recorded", key, f"recorded with opcode {show(d['opcode'])}", where)
    fb = d["flags"]
    while fb.op == "adt":
        fb = fb.a[4]
    want = {"on": 0, "unknown": flag["UNKNOWN"], "disabled": flag["DISABLED"]}[cls]
    rep.check(is_k(fb) and fb.a[0] == want, "availability flags", key, f"{name(c)} ({cls}) is recorded with flags {show(fb)}, expected {want}", where)
    gas = d["base_gas"]
    rep.check(gas == K(7 if cls == "on" else 0), "base gas recorded", key, f"{name(c)} ({cls}) is recorded with base gas {show(gas)}", where)
    sio = d["stack_io"]
    if cls != "on":
        wio = mk("tuple", K(0), K(0))
    elif o.i is None:
        x = 0 if imm is None else imm
        if o.name == "EXCHANGE":
            p = evm.decode_pair(x)
            w = (p[1] + 1, p[1] + 1) if p else (0, 0)
        else:
            s = evm.decode_single(x)
            w = (0, 0) if s is None else (s, s + 1) if o.name == "DUPN" else (s + 1, s + 1)
        wio = mk("tuple", K(w[0]), K(w[1]))
    else:
        wio = mk("tuple", mk("sin", K(c)), mk("sout", K(c)))
    rep.check(sio == wio, "stack effect recorded", key, f"{name(c)} ({cls}) is recorded with stack effect {show(sio)[:120]}", where)
    # data
    data = d["data"]
    nm = o.name if o else ""
    if nm in ("PC", "JUMPDEST"):
        rep.check(is_pc(data), "position recorded", key, f"{nm} records {show(data)[:120]} as its position", where)
    elif (nm.startswith("PUSH") or nm in ("DUPN", "SWAPN", "EXCHANGE")) and cls == "on":
        push_value(rep, key, o, data, where, fcts)
    # position maps
    rep.check(len(ins) == 1 and is_pc(ins[0][1]) and ins[0][2] == mk("sym", "inst"), "position map", key,
              f"position map entries: {[show(x[1])[:60] + '->' + show(x[2])[:60] for x in ins]}", where)
    rep.check(len(pcs) >= 1 and is_pc(pcs[0]), "position list", key, f"recorded positions: {[show(x)[:80] for x in pcs]}", where)
    # jump destinations
    if nm == "JUMPDEST":
        rep.check(len(sets) == 1 and is_pc(sets[0][1]) and sets[0][2] == TRUE, "jump destination marked", key,
                  f"JUMPDEST marks {[show(x[1])[:60] + '=' + show(x[2]) for x in sets]}", where)
    else:
        rep.check(not [x for x in sets if x[2] != FALSE], "only JUMPDEST is a destination", key, f"{name(c)} is marked as a jump destination", where)
    # unmasked immediates
    want_rw = o is not None and o.i is None and cls == "on" and imm is not None and 0x5B <= imm <= 0x7F
    opt_rw = o is not None and o.i is None and cls == "on" and imm is not None and (evm.decode_pair(imm) if nm == "EXCHANGE" else evm.decode_single(imm)) is None
    if want_rw:
        rep.check(len(rew) == 1 and rew[0][1] == K(1), "immediate byte not masked", key,
                  f"{name(c)} 0x{imm:02x}: the byte is not re-read as an instruction, so jump destinations after it differ from the EVM's", where)
    elif not opt_rw:
        rep.check(not rew, "immediates consumed once", key, f"{name(c)} ({cls}) re-reads {[show(x[1]) for x in rew]} bytes", where)
    # padding
    falls = cls == "on" and nm not in evm.TERMINATING and nm != "JUMP"
    pads = [p for p in pushes[1:]]
    if falls:
        ok = len(pads) == 1 and len(pcs) == 2
        rep.check(ok, "implicit stop", key, f"code ending in {name(c)} gets {len(pads)} instructions after it, expected one implicit STOP", where)
        if ok:
            dd = {a: b for a, b in zip(pads[0].a[3], pads[0].a[4:])}
            rep.check(dd["opcode"] == K(0), "implicit stop opcode", key, f"code ending in {name(c)} is padded with {show(dd['opcode'])}", where)
            rep.check(show(pcs[1], 20).count("len(") == 1 and "sym" not in show(pcs[1], 20), "implicit stop position", key,
                      f"the implicit STOP is placed at {show(pcs[1])[:120]}", where)
    else:
        rep.check(all(is_k(dict(zip(p.a[3], p.a[4:]))["opcode"]) and dict(zip(p.a[3], p.a[4:]))["opcode"].a[0] == 0 for p in pads),
                  "implicit stop opcode", key, "padding is not STOP", where)


def push_value(rep, key, o, data, where, fcts):
    """The immediate is the bytes after the opcode, right-padded with zeros to the immediate's length, big-endian."""
    if not rep.check(data.op == "imm", "immediate interned", key, f"{o.name} records {show(data)[:120]}", where):
        return
    v = data.a[0]
    s = show(v, 40)
    if o.imm == 0:
        rep.ob("immediate value")
        return
    if v == K(0) or "ZERO" in s:
        # only when no byte of the immediate is there
        rep.ob("immediate value")
        ft = " ".join(f"{show(a, 30)}={b}" for a, b in fcts.items())
        empty = "discr(slice::get" in ft or "len(" in ft
        rep.check(empty, "empty immediate", key, f"{o.name} becomes 0 under conditions that do not say its bytes are missing: {ft[:200]}", where)
        return
    ok = "from_be_slice" in s or "from_be_bytes" in s or "try_from_be_slice" in s
    rep.check(ok, "immediate value", key, f"{o.name} pushes {s[:200]}", where)
    rep.check("bin(Add, 1, sym(pc))" in s or "bin(Add, sym(pc), 1)" in s, "immediate start", key, f"{o.name}'s immediate is not read from the byte after the opcode: {s[:240]}", where)
    padded = "copy_from_slice" in s or "copied" in s
    if padded:
        # big-endian over exactly imm bytes of a zeroed buffer whose head holds the bytes there are
        rep.check(f"RangeTo{{end: {o.imm}}}" in s or f"end: {o.imm}" in s, "immediate right-padded", key,
                  f"a truncated {o.name} is not padded on the right to {o.imm} bytes: {s[:240]}", where)


def structure(prog, rep):
    # validity of a destination is exactly the parser's marking
    b = prog.fn("Bytecode::is_valid_jump")
    res, _, _ = cg.run(prog, b)
    txt = " | ".join(show(v, 30) for _, v, _ in res) + " ".join(show(t, 30) for f, _, _ in res for t in f)
    rep.check("jumpdests" in txt and "arg2" in txt, "validity reads the marking", "is_valid_jump", f"a destination's validity is {txt[:200]}", b.span)
    for f, v, _ in res:
        if v == TRUE:
            t = " ".join(f"{show(a, 30)}={x}" for a, x in f.items())
            rep.check("jumpdests" in t, "validity reads the marking", "is_valid_jump:true", f"a destination is valid when {t[:200]}", b.span)
    # the iterators: immediates of available instructions are consumed, others have none
    nx = [x for x in prog.bodies.values() if x.kind == "Closure" and "OpcodesIter" in x.name and "WithPc" not in x.name and x.name.split("::{closure")[0].endswith("next")]
    nx = [x for x in nx if "promoted" not in x.id]
    it = [x for x in prog.bodies.values() if x.short == "Iterator::next" and "OpcodesIter<" in x.name and "promoted" not in x.id]
    if not it:
        raise m.Missing("OpcodesIter::next")
    it = it[0]
    for cls, v in (("on", 3), ("disabled", DISABLED | 3), ("unknown", UNKNOWN)):
        for c, ln in ((0x60, 1), (0x7F, 32), (0x01, 0)):
            me = cg.struct(prog, cg.path_of(prog, "OpcodesIter"), info=cg.ref(mk("array", *[info_term(prog, v)] * 256)))
            ev = []

            def cnt(e, st, fr, a, site, k=None):
                st.flags = st.flags + (("consume", tuple(e.snap(st, x) for x in a[1:])),)
                return None

            def inner(e, st, fr, a, site):
                return m.some(cg.ref(K(c)))
            env = {}
            calls = {"Iterator::next": inner, "slice::next": inner, "Iter::next": inner, "Iterator::take": cnt, "Iterator::nth": cnt, "Iterator::advance_by": cnt,
                     "Iterator::skip": cnt, "slice::split_at": cnt,
                     "opcode::min_imm_len": lambda e, s, f, a, si: K(ln)}
            res, _, _ = cg.run(prog, it, {1: cg.ref(me)}, calls=calls)
            key = f"{name(c)}:{cls}"
            rep.check(bool(res), "iterator step", key, "no path", it.span)
            for f, val, fl in res:
                if val.op != "adt" or val.a[2] != "Some":
                    continue
                oc = dict(zip(val.a[4].a[3], val.a[4].a[4:])) if val.a[4].op == "adt" else {}
                immv = oc.get("immediate")
                cons = [x for x in fl if x[0] == "consume"]
                if cls == "on" and ln:
                    rep.check(immv is not None and immv != NONE and str(ln) in show(immv, 20), "iterator immediate", key, f"immediate is {show(immv)[:160] if immv else None}", it.span)
                    rep.check(any(K(ln) in x[1] or K(ln - 1) in x[1] for x in cons), "iterator consumes the immediate", key, f"after {name(c)} the iterator skips {[[show(y)[:40] for y in x[1]] for x in cons]}", it.span)
                else:
                    rep.check(immv == NONE and not cons, "iterator immediate", key, f"{name(c)} ({cls}) has immediate {show(immv)[:160] if immv else None}", it.span)
