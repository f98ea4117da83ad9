"""Reference semantics of every runtime-library entry point, as acceptors of effect traces.

For each entry point the acceptor says, in terms of the EVM operands (named, top of stack first), which charges, host
accesses, memory growth/accesses, result words, frame requests and exit codes a run must perform, in which order, and
under which branch conditions.  Each finding carries the *aspect* it concerns, so several properties share one pass.
"""
import bval
import mirlib as m
from btrace import builtins, trace
from terms import FALSE, K, T, TOP, TRUE, UNIT, contains, is_k, leaves, mk, show, subterms

MAX = 2**64 - 1
OPSYM = {"Add": "+", "Sub": "-", "Mul": "*", "BitAnd": "&", "BitOr": "|", "BitXor": "^", "Div": "/", "Rem": "%", "Shl": "<<", "Shr": ">>"}


class Reject(Exception):
    def __init__(self, aspect, msg, span=""):
        self.aspect, self.msg, self.span = {aspect} if isinstance(aspect, str) else set(aspect), msg, span


EVENT_ASPECT = {"charge": "gas", "gas": "gas", "expand": "memory", "mem": "memory", "host": "host"}


def widen(c, r):
    """A deviation belongs to every aspect it touches: what was due, what happened instead, and an exit that came early."""
    a = set(r.aspect)
    e = c.peek() if c is not None else None
    if any(x in r.msg for x in ("before `", "goes on to", "unexpected `", "not distinguish", "not distinguished", "before the static")):
        if e is not None:
            a.add("frame" if e[0] == "store" and "next_action" in c.S(e[1]) else EVENT_ASPECT.get(e[0], "result"))
        elif c is not None and c.p.exit[0] == "err":
            a.add("exit")
            if "Static" in (c.exit_code() or ""):
                a.add("static")
    return a


class Done(Exception):
    pass


# host methods that read the environment without any observable effect: order among them is free
ENV_READS = {"basefee", "blob_gasprice", "gas_limit", "difficulty", "prevrandao", "block_number", "timestamp", "beneficiary",
             "chain_id", "effective_gas_price", "caller", "blob_hash", "max_initcode_size", "slot_num", "gas_params",
             "is_amsterdam_eip8037_enabled"}
MEM_READS = {"len", "is_empty", "local_memory_offset", "context_memory_mut", "context_memory", "size"}
# state-changing host methods
MUTATORS = {"sstore", "sstore_skip_cold_load", "tstore", "log", "selfdestruct"}


class Ctx:
    def __init__(self, path, names, argnames):
        self.p = path
        self.names = names          # {(arg, word): operand name}
        self.argnames = argnames    # {arg: name}
        self._memo = {}
        self.guard = self._guards()
        self.truth = {}
        self.ne = {}
        for t, v in path.facts.items():
            if isinstance(v, int):
                self.truth[self.S(t)] = v
            else:
                self.ne[self.S(t)] = v[1]
        self.ev = [e for e in path.events if not self.skip(e)]
        self.i = 0
        self.need_static = False

    def skip(self, e):
        if e[0] == "host" and e[1] in ENV_READS:
            return True
        if e[0] == "mem" and e[1] in MEM_READS:
            return True
        if e[0] == "store" and e[2] in (("exit_result",), ("mem_base",), ("mem_len",)):
            return True
        if e[0] == "charge" and is_k(e[2]) and e[2].a[0] == 0:
            return True
        return False

    # ------------------------------------------------------------ rendering
    def _guards(self):
        """Words whose limbs 1..3 are known to be zero."""
        lim = {}
        for t, v in self.p.facts.items():
            if v == 0 and t.op == "idx" and is_k(t.a[1]):
                w = limbs_of(t.a[0])
                if w is not None:
                    lim.setdefault(w, set()).add(t.a[1].a[0])
        return {w for w, s in lim.items() if {1, 2, 3} <= s}

    def S(self, t):
        r = self._memo.get(t)
        if r is None:
            r = self._memo[t] = self._S(t)
        return r

    def _S(self, t):
        o, a, S = t.op, t.a, self.S
        if o == "k":
            return str(a[0])
        if o == "default":
            return "0"
        if o == "arg":
            return self.argnames.get(a[0], f"a{a[0]}")
        if o == "deref":
            return self.word(a[0]) or S(a[0])
        if o == "D":
            return self.word(a[0]) or S(a[0])
        if o == "ref":
            b = S(a[0])
            for p in a[1]:
                b += "." + (p[1] if p[0] != "i" else f"[{S(p[1])}]") if p[0] in ("f", "i") else ""
            return b
        if o in ("rv", "box"):
            return S(a[0])
        if o == "mut":
            return S(a[2])
        if o == "fld":
            b = a[0]
            if b.op == "var":
                if b.a[1] in ("Some", "Ok") and a[1] == "0":
                    c = b.a[0]
                    if c.op == "call" and c.a[0] in ("TryFrom::try_from", "TryInto::try_into"):
                        return f"u({S(c.a[2])})"
                    return S(c)
                return f"{S(b.a[0])}<{b.a[1]}>.{a[1]}"
            return f"{S(b)}.{a[1]}"
        if o == "idx":
            w = limbs_of(a[0])
            if w is not None and is_k(a[1]):
                if a[1].a[0] == 0:
                    return f"u({S(w)})" if w in self.guard else f"trunc({S(w)})"
                return f"limb{a[1].a[0]}({S(w)})"
            return f"{S(a[0])}[{S(a[1])}]"
        if o == "call":
            n, args = a[0], a[2:]
            ty, f = n.split("::") if n.count("::") == 1 else ("", n)
            if ty == "GasParams":
                return f"gp.{f}({','.join(S(x) for x in args[1:])})"
            if ty == "Gas":
                return f"gas.{f}"
            if ty == "Host":
                return f"host.{f}"
            if f in ("load_account_delegated",):
                return f"host.{f}"
            if n in ("Uint::from", "From::from", "Into::into") and len(args) == 1:
                return S(args[0])
            if n in ("Uint::saturating_to", "Uint::saturating_from"):
                return f"sat({S(args[0])})"
            if ty in ("SharedMemory", "MemoryTr"):
                return f"mem.{f}({','.join(S(x) for x in args[1:])})"
            if n in ("Bytes::new", "Bytes::default", "Default::default"):
                return "empty"
            if n in ("Bytes::copy_from_slice", "slice::to_vec", "Bytes::from", "ToOwned::to_owned", "Vec::from"):
                return S(args[0])
            if n in ("Ord::min", "int::min", "cmp::min"):
                return f"min({','.join(sorted(S(x) for x in args))})"
            if n in ("Ord::max", "int::max", "cmp::max"):
                return f"max({','.join(sorted(S(x) for x in args))})"
            if n == "int::saturating_add":
                return "(" + " sat+ ".join(sorted(S(x) for x in args)) + ")"
            if n == "SpecId::is_enabled_in":
                return f"spec>={S(args[1]).split('::')[-1]}" if S(args[0]) == "ecx.spec_id" else f"is_enabled_in({S(args[0])},{S(args[1])})"
            if f in ("into_word", "to_vec", "deref", "as_ref"):
                return S(args[0])
            return f"{f}({','.join(S(x) for x in args)})"
        if o == "bin":
            x, y = S(a[1]), S(a[2])
            if a[0] in ("Add", "Mul", "BitAnd", "BitOr", "BitXor"):
                x, y = sorted((x, y))
            return f"({x}{OPSYM.get(a[0], a[0])}{y})"
        if o == "lt":
            return f"({S(a[0])}<{S(a[1])})"
        if o == "eq":
            x, y = sorted((S(a[0]), S(a[1])))
            return f"({x}=={y})"
        if o == "not":
            return "!" + S(a[0])
        if o == "cast":
            return S(a[1]) if a[0] in ("u64", "usize", "u128", "u32") else f"cast({a[0]},{S(a[1])})"
        if o == "conv":
            return S(a[1])
        if o == "adt":
            nm = a[0].split("::")[-1]
            if len(a) == 4:
                return f"{nm}::{a[2]}"
            if nm in ("Option",) and a[2] == "Some":
                return f"Some({S(a[4])})"
            fs = ",".join(f"{n}:{S(x)}" for n, x in sorted(zip(a[3], a[4:])))
            return f"{nm}{'' if a[2] == nm else '::' + a[2]}{{{fs}}}"
        if o == "len":
            return f"len({S(a[0])})"
        if o == "phi":
            return "{" + "|".join(sorted(S(x) for x in a[0])) + "}"
        if o == "addr":
            return f"addr({S(a[0])})"
        if o == "w:from_be_bytes":
            return f"be({S(a[0])})"
        if o == "w:to_be_bytes":
            return f"tobe({S(a[0])})"
        if o == "padd":
            return f"{S(a[0])}+[{'-' if len(a) > 2 and a[2] == -1 else ''}{S(a[1])}]"
        if o == "bytes":
            return "0x" + a[0]
        if o == "discr":
            return f"discr({S(a[0])})"
        if o == "tuple":
            return "(" + ",".join(S(x) for x in a) + ")"
        return f"{o}({','.join(S(x) if x.__class__ is T else str(x) for x in a)})"

    def word(self, ptr):
        if ptr.op == "arg" and (ptr.a[0], 0) in self.names:
            return self.names[(ptr.a[0], 0)]
        if ptr.op == "padd" and ptr.a[0].op == "arg" and is_k(ptr.a[1]):
            return self.names.get((ptr.a[0].a[0], ptr.a[1].a[0]), f"word[{ptr.a[1].a[0]}]")
        return None

    # ------------------------------------------------------------ conditions
    def cond(self, *alts, aspect="operands"):
        """Truth of a condition on this path; alternatives are equivalent renderings ('!' negates)."""
        for c in alts:
            n = c.startswith("!")
            v = self.truth.get(c.lstrip("!"))
            if v is not None:
                return bool(v) != n
        raise Reject(aspect, f"the path does not distinguish `{alts[0]}`")

    def maybe(self, *alts):
        try:
            return self.cond(*alts)
        except Reject:
            return None

    def zero(self, x):
        return self.cond(f"(0=={x})", aspect=("operands", "memory"))

    # ------------------------------------------------------------ acceptance steps
    def peek(self):
        return self.ev[self.i] if self.i < len(self.ev) else None

    def at_end(self):
        return self.i >= len(self.ev)

    def exit_code(self):
        if self.p.exit[0] != "err":
            return None
        t = self.p.exit[1]
        return t.a[2] if t.op == "adt" else self.S(t)

    def fail_exit(self, code, aspect="exit", why=""):
        """The path must stop here with `code`."""
        if not self.at_end():
            e = self.peek()
            raise Reject(aspect, f"after {why or code} the function goes on to `{self.evs(e)}`", e[-1])
        if self.exit_code() != code:
            raise Reject(aspect, f"{why or 'failure'} must end in {code}, but ends in {self.exit_code() or 'success'}")
        raise Done()

    def evs(self, e):
        return " ".join([e[0]] + [self.S(x) if x.__class__ is T else str(x) if not isinstance(x, tuple) else "(" + ", ".join(self.S(y) if y.__class__ is T else str(y) for y in x) + ")" for x in e[1:-1]])

    def static_guard(self, code="StateChangeDuringStaticCall"):
        v = None
        for t, x in self.p.facts.items():
            if t.op == "fld" and t.a[1] == "is_static":
                v = x
        if v == 1:
            self.fail_exit(code, ("static", "exit"), "a state change inside a static call")
        if v is None:
            if self.at_end() and self.p.exit[0] == "err":
                raise Done()  # failed before reaching the state change
            raise Reject("static", "the static-call flag is not consulted on a path that changes state")
        self.need_static = True

    def usize(self, w):
        """Checked conversion of word w to a machine size; the failing branch ends in InvalidOperandOOG."""
        if self.exit_code() == "InvalidOperandOOG" and self.at_end():
            if self.over(w):
                raise Done()

    def over(self, w):
        """Facts say word w does not fit a machine size."""
        for s, v in self.truth.items():
            if v == 1 and ("limb1(" + w + ")" in s or s == f"discr(try_from({w}))") and "|" in s or (v == 1 and s == f"discr(try_from({w}))"):
                return True
        for s, ex in self.ne.items():
            if s in (f"limb1({w})", f"limb2({w})", f"limb3({w})") and 0 in ex:
                return True
        return False

    def is_sat(self, s, w):
        """s is word w saturated to a machine size, on this path."""
        return s in (f"u({w})", f"sat({w})") or (s == str(MAX) and self.over(w))

    def charge(self, amount, kind="regular", aspect="gas"):
        e = self.peek()
        amt = [amount] if isinstance(amount, str) else list(amount)
        if e is None or e[0] not in ("charge", "charge_fail"):
            if e is None and self.p.exit[0] == "err":
                raise Reject((aspect, "exit"), f"exits with {self.exit_code()} where `{amt[0]}` must be charged")
            raise Reject(aspect, f"`{amt[0]}` is not charged before `{self.evs(e) if e else 'success'}`", e[-1] if e else "")
        if e[1] != kind or self.S(e[2]) not in amt:
            raise Reject(aspect, f"charges {e[1]} `{self.S(e[2])}` where {kind} `{amt[0]}` is due", e[-1])
        if e[3] != "&*arg1.gas":
            raise Reject(aspect, f"charges a gas counter other than the frame's ({e[3]})", e[-1])
        self.i += 1
        if e[0] == "charge_fail":
            self.fail_exit("OutOfGas", ("exit", "gas"), f"failing to pay `{amt[0]}`")

    def expand(self, off, ln):
        e = self.peek()
        offs = [off] if isinstance(off, str) else off
        if e is None or e[0] not in ("expand", "expand_fail"):
            raise Reject("memory", f"memory is not grown to cover [{offs[0]}, +{ln}) before `{self.evs(e) if e else 'the end'}`", e[-1] if e else "")
        if e[0] == "expand_fail":
            self.i += 1
            if not self.at_end() or self.p.exit[0] != "err" or "resize_memory" not in self.exit_code():
                raise Reject(("exit", "memory"), "a failed memory growth does not end the frame with its own error", e[-1])
            raise Done()
        if e[3] != ("&*arg1.gas", "&**arg1.memory", "&*arg1.gas_params"):
            raise Reject(("memory", "gas"), "memory growth is not charged to the frame's gas / gas schedule", e[-1])
        if self.S(e[1]) not in offs or self.S(e[2]) != ln:
            raise Reject("memory", f"memory is grown for [{self.S(e[1])}, +{self.S(e[2])}) where [{offs[0]}, +{ln}) is accessed", e[-1])
        self.i += 1

    def host(self, name, *args, aspect="host"):
        """A host access; args are renderings or predicates (None = any)."""
        e = self.peek()
        if e is None or e[0] != "host" or e[1] != name:
            raise Reject(aspect, f"host access `{name}` missing before `{self.evs(e) if e else 'the end'}`", e[-1] if e else "")
        self.static_ev(e, name)
        got = [self.S(x) for x in e[2][1:]]
        for i, w in enumerate(args):
            if w is None:
                continue
            g = got[i] if i < len(got) else None
            ok = w(g, e[2][i + 1]) if callable(w) else (g in w if isinstance(w, (list, tuple)) else g == w)
            if not ok:
                raise Reject(aspect, f"`{name}` is passed `{g}` as argument {i + 1} where `{w if not callable(w) else 'the operand'}` is due", e[-1])
        self.i += 1
        return e

    def static_ev(self, e, name):
        if self.need_static and name in MUTATORS and e[3] != 0:
            raise Reject("static", f"`{name}` is reached before the static-call flag is known to be clear", e[-1])

    def opt(self, name, code="FatalExternalError"):
        """Result of the host access `name` is an Option: absent means a fatal database error."""
        d = self.truth.get(f"discr(host.{name})")
        ex = self.ne.get(f"discr(host.{name})", ())
        if d == 0 or 1 in ex:
            self.fail_exit(code, "exit", f"a failed `{name}`")
        if d != 1:
            raise Reject("exit", f"the failure of `{name}` is not distinguished")

    def res(self, name):
        """Result of the host access is a Result<_, LoadError>."""
        d = self.truth.get(f"discr(host.{name})")
        if d == 1:
            ee = self.truth.get(f"discr(host.{name}<Err>.0)")
            if ee is None:
                raise Reject("exit", f"the two failures of `{name}` are not distinguished")
            self.fail_exit("OutOfGas" if ee == LOADERR["ColdLoadSkipped"] else "FatalExternalError", "exit", f"a failed `{name}`")
        if d != 0:
            raise Reject("exit", f"the failure of `{name}` is not distinguished")

    def mem(self, names, *args):
        e = self.peek()
        names = [names] if isinstance(names, str) else names
        if e is None or e[0] != "mem" or e[1] not in names:
            raise Reject("memory", f"memory access `{names[0]}` missing before `{self.evs(e) if e else 'the end'}`", e[-1] if e else "")
        got = [self.S(x) for x in e[2][1:]]
        for i, w in enumerate(args):
            if w is None:
                continue
            g = got[i] if i < len(got) else None
            ok = w(g) if callable(w) else (g in w if isinstance(w, (list, tuple)) else g == w)
            if not ok:
                raise Reject("memory", f"memory `{e[1]}` is passed `{g}` where `{w if not callable(w) else 'the operand'}` is due", e[-1])
        self.i += 1

    def gasop(self, name, amount):
        e = self.peek()
        if e is None or e[0] != "gas" or e[1] != "Gas::" + name or self.S(e[2]) != amount:
            raise Reject("gas", f"`{name}({amount})` missing before `{self.evs(e) if e else 'the end'}`", e[-1] if e else "")
        self.i += 1

    def out(self, want, slot=None, aspect="result"):
        """The result word; the store to `slot` (operand name) must hold `want` (rendering(s) or predicate)."""
        e = self.peek()
        while e is not None and e[0] == "store" and self.i + 1 < len(self.ev) and self.ev[self.i + 1][0] == "store" and self.ev[self.i + 1][1] is e[1]:
            self.i += 1  # overwritten at once
            e = self.peek()
        if e is None or e[0] != "store":
            raise Reject(aspect, f"no result is written before `{self.evs(e) if e else 'the end'}`", e[-1] if e else "")
        loc = self.word(e[1]) or self.S(e[1])
        if slot is not None and (loc != slot or e[2]):
            raise Reject(aspect, f"the result is written to `{loc}{''.join('.' + x for x in e[2])}` instead of the slot of `{slot}`", e[-1])
        g = self.S(e[3])
        w = want
        ok = w(g, e[3]) if callable(w) else (g in w if isinstance(w, (list, tuple, set)) else g == w)
        if not ok:
            raise Reject(aspect, f"the result is `{g[:200]}` where `{w if not callable(w) else 'the specified value'}` is due", e[-1])
        self.i += 1
        return e

    def end(self):
        if not self.at_end():
            e = self.peek()
            raise Reject("extra", f"unexpected `{self.evs(e)}`", e[-1])
        if self.p.exit[0] != "ok":
            raise Reject("exit", f"must succeed here, but exits with {self.exit_code()}")
        self.refreshed()
        raise Done()

    def end_err(self, code):
        if not self.at_end():
            e = self.peek()
            raise Reject("extra", f"unexpected `{self.evs(e)}`", e[-1])
        got = self.exit_code()
        if got != code:
            raise Reject("exit", f"must end with {code}, but ends with {got or 'success'}")
        raise Done()

    def refreshed(self):
        """After the last growth the cached memory view is refreshed from the frame's memory."""
        last = max([i for i, e in enumerate(self.p.events) if e[0] == "expand"], default=None)
        if last is None:
            return
        seen = set()
        for e in self.p.events[last:]:
            if e[0] == "store" and e[2] in (("mem_base",), ("mem_len",)) and e[1].op == "arg":
                names = {x.a[0] for x in leaves(e[3]) if x.op == "callname"}
                if any("context_memory" in n for n in names):
                    seen.add(e[2][0])
        if seen != {"mem_base", "mem_len"}:
            raise Reject("memory", "memory was grown but the cached memory view the compiled code reads is not refreshed")


def limbs_of(t):
    while t.op in ("deref", "rv"):
        t = t.a[0]
    if t.op == "call" and t.a[0] in ("Uint::as_limbs", "Uint::into_limbs"):
        return t.a[2]
    return None


LOADERR = {"ColdLoadSkipped": 0, "DBError": 1}
SPECS = {}


def spec(name, ops=(), args=None, kinds=None, sp=2, anchor=None):
    def d(f):
        SPECS[name] = dict(f=f, ops=list(ops), args=args or {}, kinds=kinds, sp=sp)
        return f
    return d


# ------------------------------------------------------------------------------------------------ arithmetic
def _bin(fn_names, zero_guard=False):
    def f(c):
        if zero_guard:
            z = c.maybe("(0==b)")
            if z is True:
                c.out("0", "b")
                c.end()
        c.out([f"{n}(a,b)" for n in fn_names], "b")
        c.end()
    return f


spec("div", ["a", "b"])(_bin(["wrapping_div", "div"], True))
spec("mod", ["a", "b"])(_bin(["wrapping_rem", "rem"], True))
spec("sdiv", ["a", "b"])(_bin(["i256_div"]))
spec("smod", ["a", "b"])(_bin(["i256_mod"]))


@spec("addmod", ["a", "b", "n"])
def _(c):
    c.out(["add_mod(a,b,n)", "add_mod(b,a,n)"], "n")
    c.end()


@spec("mulmod", ["a", "b", "n"])
def _(c):
    c.out(["mul_mod(a,b,n)", "mul_mod(b,a,n)"], "n")
    c.end()


@spec("exp", ["base", "exponent"])
def _(c):
    c.charge("gp.exp_cost(exponent)")
    c.out(["pow(base,exponent)", "wrapping_pow(base,exponent)"], "exponent")
    c.end()


@spec("exp_gas", ["exponent"])
def _(c):
    c.charge("gp.exp_cost(exponent)")
    c.end()


KECCAK_EMPTY = "0xc5d2460186f7233c927e7db2dcc703c0e500b653ca82273b7bfad8045d85a470"


def keccak(c, off, ln, outslot, offw=None, lnw=None):
    if lnw:
        c.usize(lnw)
    if c.zero(ln):
        c.out([f"be({KECCAK_EMPTY})"], outslot)
        c.end()
    c.charge(f"gp.keccak256_cost({ln})")
    if offw:
        c.usize(offw)
    c.expand(off, ln)
    c.mem("slice", rng(off, ln))
    c.out(f"be(keccak256(mem.slice({RNG(off, ln)})))", outslot)
    c.end()


def RNG(off, ln):
    a, b = sorted((off, ln))
    return f"Range{{end:({a}+{b}),start:{off}}}"


def rng(off, ln):
    return RNG(off, ln)


@spec("keccak256", ["offset", "len"])
def _(c):
    keccak(c, "u(offset)", "u(len)", "len", "offset", "len")


@spec("keccak256_cc", [], args={2: "out", 3: "coff", 4: "clen"})
def _(c):
    # a constant offset always fits; the conversion round-trips through a word
    off = "coff" if not any("u(coff)" in c.S(e[1]) for e in c.ev if e[0] == "expand") else "u(coff)"
    if c.exit_code() == "InvalidOperandOOG" and (c.over("coff") or True):
        # infeasible: a 64-bit constant fits a machine size
        if any("limb1(coff)" in s for s in c.truth):
            raise Done()
    keccak(c, off, "clen", "out")


# ------------------------------------------------------------------------------------------------ accounts
def load_account(c, word, code):
    c.host("load_account_info_skip_cold_load", f"addr({word})", str(int(code)), "(gas.remaining<gp.cold_account_additional_cost())")
    c.res("load_account_info_skip_cold_load")
    if c.cond("host.load_account_info_skip_cold_load.is_cold", aspect="gas"):
        c.charge("gp.cold_account_additional_cost()")


@spec("balance", ["address"])
def _(c):
    load_account(c, "address", False)
    c.out(lambda s, t: fieldpath(s, "host.load_account_info_skip_cold_load", "balance"), "address")
    c.end()


def fieldpath(s, head, last):
    return s.startswith(head + ".") and s.split(".")[-1] == last


@spec("extcodesize", ["address"])
def _(c):
    load_account(c, "address", True)
    c.out(lambda s, t: s.startswith("len(") and "host.load_account_info_skip_cold_load." in s and ".code" in s and "hash" not in s, "address")
    c.end()


@spec("extcodehash", ["address"])
def _(c):
    load_account(c, "address", False)
    e = None
    for s, v in c.truth.items():
        if s.endswith(".is_empty") and s.startswith("host.load_account_info"):
            e = v
    if e is None:
        raise Reject("result", "emptiness of the account is not distinguished")
    if e:
        c.out(["0", "be(0)"], "address")
    else:
        c.out(lambda s, t: s.startswith("be(") and fieldpath(s[3:-1], "host.load_account_info_skip_cold_load", "code_hash"), "address")
    c.end()


@spec("extcodecopy", ["address", "moff", "coff", "len"])
def _(c):
    c.usize("len")
    c.charge("gp.extcodecopy(u(len))")
    z = c.zero("u(len)")
    if not z:
        c.usize("moff")
        c.expand("u(moff)", "u(len)")
    load_account(c, "address", True)
    if z and c.at_end():
        c.end()

    def coff(g):
        import re
        mm = re.fullmatch(r"min\((.*)\)", g)
        parts = [g]
        if mm:
            parts = [x for x in m.split_targs(mm.group(1)) if not x.startswith("len(")]
        return len(parts) == 1 and c.is_sat(parts[0], "coff")
    c.mem("set_data", "0" if z else "u(moff)", coff, "u(len)", lambda g: "host.load_account_info_skip_cold_load" in g and ".code" in g and "hash" not in g)
    c.end()


# ------------------------------------------------------------------------------------------------ environment
def _env(name, *want):
    @spec(name, [], args={2: "slot"})
    def f(c):
        c.out(list(want), "slot")
        c.end()


_env("origin", "be(host.caller)")
_env("gas_price", "host.effective_gas_price")
_env("coinbase", "be(host.beneficiary)")
_env("timestamp", "host.timestamp")
_env("number", "host.block_number")
_env("gaslimit", "host.gas_limit")
_env("chainid", "host.chain_id")
_env("basefee", "host.basefee")
_env("blob_base_fee", "host.blob_gasprice")
_env("slot_num", "host.slot_num")


@spec("difficulty", [], args={2: "slot"})
def _(c):
    c.out(["host.prevrandao", "be(host.prevrandao)"] if c.cond("spec>=MERGE") else "host.difficulty", "slot")
    c.end()


@spec("self_balance", [], args={2: "slot"})
def _(c):
    c.host("balance", "ecx.input.target_address")
    c.opt("balance")
    c.out("host.balance.data", "slot")
    c.end()


@spec("blob_hash", ["index"])
def _(c):
    arg = None
    for e in c.p.events:
        if e[0] == "host" and e[1] == "blob_hash":
            arg = c.S(e[2][1])
    if arg is None or not c.is_sat(arg, "index"):
        raise Reject("host", f"the blob index passed to the host is `{arg}`")
    d = c.truth.get("discr(host.blob_hash)")
    c.out(["0", "be(0)"] if d == 0 else ["host.blob_hash", "be(host.blob_hash)"], "index")
    c.end()


@spec("blockhash", ["number"])
def _(c):
    D = "checked_sub(host.block_number,number)"
    d = c.truth.get(f"discr({D})")
    if d is None:
        d = 0 if 1 in c.ne.get(f"discr({D})", ()) else None
    future = c.maybe("(host.block_number<number)")
    if future is None:
        if d is None:
            raise Reject("result", "future block numbers are not distinguished")
        future = d == 0
    if future:
        c.out("0", "number")
        c.end()
    if c.truth.get(f"discr(try_from({D}))") == 1:
        c.out("0", "number")
        c.end()
    U = f"u({D})"
    if c.maybe(f"(0=={U})") or c.maybe("(host.block_number==number)"):
        c.out("0", "number")
        c.end()
    if c.maybe(f"(0=={U})") is None and c.maybe("(host.block_number==number)") is None:
        raise Reject("result", "the current block's own number is not distinguished")
    if c.cond(f"(256<{U})", f"!({U}<257)"):
        c.out("0", "number")
        c.end()
    c.host("block_hash", lambda s, t: c.is_sat(s, "number"))
    c.opt("block_hash")
    c.out("be(host.block_hash)", "number")
    c.end()


# ------------------------------------------------------------------------------------------------ data copies
def cdl(c, off, outslot):
    """32 bytes of call data from `off`, zero padded."""
    L = None
    for e in c.p.facts:
        s = c.S(e)
        if e.op == "lt" and "input" in s:
            L = (s, c.truth[s], c.S(e.a[0]), c.S(e.a[1]))
    if L is None:
        raise Reject("result", "the offset is not compared with the length of the call data")
    s, v, a, b = L
    if not off(a) or "len(" not in b:
        raise Reject("result", f"call data bound check is `{s}`")
    if v == 0:
        c.out(["0", "be(0)"], outslot)
        c.end()

    def ok(g, t):
        cp = [x for x in subterms(t) if x.op == "copied"]
        if len(cp) != 1:
            return False
        src, cnt, old = (c.S(x) for x in cp[0].a)
        if a == str(MAX):
            return True  # infeasible: no call data is that long
        return (g.startswith("be(copied(") and src.endswith(f"+[{a}]") and "input" in src
                and cnt == f"min({','.join(sorted(('32', '(' + b + '-' + a + ')')))})" and old in ("0",))
    c.out(ok, outslot)
    c.end()


@spec("calldataload", ["offset"])
def _(c):
    cdl(c, lambda s: c.is_sat(s, "offset"), "offset")


@spec("calldataload_c", [], args={2: "out", 3: "coff"})
def _(c):
    cdl(c, lambda s: s == "coff", "out")


def copy_op(c, put):
    c.usize("len")
    if c.zero("u(len)"):
        c.end()
    c.charge("gp.copy_cost(u(len))")
    c.usize("moff")
    c.expand("u(moff)", "u(len)")
    put()
    c.end()


@spec("calldatacopy", ["moff", "doff", "len"])
def _(c):
    def put():
        d = None
        for s, v in c.truth.items():
            if s.startswith("discr(") and "input" in s and "try_from" not in s:
                d = v
        e = c.peek()
        if e is not None and e[0] == "mem" and e[1] == "set_data_from_global":
            c.mem("set_data_from_global", "u(moff)", lambda g: c.is_sat(g, "doff"), "u(len)", lambda g: "input" in g)
        else:
            c.mem("set_data", "u(moff)", lambda g: c.is_sat(g, "doff"), "u(len)", lambda g: "input" in g)
    copy_op(c, put)


@spec("codecopy", ["moff", "doff", "len"])
def _(c):
    copy_op(c, lambda: c.mem("set_data", "u(moff)", lambda g: c.is_sat(g, "doff"), "u(len)", "ecx.bytecode"))


@spec("returndatacopy", ["moff", "doff", "len"])
def _(c):
    c.usize("len")
    dof = "u(doff)" if not c.over("doff") else str(MAX)
    END = "(" + " sat+ ".join(sorted((dof, "u(len)"))) + ")"
    bad = c.cond(f"(len(ecx.return_data)<{END})", aspect="exit")
    if bad:
        c.fail_exit("OutOfOffset", "exit", "a read past the end of the return data")
    c.charge("gp.copy_cost(u(len))")
    if c.zero("u(len)"):
        c.end()
    c.usize("moff")
    c.expand("u(moff)", "u(len)")
    c.mem("set", "u(moff)", lambda g: "ecx.return_data" in g and f"start:{dof}" in g and f"end:{END}" in g)
    c.end()


@spec("mcopy", ["dst", "src", "len"])
def _(c):
    c.usize("len")
    c.charge("gp.mcopy_cost(u(len))")
    if c.zero("u(len)"):
        c.end()
    if c.exit_code() == "InvalidOperandOOG" and c.at_end() and (c.over("dst") or c.over("src")):
        raise Done()
    c.expand("max(u(dst),u(src))", "u(len)")
    c.mem("copy", "u(dst)", "u(src)", "u(len)")
    c.end()


@spec("mresize", [], args={2: "size"})
def _(c):
    e = c.peek()
    if e and e[0] == "expand" and is_k(e[1]) and e[1].a[0] == 0:
        c.expand("0", "size")
    else:
        c.expand("size", "0")
    c.end()


# ------------------------------------------------------------------------------------------------ storage
def sload(c, key, slot):
    while c.peek() and c.peek()[0] == "store" and c.S(c.peek()[3]) == key and c.word(c.peek()[1]) == slot:
        c.i += 1  # the key is staged in the result slot
    if c.cond("spec>=BERLIN", aspect="gas"):
        c.host("sload_skip_cold_load", "ecx.input.target_address", key, "(gas.remaining<gp.cold_storage_additional_cost())")
        c.res("sload_skip_cold_load")
        if c.cond("host.sload_skip_cold_load.is_cold", aspect="gas"):
            c.charge("gp.cold_storage_additional_cost()")
        c.out("host.sload_skip_cold_load.data", slot)
    else:
        c.host("sload", "ecx.input.target_address", key)
        c.opt("sload")
        c.out("host.sload.data", slot)
    c.end()


@spec("sload", ["index"])
def _(c):
    sload(c, "index", "index")


@spec("sload_c", [], args={2: "out", 3: "key"})
def _(c):
    sload(c, "key", "out")


@spec("sstore", ["index", "value"])
def _(c):
    c.static_guard()
    ist = c.cond("spec>=ISTANBUL", aspect="gas")
    if ist and c.cond("!(gp.call_stipend()<gas.remaining)", "!(gp.call_stipend()<gas.remaining)", aspect=("gas", "exit")):
        c.fail_exit("ReentrancySentryOOG", "exit", "gas at or below the call stipend")
    c.charge("gp.sstore_static_gas()")
    if c.cond("spec>=BERLIN", aspect="gas"):
        h = "sstore_skip_cold_load"
        c.host(h, "ecx.input.target_address", "index", "value", "(gas.remaining<gp.cold_storage_additional_cost())")
        c.res(h)
    else:
        h = "sstore"
        c.host(h, "ecx.input.target_address", "index", "value")
        c.opt(h)
    c.charge([f"gp.sstore_dynamic_gas({x},host.{h}.data,host.{h}.is_cold)" for x in (str(int(ist)), "spec>=ISTANBUL")])
    if c.cond("host.is_amsterdam_eip8037_enabled", aspect="gas"):
        c.charge(f"gp.sstore_state_gas(host.{h}.data)", "state")
        R = f"gp.sstore_state_gas_refill(host.{h}.data)"
        z = c.maybe(f"(0=={R})")
        if z is not True:
            c.gasop("refill_reservoir", R)
    e = c.peek()
    if e is None or e[0] != "gas" or e[1] != "Gas::record_refund" or c.S(e[2]) not in (f"gp.sstore_refund({int(ist)},host.{h}.data)", f"gp.sstore_refund(spec>=ISTANBUL,host.{h}.data)"):
        raise Reject("gas", f"the storage refund is not recorded: `{c.evs(e) if e else 'the end'}`")
    c.i += 1
    c.end()


@spec("tload", ["key"])
def _(c):
    c.host("tload", "ecx.input.target_address", "key")
    c.out("host.tload", "key")
    c.end()


@spec("tstore", ["key", "value"])
def _(c):
    c.static_guard()
    c.host("tstore", "ecx.input.target_address", "key", "value")
    c.end()


# ------------------------------------------------------------------------------------------------ log
@spec("log", [], args={3: "n"})
def _(c):
    c.static_guard()
    # operands: offset at word n+1, len at word n
    def w(i):
        return f"a2+[n]+[{i}]" if i else "a2+[n]"
    names = {}
    ln = off = None
    for s in list(c.truth) + list(c.ne):
        pass
    U = lambda i: f"u({w(i)})"
    c.usize(w(0))
    c.charge([f"gp.log_cost(n,{U(0)})"])
    z = c.cond(f"(0=={U(0)})")
    if not z:
        c.usize(w(1))
        c.expand(U(1), U(0))
        c.mem("slice", rng(U(1), U(0)))
    while c.peek() and c.peek()[0] == "push":
        if not topic_ok(c, c.peek()[1]):
            raise Reject("host", f"a log topic is `{c.S(c.peek()[1])[:200]}`, not a topic operand as big-endian bytes", c.peek()[-1])
        c.i += 1
    e = c.host("log", lambda s, t: logok(c, t, z, U, s))
    has = c.truth.get("discr(ecx.on_log)")
    if has == 1:
        d = c.peek()
        if d is None or d[0] != "dyncall":
            raise Reject("result", "an attached log observer is not told about the log")
        if c.S(d[1][-1]).find(c.S(e[2][1])) < 0:
            raise Reject("result", "the log observer is told about a different log")
        c.i += 1
    elif has is None and 1 not in c.ne.get("discr(ecx.on_log)", ()):
        raise Reject("result", "the log observer is not consulted")
    c.end()


def topic_ok(c, t):
    """`(sp + n - i)` read as big-endian bytes, i a counter that is not a constant."""
    while t.op in ("rv", "box", "conv"):
        t = t.a[-1]
    if t.op == "leafs":
        return True
    if t.op == "phi":
        return all(topic_ok(c, x) for x in t.a[0])
    if t.op != "w:to_be_bytes":
        return False
    p = t.a[0]
    if p.op != "deref":
        return False
    p = p.a[0]
    return p.op == "padd" and len(p.a) > 2 and p.a[2] == -1 and c.S(p.a[0]) == "a2+[n]" or ("a2" in c.S(p) and "n" in c.S(p) and p.op == "leafs")


def logok(c, t, z, U, s):
    while t.op in ("rv", "box"):
        t = t.a[0]
    if t.op != "adt":
        return False
    f = dict(zip(t.a[3], t.a[4:]))
    if c.S(f.get("address", TOP)) != "ecx.input.target_address":
        return False
    calls = [x for x in subterms(f.get("data")) if x.op == "call" and x.a[0].startswith("LogData::new")]
    if not calls:
        return False
    want = "empty" if z else f"mem.slice({RNG(U(1), U(0))})"
    return all(c.S(x.a[3]) == want for x in calls)


# ------------------------------------------------------------------------------------------------ frames
def code_slice(c, off, ln):
    return f"mem.slice({RNG(off, ln)})"


def create(c, two):
    c.static_guard()
    c.usize("len")
    ln, off = "u(len)", "u(coff)"
    z = c.zero(ln)
    if not z:
        if c.cond("spec>=SHANGHAI", aspect="gas"):
            if c.cond(f"(host.max_initcode_size<{ln})", aspect="exit"):
                c.fail_exit("CreateInitCodeSizeLimit", "exit", "initcode above the limit")
            c.charge(f"gp.initcode_cost({ln})")
        c.usize("coff")
        c.expand(off, ln)
        c.mem("slice", rng(off, ln))
    c.charge(f"gp.create2_cost({ln})" if two else "gp.create_cost()")
    if c.cond("host.is_amsterdam_eip8037_enabled", aspect="gas"):
        c.charge("gp.create_state_gas()", "state")
    lim = "gp.call_stipend_reduction(gas.remaining)" if c.cond("spec>=TANGERINE", aspect="gas") else "gas.remaining"
    c.charge(lim)
    code = "empty" if z else code_slice(c, off, ln)
    scheme = "CreateScheme::Create2{salt:salt}" if two else "CreateScheme::Create"
    # CreateInputs::new(caller, scheme, value, init_code, gas_limit, reservoir)
    want = f"Some(InterpreterAction::NewFrame{{0:FrameInput::Create{{0:new(ecx.input.target_address,{scheme},value,{code},{lim},gas.reservoir)}}}})"
    action(c, want)
    c.end()


def action(c, want):
    e = c.peek()
    if e is None or e[0] != "store" or c.S(e[1]) != "ecx.next_action":
        raise Reject("frame", f"no request is handed to the caller before `{c.evs(e) if e else 'the end'}`", e[-1] if e else "")
    g = c.S(e[3])
    if g != want:
        raise Reject("frame" if g.endswith(",".join(want.split(",")[-2:])) or "NewFrame" not in want else ("frame", "gas"), f"the request is `{g}` where `{want}` is due", e[-1])
    if c.need_static and e[4] != 0:
        raise Reject("static", "a frame request is issued before the static-call flag is known to be clear", e[-1])
    c.i += 1


@spec("create", ["value", "coff", "len"], kinds=("CreateKind", "Create"))
def _(c):
    create(c, False)


@spec("create#2", ["value", "coff", "len", "salt"], kinds=("CreateKind", "Create2"))
def _(c):
    create(c, True)


def call(c, kind):
    has_value = kind in ("Call", "CallCode")
    transfers = False
    if has_value:
        zv = c.maybe("(0==value)")
        if kind == "Call":
            st = None
            for t, v in c.p.facts.items():
                if t.op == "fld" and t.a[1] == "is_static":
                    st = v
            if st == 1 and zv is False:
                c.fail_exit("CallNotAllowedInsideStatic", ("static", "exit"), "a value transfer inside a static call")
            if st is None and zv is not True:
                if not (c.at_end() and c.p.exit[0] == "err"):
                    raise Reject("static", "a value-bearing call does not consult the static-call flag")
        if zv is None:
            # only a path that fails before the value matters may leave it open
            if c.p.exit[0] == "ok" or any(e[0] in ("host", "charge", "store") for e in c.ev):
                raise Reject("frame", "whether value is transferred is not distinguished")
        transfers = zv is False
    c.usize("ilen")
    zi = c.zero("u(ilen)")
    if not zi:
        c.usize("ioff")
        c.expand("u(ioff)", "u(ilen)")
    c.usize("olen")
    zo = c.zero("u(olen)")
    if not zo:
        c.usize("ooff")
        c.expand("u(ooff)", "u(olen)")
    if transfers:
        c.charge("gp.transfer_value_cost()")
    tv = ["1" if transfers else "0", "!(0==value)"] if has_value else ["0"]
    c.host("load_account_delegated", "ecx.spec_id", "gas.remaining", "addr(to)", tv, "1" if kind == "Call" else "0")
    c.res("load_account_delegated")
    L = "host.load_account_delegated"
    c.charge(f"{L}.0")
    c.charge(f"{L}.1", "state")
    loc = ["u(gas)", "sat(gas)"] if not c.over("gas") else [str(MAX)]
    if c.cond("spec>=TANGERINE", aspect="gas"):
        lims = [f"min({','.join(sorted(('gp.call_stipend_reduction(gas.remaining)', l)))})" for l in loc]
    else:
        lims = loc
    c.charge(lims)
    if transfers:
        lims2 = ["(" + " sat+ ".join(sorted((l, "gp.call_stipend()"))) + ")" for l in lims]
    else:
        lims2 = lims
    if zi:
        inp = [f"Range{{end:{MAX},start:{MAX}}}"]
    else:
        st = "(" + " sat+ ".join(sorted(("u(ioff)", "mem.local_memory_offset()"))) + ")"
        inp = [f"Range{{end:({' sat+ '.join(sorted((st, 'u(ilen)')))}),start:{st}}}"]
    oo = str(MAX) if zo else "u(ooff)"
    e = c.peek()
    if e is None or e[0] != "store" or c.S(e[1]) != "ecx.next_action":
        raise Reject("frame", f"no call request is handed over before `{c.evs(e) if e else 'the end'}`", e[-1] if e else "")
    ci = [x for x in subterms(e[3]) if x.op == "adt" and x.a[0].endswith("::CallInputs")]
    if len(ci) != 1 or "NewFrame" not in c.S(e[3]) or "FrameInput::Call" not in c.S(e[3]) or not c.S(e[3]).startswith("Some("):
        raise Reject("frame", f"the request is not a call frame: `{c.S(e[3])[:160]}`", e[-1])
    f = {n: c.S(x) for n, x in zip(ci[0].a[3], ci[0].a[4:])}
    want = {
        "input": [f"CallInput::SharedBuffer{{0:{x}}}" for x in inp],
        "return_memory_offset": [f"Range{{end:{'(' + '+'.join(sorted((oo, 'u(olen)'))) + ')'},start:{oo}}}"] + ([f"Range{{end:{MAX},start:{MAX}}}"] if zo else []),
        "gas_limit": lims2,
        "bytecode_address": ["addr(to)"],
        "known_bytecode": [f"({L}.3,{L}.2)"],
        "target_address": ["ecx.input.target_address"] if kind in ("DelegateCall", "CallCode") else ["addr(to)"],
        "caller": ["ecx.input.caller_address"] if kind == "DelegateCall" else ["ecx.input.target_address"],
        "value": ["CallValue::Apparent{0:ecx.input.call_value}"] if kind == "DelegateCall" else [f"CallValue::Transfer{{0:{'value' if has_value else '0'}}}"] + (["CallValue::Transfer{0:0}"] if has_value and not transfers else []),
        "scheme": [f"CallScheme::{kind}"],
        "is_static": ["1"] if kind == "StaticCall" else ["ecx.is_static"] + [str(v) for t, v in c.p.facts.items() if t.op == "fld" and t.a[1] == "is_static"],
        "reservoir": ["gas.reservoir"],
        "charged_new_account_state_gas": [f"!(0=={L}.1)"] + [str(int(not v)) for s, v in c.truth.items() if s == f"(0=={L}.1)"],
    }
    missing = set(want) - set(f)
    if missing:
        raise Reject("frame", f"call request lacks {sorted(missing)}")
    for k, v in f.items():
        if k not in want:
            raise Reject("frame", f"call request field `{k}` is not specified", e[-1])
        if v not in want[k]:
            asp = ("static", "frame") if k == "is_static" else ("gas", "frame") if k in ("gas_limit", "reservoir", "charged_new_account_state_gas") else "frame"
            raise Reject(asp, f"call request field `{k}` is `{v}` where `{want[k][0]}` is due", e[-1])
    c.i += 1
    c.end()


OPS_V = ["gas", "to", "value", "ioff", "ilen", "ooff", "olen"]
OPS_N = ["gas", "to", "ioff", "ilen", "ooff", "olen"]
for _k, _i in (("Call", ""), ("CallCode", "#cc"), ("DelegateCall", "#dc"), ("StaticCall", "#sc")):
    spec("call" + _i, OPS_V if _k in ("Call", "CallCode") else OPS_N, kinds=("CallKind", _k))(lambda c, k=_k: call(c, k))


def do_return(c, off, ln, res):
    z = c.zero(ln)
    if not z:
        if off == "u(offset)":
            c.usize("offset")
        c.expand(off, ln)
        c.mem("slice", rng(off, ln))
    out = "empty" if z else code_slice(c, off, ln)
    action(c, f"Some(InterpreterAction::Return{{0:InterpreterResult{{gas:ecx.gas,output:{out},result:{res}}}}})")
    if not c.at_end():
        raise Reject("extra", f"unexpected `{c.evs(c.peek())}`")
    if c.p.exit[0] != "err" or c.S(c.p.exit[1]) not in (res, f"discr({res})"):
        raise Reject("exit", f"must leave the frame with the requested result, but ends with {c.exit_code() or 'success'}")
    raise Done()


@spec("do_return", ["offset", "len"], args={3: "result"})
def _(c):
    c.usize("len")
    do_return(c, "u(offset)", "u(len)", "result")


@spec("do_return_cc", [], args={2: "coff", 3: "clen", 4: "result"})
def _(c):
    do_return(c, "coff", "clen", "result")


@spec("selfdestruct", ["target"])
def _(c):
    c.static_guard()
    h = "selfdestruct"
    c.host(h, "ecx.input.target_address", "addr(target)", "(gas.remaining<gp.selfdestruct_cold_cost())")
    c.res(h)

    def fv(name):
        r = None
        for s, v in c.truth.items():
            if s.startswith("host.selfdestruct") and s.split(".")[-1] == name:
                r = v
        return r
    ex = fv("target_exists")
    if c.cond("spec>=SPURIOUS_DRAGON", aspect="gas"):
        hv = fv("had_value")
        if hv == 0:
            top = 0
        elif ex == 1:
            top = 0
        elif hv == 1 and ex == 0:
            top = 1
        else:
            top = None
    else:
        top = None if ex is None else 1 - ex
    e = c.peek()
    if e is None or e[0] not in ("charge", "charge_fail"):
        raise Reject("gas", f"the selfdestruct cost is not charged before `{c.evs(e) if e else 'the end'}`")
    s = c.S(e[2])
    if not s.startswith("gp.selfdestruct_cost(") or not s.endswith(".is_cold)") or "host.selfdestruct" not in s:
        raise Reject("gas", f"charges `{s}` where the selfdestruct cost is due", e[-1])
    a0 = s[len("gp.selfdestruct_cost("):].split(",")[0]
    if top is not None and a0 in ("0", "1"):
        if int(a0) != top:
            raise Reject("gas", f"the new-account surcharge flag is {a0} where {top} is due", e[-1])
    elif top is None:
        # the flag is a value rather than a branch: it must be built from the right fields
        if not a0.startswith("!host.selfdestruct") or not a0.endswith("target_exists"):
            raise Reject("gas", f"the new-account surcharge flag is `{a0}`", e[-1])
        top = None
    elif a0.startswith("!host.selfdestruct") and a0.endswith("target_exists"):
        pass
    else:
        raise Reject("gas", f"the new-account surcharge flag is `{a0}`", e[-1])
    c.i += 1
    if e[0] == "charge_fail":
        c.fail_exit("OutOfGas", ("exit", "gas"), "failing to pay the selfdestruct cost")
    am = c.cond("host.is_amsterdam_eip8037_enabled", aspect="gas")
    if top is None:
        ex2 = fv("target_exists")
        top = None if ex2 is None else 1 - ex2
    if am and top is None:
        raise Reject("gas", "the new-account state gas is not tied to the surcharge condition")
    if am and top:
        c.charge("gp.new_account_state_gas()", "state")
    pd = fv("previously_destroyed")
    if pd is None:
        raise Reject("gas", "earlier destruction is not distinguished for the refund")
    if not pd:
        c.gasop("record_refund", "gp.selfdestruct_refund()")
    c.end_err("SelfDestruct")


@spec("assert_spec_id", [], args={2: "expected"})
def _(c):
    c.end()


@spec("panic", [])
def _(c):
    raise Reject("exit", "the panic helper returns")


# ------------------------------------------------------------------------------------------------ driver
def run(prog, settle=True):
    """Findings: [(builtin, aspect, message, span)], plus statistics."""
    bs = builtins(prog)
    findings = []
    stats = dict(builtins=0, paths=0, steps=0, events=0, bodies=set(), sites=set(), spec_missing=[], per={}, settled={}, unsettled={}, points=0)
    le = prog.enum_path("LoadError")
    for n, d in prog._discr[le]:
        LOADERR[n] = int(d)
    covered = set()
    for key, sp in SPECS.items():
        name = key.split("#")[0]
        covered.add(name)
        if name not in bs:
            findings.append((name, "anchor", f"runtime-library entry point `{name}` is gone", ""))
            continue
        b = bs[name]
        names, consts = {}, {}
        ops = sp["ops"]
        for j, nm in enumerate(ops):
            names[(sp["sp"], len(ops) - 1 - j)] = nm
        argn = {1: "ecx"}
        for a, nm in sp["args"].items():
            argn[a] = nm
            names[(a, 0)] = nm
        if "EvmContext" not in b.locals[1]:
            # pure arithmetic entry points take the operands first
            names = {(1, len(ops) - 1 - j): nm for j, nm in enumerate(ops)}
            argn = {}
        if sp["kinds"]:
            ty, v = sp["kinds"]
            idx = [i for i in range(1, b.nargs + 1) if m.tyhead(b.locals[i]) == ty]
            if not idx:
                findings.append((key, "anchor", f"no `{ty}` parameter", b.span))
                continue
            consts[idx[0]] = prog.enum(prog.enum_path(ty), v)
        try:
            paths, e, h = trace(prog, b, consts)
        except m.Limit as x:
            findings.append((key, "anchor", str(x), b.span))
            continue
        stats["builtins"] += 1
        stats["paths"] += len(paths)
        stats["steps"] += e.steps
        stats["bodies"] |= e.visited_bodies
        stats["sites"] |= e.sites
        stats["per"][key] = len(paths)
        okpaths = 0
        if not paths and key != "panic":
            findings.append((key, "anchor", "no path to any exit", b.span))
        for p in paths:
            stats["events"] += len(p.events)
            try:
                c = Ctx(p, names, argn)
                sp["f"](c)
                raise Reject("anchor", "acceptor did not reach a verdict")
            except Done:
                okpaths += 1
            except Reject as r:
                findings.extend((key, x, r.msg, r.span or b.span) for x in sorted(widen(c, r)))
    for n in bs:
        if n not in covered:
            findings.append((n, "anchor", f"entry point `{n}` has no specification", bs[n].span))
    if settle:
        # code written differently: the same effects as the accepted form at every point of the grid?  And beyond what the acceptor
        # looks at (amounts of gas read at the right moment, order of topics): the same outcome everywhere?
        keys = sorted(k for k in SPECS if k.split("#")[0] in bs and k != "panic")
        for key, (same, why, asp) in sorted(bval.settle_all(prog, bs, SPECS, keys).items()):
            if same:
                if any(x[0] == key for x in findings):
                    findings = [x for x in findings if x[0] != key]
                    stats["settled"][key] = why
                stats["points"] += why
            elif same is False:
                b = bs[key.split("#")[0]]
                had = {x[1] for x in findings if x[0] == key}
                findings += [(key, x, f"{why}", b.span) for x in sorted(asp - had)]
                stats["unsettled"][key] = why
            else:
                stats["unsettled"][key] = why
    return findings, stats


if __name__ == "__main__":
    import facts
    import sys
    p = m.load(facts.ensure("builtins"))
    f, s = run(p)
    seen = {}
    for x in f:
        seen.setdefault(x[:3], [0, x[3]])[0] += 1
    for k, v in seen.items():
        print(v[0], k, v[1])
    print({k: (len(v) if isinstance(v, set) else v) for k, v in s.items() if k != "per"})
