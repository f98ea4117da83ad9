"""Evaluation of extracted transfer-function terms on a boundary grid.

A function's MIR is reduced to (path condition, result term) pairs; two such summaries, or a summary and a reference, are
compared pointwise on a grid of boundary values of their inputs. Nothing of /repo is executed: what is evaluated is the
extracted term. An operation the evaluator does not know raises Unk, and the check that needed it fails closed."""
from terms import T, show

M256 = (1 << 256) - 1


class Unk(Exception):
    pass


class U(int):
    """A 256-bit word (to tell words from machine integers)."""


def sgn(x):
    return x - (1 << 256) if x >> 255 else x


def uns(x):
    return x & M256


def sdiv(a, b):
    a, b = sgn(a), sgn(b)
    if b == 0:
        return 0
    q = abs(a) // abs(b)
    return uns(-q if (a < 0) != (b < 0) else q)


def smod(a, b):
    a, b = sgn(a), sgn(b)
    if b == 0:
        return 0
    r = abs(a) % abs(b)
    return uns(-r if a < 0 else r)


W = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "u128": 128, "i8": -8, "i16": -16, "i32": -32, "i64": -64, "isize": -64, "bool": 1, "i128": -128}


def wrap(v, ty):
    w = W.get(ty)
    if w is None:
        return v
    if w > 0:
        return v % (1 << w)
    v %= 1 << -w
    return v - (1 << -w) if v >> (-w - 1) else v


class Some:
    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, Some) and o.v == self.v

    def __hash__(self):
        return hash(("Some", self.v))

    def __repr__(self):
        return f"Some({self.v})"


class V(tuple):
    """An enum variant: (name, field, ...)."""


class Evaluator:
    dyn = None                  # term -> value or None

    def __init__(self, env, calls=None, dyn=None):
        self.dyn = dyn
        self.env = env          # term -> value
        self.calls = calls or {}
        self.memo = {}

    def ev(self, t):
        if t.__class__ is not T:
            return t
        r = self.memo.get(t, self)
        if r is self:
            r = self._ev(t)
            self.memo[t] = r
        return r

    def _ev(self, t):
        if t in self.env:
            return self.env[t]
        if self.dyn is not None:
            r = self.dyn(t)
            if r is not None:
                return r
        o, a = t.op, t.a
        ev = self.ev
        if o == "k":
            return a[0]
        if o == "sym":
            raise Unk(f"symbol {a[0]}")
        if o in ("rv", "box"):
            return ev(a[0])
        if o == "cast":
            v = ev(a[1])
            return wrap(int(v), a[0]) if isinstance(v, (int, bool)) else v
        if o == "bin":
            return self.bin(a[0], ev(a[1]), ev(a[2]))
        if o in ("lt", "eq", "le", "gt", "ge", "ne"):
            x, y = ev(a[0]), ev(a[1])
            return int({"lt": lambda: x < y, "eq": lambda: x == y, "le": lambda: x <= y, "gt": lambda: x > y, "ge": lambda: x >= y, "ne": lambda: x != y}[o]())
        if o in ("not", "neg") or o == "un":
            if o == "un":
                v = ev(a[1])
                if a[0] == "Not":
                    return 1 - v if v in (0, 1) and not isinstance(v, U) else uns(~v)
                if a[0] == "Neg":
                    return -v
                raise Unk(a[0])
            v = ev(a[0])
            return 1 - v if o == "not" else -v
        if o == "tuple":
            return tuple(ev(x) for x in a)
        if o == "array":
            return tuple(ev(x) for x in a)
        if o == "idx":
            b, i = ev(a[0]), ev(a[1])
            if isinstance(b, tuple) and isinstance(i, int) and 0 <= i < len(b):
                return b[i]
            raise Unk(f"index {show(t)[:80]}")
        if o == "adt":
            if a[2] == "None":
                return None
            if a[2] in ("Some", "Ok"):
                return Some(ev(a[4])) if a[2] == "Some" else V(("Ok", ev(a[4])))
            if a[0].endswith("Ordering"):
                return {"Less": -1, "Equal": 0, "Greater": 1}[a[2]]
            return V((a[2],) + tuple(ev(x) for x in a[4:]))
        if o == "discr":
            v = ev(a[0])
            if v is None:
                return 0
            if isinstance(v, Some):
                return 1
            if isinstance(v, tuple) and v and v[0] in ("Ok", "Err"):
                return 0 if v[0] == "Ok" else 1
            if v in (-1, 0, 1):
                return v & 255   # the discriminant of `Ordering` is an i8
            raise Unk(f"discriminant of {v}")
        if o == "var":
            return ev(a[0])
        if o == "fld":
            v = ev(a[0])
            if isinstance(v, Some) and a[1] == "0":
                return v.v
            if isinstance(v, V) and a[1].isdigit():
                return v[1 + int(a[1])]
            if isinstance(v, tuple) and a[1].isdigit():
                return v[int(a[1])]
            if isinstance(v, (int,)) and a[1] in ("0", "1") and a[0].op == "bin":
                return v if a[1] == "0" else 0
            raise Unk(f"field {a[1]} of {show(a[0])[:60]}")
        if o == "deref":
            return ev(a[0])
        if o == "call":
            name = a[0]
            f = self.calls.get(name)
            args = [x for x in a[2:]]
            if f is not None:
                return f(self, *args)
            return self.call(name, [ev(x) for x in args])
        if o == "tryint":
            v = ev(a[1])
            return V(("Ok", v)) if wrap(v, a[0]) == v else V(("Err", None))
        if o == "iop":
            return iop(a[0], a[1], [ev(x) for x in a[2:]])
        raise Unk(f"{o}: {show(t)[:100]}")

    def bin(self, op, x, y):
        u = isinstance(x, U) or isinstance(y, U)
        w = (lambda v: U(uns(v))) if u else (lambda v: v)
        op = op.replace("WithOverflow", "").replace("Unchecked", "")
        if op == "Add":
            return w(x + y)
        if op == "Sub":
            return w(x - y)
        if op == "Mul":
            return w(x * y)
        if op == "Div":
            return w(abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1))
        if op == "Rem":
            return w(abs(x) % abs(y) * (1 if x >= 0 else -1))
        if op == "BitAnd":
            return w(x & y)
        if op == "BitOr":
            return w(x | y)
        if op == "BitXor":
            return w(x ^ y)
        if op == "Shl":
            return w(x << y)
        if op == "Shr":
            return w(x >> y)
        if op in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"):
            return int({"Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y, "Eq": x == y, "Ne": x != y}[op])
        raise Unk(op)

    def call(self, name, v):
        last = name.split("::")[-1]
        ty = name.split("::")[0]
        if ty in ("Ord", "PartialOrd", "cmp") or last in ("max", "min"):
            if last == "max":
                return max(v)
            if last == "min":
                return min(v)
            if last in ("lt", "le", "gt", "ge"):
                return self.bin(last.capitalize(), v[0], v[1])
            if last in ("cmp", "partial_cmp"):
                r = (v[0] > v[1]) - (v[0] < v[1])
                return r if last == "cmp" else Some(r)
            if last == "clamp":
                return min(max(v[0], v[1]), v[2])
        if ty == "PartialEq":
            return int((v[0] == v[1]) == (last == "eq"))
        if ty in ("Add", "Sub", "Mul", "Div", "Rem", "BitAnd", "BitOr", "BitXor", "Shl", "Shr"):
            return self.bin(ty, v[0], v[1])
        if ty == "Not":
            return U(uns(~v[0])) if isinstance(v[0], U) else 1 - v[0]
        if ty == "Neg":
            return U(uns(-v[0])) if isinstance(v[0], U) else -v[0]
        if ty in ("i256",) or last.startswith("i256_"):
            return self.i256(last, v)
        if ty == "Uint" or (v and isinstance(v[0], U)):
            return self.word(last, v)
        if ty == "int" or ty in W:
            return self.int(last, v)
        if last in ("from", "into") and ty in ("From", "Into", "UintTryFrom"):
            return v[0]
        raise Unk(f"call {name}")

    def word(self, m, v):
        a = v[0] if v else 0
        b = v[1] if len(v) > 1 else 0
        if m == "from":
            return U(a)
        base = {"add": a + b, "sub": a - b, "mul": a * b}
        for k in ("wrapping_", "overflowing_", "checked_", "saturating_"):
            if m.startswith(k) and m[len(k):] in base:
                r = base[m[len(k):]]
                if k == "wrapping_":
                    return U(uns(r))
                if k == "overflowing_":
                    return (U(uns(r)), int(r != uns(r)))
                if k == "checked_":
                    return Some(U(r)) if r == uns(r) else None
                return U(min(max(r, 0), M256))
        if m in ("wrapping_div", "wrapping_rem"):
            if b == 0:
                raise Unk("division by zero")
            return U(a // b if m.endswith("div") else a % b)
        if m in ("checked_div", "checked_rem"):
            return None if b == 0 else Some(U(a // b if m.endswith("div") else a % b))
        if m in ("pow", "wrapping_pow"):
            return U(pow(a, b, 1 << 256))
        if m == "add_mod":
            return U((a + b) % v[2] if v[2] else 0)
        if m == "mul_mod":
            return U((a * b) % v[2] if v[2] else 0)
        if m == "is_zero":
            return int(a == 0)
        if m == "leading_zeros":
            return 256 - int(a).bit_length()
        if m == "bit_len":
            return int(a).bit_length()
        if m == "byte_len":
            return (int(a).bit_length() + 7) // 8
        if m == "trailing_zeros":
            return 256 if a == 0 else (int(a) & -int(a)).bit_length() - 1
        if m == "bit":
            return int(b < 256 and (int(a) >> b) & 1)
        if m == "byte":
            return (int(a) >> (8 * b)) & 0xFF
        if m == "as_limbs":
            return tuple((int(a) >> (64 * i)) & (2**64 - 1) for i in range(4))
        if m in ("saturating_to", "saturating_as"):
            return min(int(a), 2**64 - 1)
        if m in ("wrapping_to",):
            return int(a) & (2**64 - 1)
        if m in ("wrapping_shl", "shl"):
            return U(uns(int(a) << b) if b < 256 else 0)
        if m in ("wrapping_shr", "shr"):
            return U(int(a) >> b if b < 256 else 0)
        if m in ("arithmetic_shr",):
            return U(uns(sgn(int(a)) >> min(b, 255)))
        if m == "not":
            return U(uns(~int(a)))
        if m in ("bitand", "bitor", "bitxor"):
            return U({"bitand": a & b, "bitor": a | b, "bitxor": a ^ b}[m])
        if m in ("lt", "le", "gt", "ge", "eq", "ne"):
            return self.bin(m.capitalize(), a, b)
        if m in ("cmp",):
            return (a > b) - (a < b)
        if m in ("max", "min"):
            return max(a, b) if m == "max" else min(a, b)
        raise Unk(f"word operation {m}")

    def i256(self, m, v):
        if m in ("i256_div",):
            return U(sdiv(int(v[0]), int(v[1])))
        if m in ("i256_mod",):
            return U(smod(int(v[0]), int(v[1])))
        if m in ("i256_cmp",):
            a, b = sgn(int(v[0])), sgn(int(v[1]))
            return (a > b) - (a < b)
        raise Unk(f"signed operation {m}")

    def int(self, m, v):
        a = v[0]
        b = v[1] if len(v) > 1 else 0
        base = {"add": a + b, "sub": a - b, "mul": a * b} if not isinstance(a, (tuple, Some)) and a is not None else {}
        for k in ("wrapping_", "checked_", "saturating_"):
            if m.startswith(k) and m[len(k):] in base:
                r = base[m[len(k):]]
                if k == "saturating_":
                    return min(max(r, 0), 2**64 - 1)
                if k == "checked_":
                    return Some(r) if 0 <= r < 2**64 else None
                return r % 2**64
        if m == "div_ceil":
            return -(-a // b)
        if m == "max":
            return max(a, b)
        if m == "min":
            return min(a, b)
        if m == "abs_diff":
            return abs(a - b)
        if m == "is_power_of_two":
            return int(a > 0 and a & (a - 1) == 0)
        if m == "next_multiple_of":
            return -(-a // b) * b
        if m == "checked_next_multiple_of":
            return Some(-(-a // b) * b) if b else None
        if m == "leading_zeros":
            raise Unk("width of leading_zeros")
        raise Unk(f"integer operation {m}")


def iop(m, ty, v):
    w = W[ty]
    lo, hi = (0, (1 << w) - 1) if w > 0 else (-(1 << (-w - 1)), (1 << (-w - 1)) - 1)
    a = v[0]
    b = v[1] if len(v) > 1 else 0
    kind, _, o = m.partition("_")
    f = {"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b, "next_multiple_of": lambda: -(-a // b) * b,
         "add_signed": lambda: a + b, "pow": lambda: a ** b}.get(o)
    if kind in ("wrapping", "saturating", "checked", "overflowing") and f:
        if o == "next_multiple_of" and b == 0:
            return None
        r = f()
        if kind == "wrapping":
            return wrap(r, ty)
        if kind == "saturating":
            return min(max(r, lo), hi)
        if kind == "checked":
            return Some(r) if lo <= r <= hi else None
        return (wrap(r, ty), int(not lo <= r <= hi))
    if m in ("checked_div", "checked_rem"):
        return None if b == 0 else Some(a // b if m == "checked_div" else a % b)
    r = {"div_ceil": lambda: -(-a // b), "next_multiple_of": lambda: -(-a // b) * b, "abs_diff": lambda: abs(a - b),
         "is_power_of_two": lambda: int(a > 0 and a & (a - 1) == 0), "leading_zeros": lambda: abs(w) - int(a).bit_length(),
         "trailing_zeros": lambda: abs(w) if a == 0 else (a & -a).bit_length() - 1, "count_ones": lambda: bin(a).count("1"),
         "pow": lambda: a ** b, "unsigned_abs": lambda: abs(a)}.get(m)
    if r is None:
        raise Unk(f"integer operation {m}")
    return r()


def holds(ev, facts):
    """Whether every branch condition of a path holds under the assignment."""
    for t, v in facts.items():
        x = ev.ev(t)
        if isinstance(v, tuple) and v and v[0] == "ne":
            if x in v[1]:
                return False
        elif x != v:
            return False
    return True


def apply(res, env, calls=None, out=None, dyn=None):
    """The value(s) of a summary under an assignment: the results of the paths whose conditions hold."""
    vals = []
    for r in res:
        e = Evaluator(env, calls, dyn)
        if holds(e, r[0]):
            vals.append(out(e, r) if out else e.ev(r[1]))
    return vals
