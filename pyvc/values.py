"""Symbolic integers, booleans and sequences.

Python's ints are z3 mathematical integers (that is exact: Python ints are unbounded).  Bit operations with constant
operands become div/mod arithmetic; the remaining ones become the functions iand/ior/ixor, which the bit-vector back end
interprets (lemmas.bv_proves) when their operands are provably bounded.
"""

import hashlib

import z3

from . import core
from .core import Infeasible, Unsupported

IntS = z3.IntSort()
IAND = z3.Function("iand", IntS, IntS, IntS)
IOR = z3.Function("ior", IntS, IntS, IntS)
IXOR = z3.Function("ixor", IntS, IntS, IntS)
POW2 = z3.Function("pow2", IntS, IntS)


def ctx():
    return core.ctx()


# --------------------------------------------------------------------------------------------------------------------
# integers and booleans
# --------------------------------------------------------------------------------------------------------------------


class SBool:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return ctx().branch(self.t)

    def __repr__(self):
        return f"SBool({self.t})"

    def __eq__(self, o):
        if isinstance(o, (bool, SBool)):
            return mkbool(self.t == boolterm(o))
        return as_int(self) == o

    def __ne__(self, o):
        return lnot(self == o)

    __hash__ = None

    def __add__(self, o):
        return as_int(self) + o

    __radd__ = __add__

    def __and__(self, o):
        if isinstance(o, (bool, SBool)):
            return land(self, o)
        return as_int(self) & o

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, SBool)):
            return lor(self, o)
        return as_int(self) | o

    __ror__ = __or__


def mkbool(t):
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SBool(t)


def boolterm(v):
    if isinstance(v, SBool):
        return v.t
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, z3.BoolRef):
        return v
    if isinstance(v, (int, SInt)):
        return term(v) != 0
    raise Unsupported(f"boolean of {type(v).__name__}")


def lnot(v):
    return (not v) if isinstance(v, bool) else mkbool(z3.Not(boolterm(v)))


def land(*vs):
    return mkbool(z3.And(*[boolterm(v) for v in vs])) if vs else True


def lor(*vs):
    return mkbool(z3.Or(*[boolterm(v) for v in vs])) if vs else False


def implies(a, b):
    return mkbool(z3.Implies(boolterm(a), boolterm(b)))


def as_int(v):
    if isinstance(v, SBool):
        return mk(z3.If(v.t, z3.IntVal(1), z3.IntVal(0)), 0, 1)
    if isinstance(v, bool):
        return int(v)
    return v


def term(v):
    if isinstance(v, SInt):
        return v.t
    if isinstance(v, bool):
        return z3.IntVal(int(v))
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, SBool):
        return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
    if isinstance(v, z3.ArithRef):
        return v
    raise Unsupported(f"integer term of {type(v).__name__}")


def isint(v):
    return isinstance(v, (int, SInt, SBool))


def bounds(v):
    if isinstance(v, SInt):
        return v.lo, v.hi
    if isinstance(v, SBool):
        return 0, 1
    return int(v), int(v)


def _tz(v):
    if isinstance(v, SInt):
        return v.tz
    v = int(v)
    if v == 0:
        return 10**6
    n = 0
    while not v & 1:
        v >>= 1
        n += 1
    return n


def _add(a, b):
    return None if a is None or b is None else a + b


def mk(t, lo=None, hi=None, tz=0, tag=None):
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return t.as_long()
    if lo is not None and lo == hi:
        return lo
    return SInt(t, lo, hi, tz, tag)


class SInt:
    """Symbolic int; lo/hi are sound bounds, tz a sound number of trailing zero bits, tag marks 2**n and 2**n-1."""

    __slots__ = ("t", "lo", "hi", "tz", "tag")

    def __init__(self, t, lo=None, hi=None, tz=0, tag=None):
        self.t, self.lo, self.hi, self.tz, self.tag = t, lo, hi, tz, tag

    __hash__ = None

    def __repr__(self):
        return f"SInt({self.t})"

    def __bool__(self):
        return ctx().branch(self.t != 0)

    def __index__(self):
        v = concrete_value(self)
        if v is None:
            raise Unsupported("symbolic integer where a concrete one is required")
        return v

    def __add__(self, o):
        if not isint(o):
            return NotImplemented
        o = as_int(o)
        lo, hi = bounds(o)
        return mk(self.t + term(o), _add(self.lo, lo), _add(self.hi, hi), min(self.tz, _tz(o)))

    __radd__ = __add__

    def __sub__(self, o):
        if not isint(o):
            return NotImplemented
        o = as_int(o)
        lo, hi = bounds(o)
        tag = ("ones", self.tag[1]) if isinstance(o, int) and o == 1 and self.tag and self.tag[0] == "pow2" else None
        return mk(
            self.t - term(o),
            None if self.lo is None or hi is None else self.lo - hi,
            None if self.hi is None or lo is None else self.hi - lo,
            min(self.tz, _tz(o)),
            tag,
        )

    def __rsub__(self, o):
        if not isint(o):
            return NotImplemented
        return wrap(o).__sub__(self)

    def __neg__(self):
        return mk(-self.t, None if self.hi is None else -self.hi, None if self.lo is None else -self.lo, self.tz)

    def __pos__(self):
        return self

    def __abs__(self):
        if self.lo is not None and self.lo >= 0:
            return self
        return self if self >= 0 else -self

    def __invert__(self):
        return -self - 1

    def __mul__(self, o):
        if not isint(o):
            return NotImplemented
        o = as_int(o)
        lo, hi = bounds(o)
        nlo = nhi = None
        if None not in (lo, hi, self.lo, self.hi):
            ps = [self.lo * lo, self.lo * hi, self.hi * lo, self.hi * hi]
            nlo, nhi = min(ps), max(ps)
        elif self.lo is not None and lo is not None and self.lo >= 0 and lo >= 0:
            nlo = self.lo * lo
        tz = min(self.tz + _tz(o), 10**6)
        return mk(self.t * term(o), nlo, nhi, tz)

    __rmul__ = __mul__

    def __floordiv__(self, o):
        if not isint(o):
            return NotImplemented
        return idiv(self, as_int(o))

    def __rfloordiv__(self, o):
        return idiv(as_int(o), self)

    def __mod__(self, o):
        if not isint(o):
            return NotImplemented
        return imod(self, as_int(o))

    def __rmod__(self, o):
        if not isint(o):
            return NotImplemented
        return imod(as_int(o), self)

    def __truediv__(self, o):
        if not isint(o):
            return NotImplemented
        return SRatio(self, as_int(o))

    def __divmod__(self, o):
        return (self // o, self % o)

    def __pow__(self, o):
        if isinstance(o, int) and 0 <= o <= 4:
            r = 1
            for _ in range(o):
                r = r * self
            return r
        raise Unsupported("power")

    def __rpow__(self, o):
        if o == 2:
            return pow2(self)
        raise Unsupported("power")

    def __lshift__(self, o):
        return shl(self, o)

    def __rlshift__(self, o):
        return shl(o, self)

    def __rshift__(self, o):
        return shr(self, o)

    def __rrshift__(self, o):
        return shr(o, self)

    def __and__(self, o):
        return iand(self, o) if isint(o) else NotImplemented

    __rand__ = __and__

    def __or__(self, o):
        return ior(self, o) if isint(o) else NotImplemented

    __ror__ = __or__

    def __xor__(self, o):
        return ixor(self, o) if isint(o) else NotImplemented

    __rxor__ = __xor__

    def __eq__(self, o):
        return mkbool(self.t == term(o)) if isint(o) else False

    def __ne__(self, o):
        return mkbool(self.t != term(o)) if isint(o) else True

    def __lt__(self, o):
        return cmp_lt(self, o) if isint(o) else NotImplemented

    def __le__(self, o):
        return lnot(cmp_lt(o, self)) if isint(o) else NotImplemented

    def __gt__(self, o):
        return cmp_lt(o, self) if isint(o) else NotImplemented

    def __ge__(self, o):
        return lnot(cmp_lt(self, o)) if isint(o) else NotImplemented

    # int methods used by programs
    def bit_length(self):
        return bit_length(self)


class SRatio:
    """a / b of ints, only good for int() (truncation) and word_to_bytes-like conversions."""

    __slots__ = ("a", "b")

    def __init__(self, a, b):
        self.a, self.b = a, b

    def trunc(self):
        if not (isinstance(self.b, int) and self.b > 0):
            raise Unsupported("true division")
        b = bounds(self.a)
        # float division of ints below 2**53 by a power of two is exact.
        if b[0] is None or b[0] < 0 or not ctx().proves(z3.And(term(self.a) >= 0, term(self.a) < 2**53)):
            if not ctx().proves(z3.And(term(self.a) >= 0, term(self.a) < 2**53)):
                raise Unsupported("true division of unbounded integers")
        if self.b & (self.b - 1):
            raise Unsupported("true division by other than a power of two")
        return self.a // self.b


def cmp_lt(a, b):
    la, ha = bounds(as_int(a))
    lb, hb = bounds(as_int(b))
    if ha is not None and lb is not None and ha < lb:
        return True
    if la is not None and hb is not None and la >= hb:
        return False
    return mkbool(term(a) < term(b))


def wrap(v):
    return v if isinstance(v, SInt) else SInt(term(v), *bounds(v))


def concrete_value(v):
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return v
    if isinstance(v, SInt):
        t = z3.simplify(v.t)
        if z3.is_int_value(t):
            return t.as_long()
        return None
    return None


def nonneg(v):
    lo, _ = bounds(v)
    if lo is not None:
        return lo >= 0
    return ctx().proves(term(v) >= 0)


def below(v, n):
    """0 <= v < n provable?"""
    lo, hi = bounds(v)
    if lo is not None and hi is not None and lo >= 0 and hi < n:
        return True
    if lo is not None and lo >= n or hi is not None and hi < 0:
        return False
    if isinstance(v, int):
        return False
    return ctx().proves(z3.And(term(v) >= 0, term(v) < n))


def idiv(a, b):
    if isinstance(b, int):
        if b > 0:
            if isinstance(a, int):
                return a // b
            if b == 1:
                return a
            r = div_again(a, b)
            if r is None:
                r = div_linear(a, b)
            if r is not None:
                return r
            lo, hi = a.lo, a.hi
            tz = a.tz - _tz(b) if b & (b - 1) == 0 and a.tz > _tz(b) else 0
            return mk(a.t / z3.IntVal(b), None if lo is None else lo // b, None if hi is None else hi // b, max(tz, 0))
        if b == 0:
            raise_prog(ZeroDivisionError("integer division or modulo by zero"))
        raise Unsupported("division by a negative constant")
    if not ctx().proves(term(b) > 0):
        raise Unsupported("division by a possibly non-positive number")
    q = mk(term(a) / term(b))
    if isinstance(q, SInt):
        ctx().fact(z3.Implies(z3.And(term(a) >= 0, term(a) < term(b)), q.t == 0))
        ctx().fact(z3.Implies(z3.And(term(a) < 0, term(a) >= -term(b)), q.t == -1))
        ctx().fact(z3.Implies(term(a) >= 0, q.t >= 0))
        ctx().fact(z3.Implies(term(a) < 0, q.t < 0))
    return q


def div_linear(a, b):
    """(b x + r) // b == x + r // b"""
    t = a.t
    if not z3.is_app(t) or t.decl().kind() not in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS):
        return None
    t = z3.simplify(t)
    out, rest, const = [], [], 0
    for p in t.children() if z3.is_add(t) else [t]:
        if z3.is_int_value(p):
            const += p.as_long()
            continue
        c, q = (p.arg(0).as_long(), p.arg(1)) if z3.is_mul(p) and p.num_args() == 2 and z3.is_int_value(p.arg(0)) else (1, p)
        if c % b == 0:
            out.append(c // b * q)
        else:
            rest.append(p)
    if not out:
        return None
    x = z3.simplify(z3.Sum([z3.IntVal(const // b)] + out))
    if not rest:
        r = 0
    else:
        r = z3.simplify(z3.Sum([z3.IntVal(const % b)] + rest))
        r = 0 if ctx().proves(z3.And(r >= 0, r < b)) else r / z3.IntVal(b)
    lo, hi = a.lo, a.hi
    return mk(z3.simplify(x + r), None if lo is None else lo // b, None if hi is None else hi // b)


def div_again(a, b):
    """(x // (c 2**e)) // b == x // (b c 2**e)"""
    t = a.t
    if not (z3.is_app(t) and t.decl().kind() == z3.Z3_OP_IDIV):
        return None
    x, m = t.children()
    if z3.is_int_value(m) or not any(z3.is_app(e) and e.decl().eq(POW2) for e in [m] + m.children()):
        return None
    r = idiv(mk(x), mk(m) * b)
    ctx().fact(t / z3.IntVal(b) == term(r))
    return r


def imod(a, b):
    if isinstance(b, int):
        if b > 0:
            if isinstance(a, int):
                return a % b
            if a.lo is not None and a.hi is not None and a.lo >= 0 and a.hi < b:
                return a
            if b & (b - 1) == 0 and a.tz >= _tz(b):
                return 0
            r = residue(a.t, b)
            if r is not None:
                return r
            return mk(a.t % z3.IntVal(b), 0, b - 1, min(a.tz, _tz(b)) if b & (b - 1) == 0 else 0)
        if b == 0:
            raise_prog(ZeroDivisionError("integer division or modulo by zero"))
        raise Unsupported("modulo by a negative constant")
    if not ctx().proves(term(b) > 0):
        raise Unsupported("modulo by a possibly non-positive number")
    r = mk(term(a) % term(b), 0)
    if isinstance(r, SInt):
        ctx().fact(z3.And(r.t >= 0, r.t < term(b)))
        ctx().fact(z3.Implies(z3.And(term(a) >= 0, term(a) < term(b)), r.t == term(a)))
    return r


def residue(t, m):
    """t % m in a canonical form: summands without what is a multiple of m, few of them negative; None if that changes nothing."""
    if not z3.is_app(t) or t.decl().kind() not in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS):
        return None
    t = z3.simplify(t)
    parts = t.children() if z3.is_add(t) else [t]
    if len(parts) > 24:
        return None
    const, coef, changed = 0, {}, False
    for p in parts:
        c = 1
        if z3.is_int_value(p):
            const += p.as_long()
            continue
        if z3.is_mul(p) and p.num_args() == 2 and z3.is_int_value(p.arg(0)):
            c, p = p.arg(0).as_long(), p.arg(1)
        q = p
        while True:
            if not z3.is_app(q):
                break
            k = q.decl().kind()
            if k == z3.Z3_OP_MOD and z3.is_int_value(q.arg(1)) and q.arg(1).as_long() > 0 and c * q.arg(1).as_long() % m == 0:
                q = q.arg(0)  # c * (u % k) = c * u - c * k * (u // k)
                continue
            if k == z3.Z3_OP_IDIV and z3.is_int_value(q.arg(1)) and q.arg(1).as_long() > 0:
                d, u = q.arg(1).as_long(), q.arg(0)
                if z3.is_app(u) and u.decl().kind() == z3.Z3_OP_MOD and z3.is_int_value(u.arg(1)):
                    n = u.arg(1).as_long()
                    if n > 0 and n % d == 0 and c * (n // d) % m == 0:
                        q = z3.simplify(u.arg(0) / z3.IntVal(d))  # (u % n) // d = u // d - n // d * (u // n)
                        continue
            break
        if z3.is_add(q) or z3.is_mul(q):
            q = p
        if q is not p:
            changed = True
        i = q.get_id()
        coef[i] = (coef.get(i, (0,))[0] + c, q)
    items = []
    for c, q in coef.values():
        k = c % m
        if k > m // 2:
            k -= m
        if k != c:
            changed = True
        if k:
            items.append((k, q))
    k = const % m
    neg = sum(1 for c, _ in items if c < 0)
    flip = neg > len(items) - neg
    if not (changed or flip or k != const):
        return None
    if flip:  # x % m = m - 1 - (-x - 1) % m
        items = [(-c, q) for c, q in items]
        k = (-const - 1) % m
    if not items:
        return m - 1 - k if flip else k
    e = z3.simplify(z3.Sum([z3.IntVal(k)] + [q if c == 1 else c * q for c, q in items]))
    r = mk(e % z3.IntVal(m), 0, m - 1)
    return m - 1 - r if flip else r


def raise_prog(exc):
    from .interp import ProgExc

    raise ProgExc(exc)


def split_const(t):
    """t = rest + const"""
    t = z3.simplify(t)
    if z3.is_add(t):
        c = 0
        rest = []
        for ch in t.children():
            if z3.is_int_value(ch):
                c += ch.as_long()
            else:
                rest.append(ch)
        if c:
            r = rest[0] if len(rest) == 1 else z3.Sum(*rest)
            return z3.simplify(r), c
    return t, 0


def pow2(s):
    if isinstance(s, int):
        if s < 0:
            raise Unsupported("negative exponent")
        return 1 << s
    if not nonneg(s):
        raise Unsupported("exponent may be negative")
    rest, c = split_const(s.t)
    if c < 0 or (c > 0 and not ctx().proves(rest >= 0)):
        rest, c = s.t, 0
    p = POW2(rest)
    ax = ctx().axioms
    if "pow2" not in ax:
        ax["pow2"] = pow2_axioms
    for f in pow2_axioms(rest):
        ctx().fact(f)
    if c == 0:
        return mk(p, 1, None, 0, ("pow2", s.t))
    return mk(p * (1 << c), 1 << c, None, c, ("pow2", s.t))


def pow2_axioms(x):
    p = POW2(x)
    out = [z3.Implies(x >= 0, p >= 1), z3.Implies(x == 0, p == 1), z3.Implies(x >= 1, z3.And(p >= 2, p >= x + 1))]
    rest, c = split_const(x)
    if 0 < c <= 4096:
        out.append(z3.Implies(rest >= 0, p == POW2(rest) * (1 << c)))
    return out


def shl(a, s):
    a, s = as_int(a), as_int(s)
    if isinstance(s, int):
        if s < 0:
            raise_prog(ValueError("negative shift count"))
        return a * (1 << s) if s else a
    if not nonneg(s):
        if ctx().branch(s.t < 0):
            raise_prog(ValueError("negative shift count"))
        s = SInt(s.t, 0, s.hi, s.tz, s.tag)
    r = a * pow2(s)
    if isinstance(r, SInt) and isinstance(a, int) and a == 1:
        r.tag = ("pow2", s.t)
    elif isinstance(r, SInt) and isinstance(a, SInt) and a.lo is not None and a.lo >= 0:
        ctx().fact(r.t >= 0)
        if a.hi is not None:
            ctx().fact(r.t <= a.hi * term(pow2(s)))
    if isinstance(r, SInt):
        r = SInt(r.t, r.lo, r.hi, r.tz, r.tag or ("shl", a, s.t))
    return r


def shr(a, s):
    a, s = as_int(a), as_int(s)
    if isinstance(s, int):
        if s < 0:
            raise_prog(ValueError("negative shift count"))
        return idiv(a, 1 << s) if s else a
    if not nonneg(s):
        if ctx().branch(s.t < 0):
            raise_prog(ValueError("negative shift count"))
        s = SInt(s.t, 0, s.hi, s.tz, s.tag)
    return idiv(a, pow2(s))


def runs_of(mask):
    """Runs (lo, hi) of one bits of a non-negative constant."""
    out = []
    i = 0
    while mask >> i:
        if mask >> i & 1:
            j = i
            while mask >> j & 1:
                j += 1
            out.append((i, j))
            i = j
        else:
            i += 1
    return out


def low_ones(tag):
    return tag is not None and tag[0] == "ones"


def iand(a, b):
    a, b = as_int(a), as_int(b)
    if isinstance(a, int) and isinstance(b, int):
        return a & b
    if isinstance(a, int):
        a, b = b, a
    if isinstance(b, int):
        if b < 0:
            return a - iand(a, ~b) if b != -1 else a
        if b == 0:
            return 0
        r = 0
        for lo, hi in runs_of(b):
            part = imod(a, 1 << hi)
            if lo:
                part = idiv(part, 1 << lo) * (1 << lo)
            r = r + part
        return r
    for x, y in ((a, b), (b, a)):
        if low_ones(y.tag):
            p = pow2(SInt(y.tag[1], 0))
            return imod(x, p)
    return bitfun(IAND, a, b)


def disjoint(a, b):
    """a and b have no common one bits (sound syntactic/solver test); returns True when a|b == a+b."""
    for x, y in ((a, b), (b, a)):
        lo, hi = bounds(y)
        if lo is not None and hi is not None and lo >= 0:
            n = hi.bit_length()
            if _tz(x) >= n:
                return True
    c = ctx()
    for x, y in ((a, b), (b, a)):
        if isinstance(y, int) and y > 0:
            m = runs_of(y)
            if c.proves(term(iand(x, y)) == 0):
                return True
            return False
        tag = x.tag if isinstance(x, SInt) else None
        if tag and tag[0] == "shl":
            # x = v * 2**s; enough: 0 <= y < 2**s
            p = pow2(SInt(tag[2], 0))
            if c.proves(z3.And(term(y) >= 0, term(y) < term(p))):
                return True
    for x, y in ((a, b), (b, a)):
        t = _tz(x)
        if 0 < t < 10**5 and c.proves(z3.And(term(y) >= 0, term(y) < (1 << t))):
            return True
    return False


def ior(a, b):
    a, b = as_int(a), as_int(b)
    if isinstance(a, int) and isinstance(b, int):
        return a | b
    for x, y in ((a, b), (b, a)):
        if isinstance(x, int) and x == 0:
            return y
    for x, y in ((a, b), (b, a)):
        if isinstance(y, int) and y > 0:
            # x | c = x - (x & c) + c
            return x - iand(x, y) + y
        if isinstance(y, int) and y < 0:
            # x | y = ~(~x & ~y)
            return ~iand(~x, ~y)
    if disjoint(a, b):
        return a + b
    for x, y in ((a, b), (b, a)):
        # x | -(2**s) with 0 <= x < 2**s
        neg = -y
        if isinstance(neg, SInt):
            p = _as_pow2(neg)
            if p is not None and ctx().proves(z3.And(term(x) >= 0, term(x) < term(neg))):
                return x + y
    return bitfun(IOR, a, b)


def _as_pow2(v):
    if v.tag and v.tag[0] == "pow2":
        return v
    t = v.t
    # pow2(e) or c * pow2(e) with c a power of two
    if z3.is_app(t) and t.decl().eq(POW2):
        return v
    if z3.is_mul(t) and len(t.children()) == 2:
        c, p = t.children()
        if z3.is_int_value(c) and c.as_long() > 0 and c.as_long() & (c.as_long() - 1) == 0 and z3.is_app(p) and p.decl().eq(POW2):
            return v
    return None


def ixor(a, b):
    a, b = as_int(a), as_int(b)
    if isinstance(a, int) and isinstance(b, int):
        return a ^ b
    for x, y in ((a, b), (b, a)):
        if isinstance(y, int):
            if y == 0:
                return x
            if y == -1:
                return ~x
            if y > 0:
                # x ^ c = x + c - 2 (x & c)
                return x + y - iand(x, y) * 2
        elif low_ones(y.tag):
            p = pow2(SInt(y.tag[1], 0))
            if ctx().proves(z3.And(term(x) >= 0, term(x) < term(p))):
                return y - x
    if z3.eq(term(a), term(b)):
        return 0
    for x, y in ((a, b), (b, a)):
        for lo, hi in (bounds(y),):
            if lo is not None and hi is not None and lo >= 0 and _tz(x) >= hi.bit_length():
                return x + y
    return bitfun(IXOR, a, b)


def bitfun(f, a, b):
    """Uninterpreted bit operation with range facts."""
    a, b = wrap(a), wrap(b)
    if str(a.t) > str(b.t):  # commutative: canonical order
        a, b = b, a
    lo = hi = None
    if a.lo is not None and a.lo >= 0 and b.lo is not None and b.lo >= 0:
        lo = 0
        if a.hi is not None and b.hi is not None:
            hi = min(a.hi, b.hi) if f is IAND else (1 << max(a.hi.bit_length(), b.hi.bit_length())) - 1
        elif f is IAND:
            hi = a.hi if a.hi is not None else b.hi
    t = f(a.t, b.t)
    c = ctx()
    if f is IAND:
        for x in (a, b):
            if x.lo is not None and x.lo >= 0:
                lo = 0
                c.fact(t <= x.t)
                if x.hi is not None:
                    hi = x.hi if hi is None else min(hi, x.hi)
    if lo is not None:
        c.fact(t >= lo)
    if hi is not None:
        c.fact(t <= hi)
    c.run.trusted.add("bit operations on two symbolic integers: function symbols decided by the bit-vector back end")
    return SInt(t, lo, hi, min(a.tz, b.tz))


def bit_length(v):
    lo, hi = bounds(v)
    c = ctx()
    if hi is not None and lo is not None and lo >= 0:
        n = hi.bit_length()
        t = z3.IntVal(n)
        for k in range(n - 1, -1, -1):
            t = z3.If(v.t < (1 << k), z3.IntVal(k), t)
        # innermost comparison must be the smallest
        t = z3.IntVal(n)
        for k in range(n - 1, -1, -1):
            t = z3.If(v.t < z3.IntVal(1 << k), z3.IntVal(k), t)
        return mk(t, 0, n)
    # unbounded: function symbol with defining facts on the standard thresholds
    f = z3.Function("bit_length", IntS, IntS)
    t = f(v.t)
    c.fact(t >= 0)
    if not nonneg(v):
        raise Unsupported("bit_length of a possibly negative number")
    for k in list(range(0, 41)) + [48, 63, 64]:
        c.fact((v.t < (1 << k)) == (t <= k))
    return mk(t, 0, None)


# --------------------------------------------------------------------------------------------------------------------
# fresh values
# --------------------------------------------------------------------------------------------------------------------


def new_fun(hint, arity, lo=None, hi=None, axiom=None):
    """Fresh function symbol Int^arity -> Int with a range axiom for every application."""
    c = ctx()
    nm = c.name(hint)
    f = z3.Function(nm, *([IntS] * (arity + 1)))
    c.fresh.append(f)
    if axiom is not None:
        c.axioms[nm] = lambda *a: axiom(f(*a), *a)
    elif lo is not None or hi is not None:
        c.axioms[nm] = lambda *a: [g for g in ((f(*a) >= lo) if lo is not None else None, (f(*a) <= hi) if hi is not None else None) if g is not None]
    return f


def fresh_int(hint, lo=None, hi=None):
    c = ctx()
    t = z3.Int(c.name(hint))
    c.fresh.append(t)
    if lo is not None:
        c.fact(t >= lo)
    if hi is not None:
        c.fact(t <= hi)
    return SInt(t, lo, hi)


def input_int(name, lo=None, hi=None):
    v = fresh_int(name, lo, hi)
    ctx().inputs[name] = v
    return v


def fresh_bool(hint):
    t = z3.Bool(ctx().name(hint))
    ctx().fresh.append(t)
    return SBool(t)


def ite(cond, a, b):
    """Value-level if-then-else of ints or bools."""
    if isinstance(cond, bool):
        return a if cond else b
    if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
        return mkbool(z3.If(cond.t, boolterm(a), boolterm(b)))
    la, ha = bounds(as_int(a))
    lb, hb = bounds(as_int(b))
    lo = None if la is None or lb is None else min(la, lb)
    hi = None if ha is None or hb is None else max(ha, hb)
    if isinstance(a, int) and isinstance(b, int) and a == b:
        return a
    return mk(z3.If(cond.t, term(a), term(b)), lo, hi, min(_tz(a), _tz(b)) if _tz(a) < 10**5 or _tz(b) < 10**5 else 0)


# --------------------------------------------------------------------------------------------------------------------
# sequences
# --------------------------------------------------------------------------------------------------------------------

EXPAND = 24


class Gen:
    """Segment of symbolic length: element i (0 <= i < length) is fn(i)."""

    __slots__ = ("length", "fn", "note")

    def __init__(self, length, fn, note=None):
        self.length, self.fn, self.note = length, fn, note

    def at(self, i):
        return self.fn(i)


class Seq:
    """Immutable sequence: segments are Python lists (literal elements) or Gen."""

    __slots__ = ("segs",)

    def __init__(self, segs=()):
        out = []
        for s in segs:
            if isinstance(s, Gen):
                n = concrete_value(s.length)
                if n is not None and n <= EXPAND:
                    s = [s.at(i) for i in range(n)]
            if isinstance(s, list):
                if not s:
                    continue
                if out and isinstance(out[-1], list):
                    out[-1] = out[-1] + s
                    continue
            out.append(s)
        self.segs = out

    @staticmethod
    def lit(xs):
        return Seq([list(xs)])

    def concrete(self):
        """Python list of the elements when the structure is concrete, else None."""
        if not self.segs:
            return []
        if len(self.segs) == 1 and isinstance(self.segs[0], list):
            return self.segs[0]
        return None

    def length(self):
        n = 0
        for s in self.segs:
            n = n + (len(s) if isinstance(s, list) else s.length)
        return n

    def __add__(self, o):
        return Seq(self.segs + o.segs)

    def get(self, i):
        """Element i; 0 <= i < length must hold on the path."""
        if len(self.segs) == 1:
            s = self.segs[0]
            if isinstance(s, Gen):
                return s.at(i)
            ci = concrete_value(i)
            if ci is not None:
                return s[ci]
            return select(s, i)
        base = 0
        ci = concrete_value(i)
        parts = []
        for s in self.segs:
            n = len(s) if isinstance(s, list) else s.length
            if isinstance(n, int) and isinstance(base, int) and ci is not None:
                if ci < base + n:
                    return s[ci - base] if isinstance(s, list) else s.at(ci - base)
            parts.append((base, n, s))
            base = base + n
        # symbolic position: decide by forking on provable segments, else build an if-then-else of ints
        cand = []
        c = ctx()
        for b, n, s in parts:
            inside = land(wrap(i) >= b, wrap(i) < b + n)
            if inside is True or (inside is not False and c.proves(boolterm(inside))):
                return s.at(i - b) if isinstance(s, Gen) else select(s, i - b)
            if inside is False:
                continue
            cand.append((inside, b, n, s))
        for k, (inside, b, n, s) in enumerate(cand):
            if k == len(cand) - 1 or inside:  # forks
                return s.at(i - b) if isinstance(s, Gen) else select(s, i - b)
        raise Infeasible()

    def slice(self, a, b):
        """Elements a..b-1; 0 <= a <= b <= length must hold."""
        if isinstance(a, int) and a == 0 and self._is_len(b):
            return self
        out = []
        base = 0
        c = ctx()
        single = len(self.segs) == 1 and isinstance(self.segs[0], Gen)
        if single:
            s = self.segs[0]
            return Seq([shift_gen(s, a, b - a)])
        for s in self.segs:
            n = len(s) if isinstance(s, list) else s.length
            lo = imax(a - base, 0)
            hi = imin(b - base, n)
            # empty overlap?
            empty = wrap(hi) <= lo
            if empty is True or (empty is not False and bool(empty)):
                base = base + n
                continue
            if isinstance(s, list):
                clo, chi = concrete_value(lo), concrete_value(hi)
                if clo is not None and chi is not None:
                    out.append(s[clo:chi])
                elif n == 1:
                    out.append(s)
                else:
                    lo2 = lo

                    def fn(i, s=s, lo2=lo2):
                        return select(s, i + lo2)

                    out.append(Gen(hi - lo, fn))
            else:
                out.append(shift_gen(s, lo, hi - lo))
            base = base + n
        return Seq(out)

    def _is_len(self, b):
        n = self.length()
        if isinstance(n, int) and isinstance(b, int):
            return n == b
        return z3.eq(z3.simplify(term(n)), z3.simplify(term(b)))

    def map(self, f):
        out = []
        for s in self.segs:
            if isinstance(s, list):
                out.append([f(x) for x in s])
            elif not isinstance(s, Gen):
                out.append(type(s)(s.count, lambda i, s=s: s.row(i).map(f)))
            else:
                out.append(Gen(s.length, lambda i, s=s: f(s.at(i))))
        return Seq(out)

    def reversed(self):
        out = []
        for s in reversed(self.segs):
            if isinstance(s, list):
                out.append(list(reversed(s)))
            else:
                out.append(Gen(s.length, lambda i, s=s: s.at(s.length - 1 - i)))
        return Seq(out)


def shift_gen(s, off, n):
    if isinstance(off, int) and off == 0:
        return Gen(n, s.fn, s.note)
    if s.note and s.note[0] == "shift":
        base, off0 = s.note[1], s.note[2]
    else:
        base, off0 = s.fn, 0
    tot = off0 + off
    return Gen(n, lambda i: base(i + tot), ("shift", base, tot))


def at_least(a, b):
    """a, known to be >= b."""
    lo = bounds(as_int(b))[0]
    if isinstance(a, SInt) and lo is not None and (a.lo is None or a.lo < lo):
        return SInt(a.t, lo, a.hi, a.tz, a.tag)
    return a


def at_most(a, b):
    """a, known to be <= b."""
    hi = bounds(as_int(b))[1]
    if isinstance(a, SInt) and hi is not None and (a.hi is None or a.hi > hi):
        return SInt(a.t, a.lo, hi, a.tz, a.tag)
    return a


def imin(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return min(a, b)
    r = wrap(a) <= b
    if r is True or (r is not False and ctx().proves(boolterm(r))):
        return at_most(a, b)
    if r is False or ctx().proves(z3.Not(boolterm(r))):
        return at_most(b, a)
    v = ite(r, a, b)
    his = [x for x in (bounds(as_int(a))[1], bounds(as_int(b))[1]) if x is not None]
    return SInt(v.t, v.lo, min(his) if his else None, v.tz, v.tag) if isinstance(v, SInt) else v


def imax(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return max(a, b)
    r = wrap(a) >= b
    if r is True or (r is not False and ctx().proves(boolterm(r))):
        return at_least(a, b)
    if r is False or ctx().proves(z3.Not(boolterm(r))):
        return at_least(b, a)
    v = ite(r, a, b)
    los = [x for x in (bounds(as_int(a))[0], bounds(as_int(b))[0]) if x is not None]
    return SInt(v.t, max(los) if los else None, v.hi, v.tz, v.tag) if isinstance(v, SInt) else v


def select(xs, i):
    """xs[i] of a Python list with a symbolic index (0 <= i < len(xs) on the path)."""
    ci = concrete_value(i)
    if ci is not None:
        return xs[ci]
    if all(isint(x) for x in xs):
        return piecewise({k: x for k, x in enumerate(xs)}, i)
    # fork
    for k in range(len(xs) - 1):
        if wrap(i) == k:
            return xs[k]
    return xs[-1]


def piecewise(table, i):
    """table[i] for a dict of ints with symbolic key (key present on the path)."""
    keys = sorted(table)
    if len(table) > 64 and all(isinstance(v, int) for v in table.values()):
        runs = linear_runs(table, keys)
        if len(runs) > 40:
            return table_fun(table, keys, i)
    t = uniform(table, keys, i.t)
    if t is not None:
        vals = [bounds(as_int(x)) for x in table.values()]
        return mk(t, None if any(x[0] is None for x in vals) else min(x[0] for x in vals), None if any(x[1] is None for x in vals) else max(x[1] for x in vals))
    runs = linear_runs(table, keys)
    ks, ke, d, v = runs[-1]
    t = term(v) if d is None else i.t + d
    for ks, ke, d, v in reversed(runs[:-1]):
        t = z3.If(i.t <= ke, term(v) if d is None else i.t + d, t)
    vals = [bounds(as_int(x)) for x in table.values()]
    lo = None if any(x[0] is None for x in vals) else min(x[0] for x in vals)
    hi = None if any(x[1] is None for x in vals) else max(x[1] for x in vals)
    return mk(t, lo, hi)


def uniform(table, keys, i):
    """A term in i that is table[k] for i = k, for every key k, if the entries are instances of one term; or None."""
    if len(keys) < 4 or keys != list(range(keys[0], keys[0] + len(keys))) or not all(isinstance(v, SInt) for v in table.values()):
        return None
    x = z3.Int("uniform!x")
    ts = {k: z3.simplify(table[k].t) for k in keys}
    k1, k2 = keys[-2:]

    def general(a, b):
        if a.eq(b):
            return a
        if z3.is_int_value(a) and z3.is_int_value(b):
            d = a.as_long() - k1
            return x + d if b.as_long() - k2 == d else None
        if not (z3.is_app(a) and z3.is_app(b)) or not a.decl().eq(b.decl()) or a.num_args() != b.num_args() or not a.num_args():
            return None
        xs = [general(p, q) for p, q in zip(a.children(), b.children())]
        if any(y is None for y in xs):
            return None
        return a.decl()(*xs)

    g = general(ts[k1], ts[k2])
    if g is None or any(not z3.simplify(z3.substitute(g, (x, z3.IntVal(k)))).eq(t) for k, t in ts.items()):
        return None
    return z3.simplify(z3.substitute(g, (x, i)))


def linear_runs(table, keys):
    runs = []
    for k in keys:
        v = table[k]
        if isinstance(v, int):
            if runs and runs[-1][2] == v - k and runs[-1][1] == k - 1:
                runs[-1][1] = k
                continue
            if runs and runs[-1][2] is None and isinstance(runs[-1][3], int) and runs[-1][3] == v and runs[-1][1] == k - 1:
                runs[-1][1] = k
                continue
            runs.append([k, k, v - k, v])
        else:
            runs.append([k, k, None, v])
    return runs


TABLES = {}


def table_fun(table, keys, i):
    h = hashlib.sha1(repr(sorted(table.items())).encode()).hexdigest()[:10]
    f = z3.Function("table_" + h, IntS, IntS)
    TABLES["table_" + h] = dict(table)
    lo, hi = min(table.values()), max(table.values())
    t = f(i.t)
    ctx().fact(z3.And(t >= lo, t <= hi))
    return SInt(t, lo, hi)


# --------------------------------------------------------------------------------------------------------------------
# byte arrays as symbolic inputs
# --------------------------------------------------------------------------------------------------------------------


def byte_fn(name):
    f = new_fun(name, 1, 0, 255)

    def fn(i):
        return SInt(f(term(i)), 0, 255)

    fn.z3 = f
    return fn


def input_bytes(name, length=None, maxlen=None):
    """Symbolic byte sequence of symbolic length (registered as an input)."""
    c = ctx()
    if length is None:
        length = fresh_int(name + "_len", 0, maxlen)
    fn = byte_fn(name)
    s = Seq([Gen(length, fn)])
    c.inputs[name] = ("bytes", fn.z3, length)
    return s


def seq_equal(a, b, c=None, hint="ix"):
    """Formula-free equality test used in obligations: (length equality, element equality at a fresh index)."""
    la, lb = a.length(), b.length()
    return la, lb
