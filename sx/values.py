"""Symbolic Python values over z3 bit-vectors.

SymInt is an exact model of Python's unbounded int: a signed bit-vector plus an interval
[lo, hi] that always contains the value; every operation widens the vector so that nothing
wraps.  The other classes are built on it.
"""
import codecs as _codecs
import decimal as _decimal
import math
import sys

import z3

from .core import PathCut, PathInfeasible, engine

BV = z3.BitVecVal
_D = _decimal.Decimal


def w_of(v):
    return (v.bit_length() if v >= 0 else (~v).bit_length()) + 1


def width(lo, hi):
    """Vector size for the interval; few size classes, so that equal values get equal terms."""
    w = max(w_of(lo), w_of(hi))
    if w <= 16:
        return 16
    if w <= 32:
        return 32
    if w <= 64:
        return 64
    return w


def _ext(t, w):
    s = t.size()
    if s == w:
        return t
    if s < w:
        return z3.SignExt(w - s, t)
    return low(t, w)


_PUSH = (z3.Z3_OP_BADD, z3.Z3_OP_BMUL, z3.Z3_OP_BSUB, z3.Z3_OP_BNEG, z3.Z3_OP_BAND,
         z3.Z3_OP_BOR, z3.Z3_OP_BXOR, z3.Z3_OP_BNOT)


def low(t, w, depth=12):
    """The w low bits of t, pushed towards the leaves."""
    s = t.size()
    if s == w:
        return t
    k = t.decl().kind() if z3.is_app(t) else None
    if k == z3.Z3_OP_BNUM:
        return BV(t.as_long() & ((1 << w) - 1), w)
    if depth > 0:
        if k == z3.Z3_OP_CONCAT:
            parts, have = [], 0
            for c in reversed(t.children()):
                n = c.size()
                if have + n <= w:
                    parts.append(c)
                    have += n
                else:
                    parts.append(low(c, w - have, depth - 1))
                    have = w
                if have == w:
                    break
            parts.reverse()
            return parts[0] if len(parts) == 1 else z3.Concat(*parts)
        if k in (z3.Z3_OP_ZERO_EXT, z3.Z3_OP_SIGN_EXT):
            c = t.arg(0)
            if c.size() >= w:
                return low(c, w, depth - 1)
            f = z3.ZeroExt if k == z3.Z3_OP_ZERO_EXT else z3.SignExt
            return f(w - c.size(), c)
        if k == z3.Z3_OP_EXTRACT:
            hi, lo = t.params()
            return z3.Extract(lo + w - 1, lo, t.arg(0)) if lo else low(t.arg(0), w, depth - 1)
        if k == z3.Z3_OP_ITE:
            c, a, b = t.children()
            return z3.If(c, low(a, w, depth - 1), low(b, w, depth - 1))
        if k in _PUSH:
            cs = [low(c, w, depth - 1) for c in t.children()]
            if k == z3.Z3_OP_BNEG:
                return -cs[0]
            if k == z3.Z3_OP_BNOT:
                return ~cs[0]
            r = cs[0]
            for c in cs[1:]:
                if k == z3.Z3_OP_BADD:
                    r = r + c
                elif k == z3.Z3_OP_BMUL:
                    r = r * c
                elif k == z3.Z3_OP_BSUB:
                    r = r - c
                elif k == z3.Z3_OP_BAND:
                    r = r & c
                elif k == z3.Z3_OP_BOR:
                    r = r | c
                else:
                    r = r ^ c
            return r
    return z3.Extract(w - 1, 0, t)


class Sym:
    """Base of all proxies.  Unmodelled attributes fall back to concretisation."""

    __slots__ = ()
    _py = object

    def __getattr__(self, name):
        if name.startswith("__") and name.endswith("__"):
            raise AttributeError(name)
        if not hasattr(self._py, name):
            raise AttributeError(
                "'%s' object has no attribute '%s'" % (self._py.__name__, name))

        def fallback(*a, **k):
            engine().note_conc("%s.%s" % (self._py.__name__, name))
            diversify(self)
            return getattr(concretize(self), name)(
                *[concretize(x) for x in a], **{q: concretize(x) for q, x in k.items()})

        probe = getattr(self._py, name)
        if not callable(probe):
            return getattr(concretize(self), name)
        return fallback

    def __repr__(self):
        return "<sym %s>" % self._py.__name__

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


# ---------------------------------------------------------------------------------------
class SymBool(Sym):
    __slots__ = ("t", "cmp")
    _py = bool
    __class__ = property(lambda self: bool)

    def __init__(self, t, cmp=None):
        self.t = t
        self.cmp = cmp

    def __bool__(self):
        r = engine().decide(self.t)
        if self.cmp is not None:
            a, b, op, pos = self.cmp
            _refine(a, b, op, r == pos)
        return r

    def _i(self):
        return SymInt(z3.If(self.t, BV(1, 2), BV(0, 2)), 0, 1)

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))

    def __eq__(self, o):
        if isinstance(o, SymBool):
            return mkbool(self.t == o.t)
        if o is True:
            return self
        if o is False:
            return mkbool(z3.Not(self.t))
        return self._i() == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else sx_not(r)

    def __and__(self, o):
        if isinstance(o, SymBool):
            return mkbool(z3.And(self.t, o.t))
        if isinstance(o, bool):
            return self if o else False
        return self._i() & o

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, SymBool):
            return mkbool(z3.Or(self.t, o.t))
        if isinstance(o, bool):
            return True if o else self
        return self._i() | o

    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, SymBool):
            return mkbool(z3.Xor(self.t, o.t))
        if isinstance(o, bool):
            return mkbool(z3.Not(self.t)) if o else self
        return self._i() ^ o

    __rxor__ = __xor__

    def bit_length(self):
        return self._i()

    def to_bytes(self, *a, **k):
        return self._i().to_bytes(*a, **k)


def _bool_arith(name):
    def f(self, *a):
        return getattr(self._i(), name)(*a)

    f.__name__ = name
    return f


for _n in ("add radd sub rsub mul rmul floordiv rfloordiv mod rmod pow rpow lshift rlshift "
           "rshift rrshift lt le gt ge neg pos invert abs truediv rtruediv divmod").split():
    setattr(SymBool, "__%s__" % _n, _bool_arith("__%s__" % _n))


def mkbool(t):
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SymBool(t)


def zbool(b):
    """z3 Bool of a bool/SymBool."""
    if isinstance(b, SymBool):
        return b.t
    return z3.BoolVal(bool(b))


def sx_not(b):
    if isinstance(b, SymBool):
        r = mkbool(z3.Not(b.t))
        if b.cmp is not None and isinstance(r, SymBool):
            r.cmp = b.cmp[:3] + (not b.cmp[3],)
        return r
    return not b


def _refine(a, b, op, holds):
    """Use the outcome of a comparison to tighten the bounds of its operands."""
    if op == "eq":
        if holds:
            (al, ah), (bl, bh) = rng(a), rng(b)
            lo, hi = max(al, bl), min(ah, bh)
            _bound(a, lo, hi)
            _bound(b, lo, hi)
        return
    if not holds:
        a, b, op = b, a, ("le" if op == "lt" else "lt")
    d = 1 if op == "lt" else 0
    _bound(a, None, rng(b)[1] - d)
    _bound(b, rng(a)[0] + d, None)


def _bound(x, lo, hi, depth=4):
    """lo <= x <= hi holds on the current path."""
    if not isinstance(x, SymInt):
        return
    nl = x.lo if lo is None else max(x.lo, lo)
    nh = x.hi if hi is None else min(x.hi, hi)
    if (nl, nh) == (x.lo, x.hi) or nl > nh:
        return
    if nl == nh:  # keep a symbolic term; callers rely on the type
        x.lo, x.hi = nl, nh
        return
    e = engine()
    old = e.bounds.get(x.t.get_id())
    e.keep.append(x.t)
    e.bounds[x.t.get_id()] = (nl, nh) if old is None else (max(old[0], nl), min(old[1], nh))
    x.lo, x.hi = nl, nh
    w = width(nl, nh)
    if x.t.size() - w >= 16:
        x.t = z3.simplify(low(x.t, w))
    if x.lin is not None and depth > 0 and x.lin[0] in ("+", "-", "*"):
        k, p, q = x.lin
        if k == "+":
            (pl, ph), (ql, qh) = rng(p), rng(q)
            _bound(p, nl - qh, nh - ql, depth - 1)
            _bound(q, nl - ph, nh - pl, depth - 1)
        elif k == "-":
            (pl, ph), (ql, qh) = rng(p), rng(q)
            _bound(p, nl + ql, nh + qh, depth - 1)
            _bound(q, pl - nh, ph - nl, depth - 1)
        elif k == "*":
            _bound(p, -(-nl // q), nh // q, depth - 1)


def conj(bs):
    ts = []
    for b in bs:
        if isinstance(b, SymBool):
            ts.append(b.t)
        elif not b:
            return False
    return mkbool(z3.And(*ts)) if ts else True


def disj(bs):
    ts = []
    for b in bs:
        if isinstance(b, SymBool):
            ts.append(b.t)
        elif b:
            return True
    return mkbool(z3.Or(*ts)) if ts else False


# ---------------------------------------------------------------------------------------
def mkint(t, lo, hi):
    if lo == hi:
        return lo
    w = width(lo, hi)
    t = _ext(t, w)
    t = z3.simplify(t)
    if z3.is_bv_value(t):
        return t.as_signed_long()
    e = engine()
    if e is not None and e.bounds:
        b = e.bounds.get(t.get_id())
        if b is not None:
            lo, hi = max(lo, b[0]), min(hi, b[1])
            w = width(lo, hi)
            if t.size() - w >= 16:
                t = z3.simplify(low(t, w))
    return SymInt(t, lo, hi)


def as_int(o):
    """SymInt/int view of an operand, or None."""
    if isinstance(o, SymInt):
        return o
    if isinstance(o, SymBool):
        return o._i()
    if isinstance(o, int):  # includes bool
        return int(o)
    return None


def rng(o):
    return (o.lo, o.hi) if isinstance(o, SymInt) else (o, o)


def term(o, w):
    if isinstance(o, SymInt):
        return _ext(o.t, w)
    return BV(o, w)


def _fac(x):
    """(p, q) with x == p * q and q a positive constant."""
    if isinstance(x, SymInt) and x.lin is not None and x.lin[0] == "*":
        return x.lin[1], x.lin[2]
    return x, 1


def _cmp_fac(a, b, op):
    """Divide common constant factors out of a comparison."""
    p, q = _fac(a)
    r, s = _fac(b)
    if q == 1 and s == 1:
        return a, b
    if isinstance(a, SymInt) and isinstance(b, SymInt):
        g = math.gcd(q, s)
        if g == 1:
            return a, b
        return p * (q // g), r * (s // g)
    if q > 1:  # p*q ? const
        if op == "lt":
            return p, -(-b // q)
        if op == "le":
            return p, b // q
        if b % q:
            return 0, 1
        return p, b // q
    if op == "lt":  # const < r*s
        return a // s, r
    if op == "le":
        return -(-a // s), r
    if a % s:
        return 0, 1
    return a // s, r


def _euc(x):
    """(q, p, r) with x == q * p + r, 0 <= r < p, p a constant; or None"""
    if isinstance(x, SymInt) and x.lin is not None and x.lin[0] == "e":
        return x.lin[1:]
    return None


def euclid(q, p, r):
    """q * p + r, remembering the division"""
    c = q * p + r
    if isinstance(c, SymInt) and p > 1:
        c.lin = ("e", q, p, r)
    return c


def _cmp_euc(e, k, op):
    """q*p + r  op  k  (op: lt, le, eq)"""
    q, p, r = e
    k1, k0 = divmod(k, p)
    if op == "eq":
        return conj([_cmp(q, k1, "eq"), _cmp(r, k0, "eq")])
    if op == "lt" and k0 == 0:
        return _cmp(q, k1, "lt")
    return disj([_cmp(q, k1, "lt"), conj([_cmp(q, k1, "eq"), _cmp(r, k0, op)])])


def _cmp(a, b, op):
    if not isinstance(b, SymInt):
        e = _euc(a)
        if e is not None:
            return _cmp_euc(e, b, op)
    elif not isinstance(a, SymInt):
        e = _euc(b)
        if e is not None:
            if op == "eq":
                return _cmp_euc(e, a, "eq")
            return sx_not(_cmp_euc(e, a, "le" if op == "lt" else "lt"))
    a, b = _cmp_fac(a, b, op)
    al, ah = rng(a)
    bl, bh = rng(b)
    if op == "lt":
        if ah < bl:
            return True
        if al >= bh:
            return False
    elif op == "le":
        if ah <= bl:
            return True
        if al > bh:
            return False
    elif op == "eq":
        if ah < bl or bh < al:
            return False
    w = max(width(al, ah), width(bl, bh))
    x, y = term(a, w), term(b, w)
    if op == "lt":
        r = mkbool(x < y)
    elif op == "le":
        r = mkbool(x <= y)
    else:
        r = mkbool(x == y)
    if isinstance(r, SymBool):
        r.cmp = (a, b, op, True)
    return r


def imin(a, b):
    c = _cmp(a, b, "le")
    return ite(c, a, b)


def imax(a, b):
    c = _cmp(a, b, "le")
    return ite(c, b, a)


def ite(c, a, b):
    """Integer if-then-else."""
    if c is True:
        return a
    if c is False:
        return b
    al, ah = rng(a)
    bl, bh = rng(b)
    lo, hi = min(al, bl), max(ah, bh)
    w = width(lo, hi)
    return mkint(z3.If(c.t, term(a, w), term(b, w)), lo, hi)


def _lin(r, k, p, q):
    if isinstance(r, SymInt):
        r.lin = (k, p, q)
    return r


class SymInt(Sym):
    __slots__ = ("t", "lo", "hi", "digits", "lin")
    _py = int
    __class__ = property(lambda self: int)

    def __init__(self, t, lo, hi):
        self.t = t
        self.lo = lo
        self.hi = hi
        self.digits = None
        self.lin = None

    # conversions
    def __bool__(self):
        if self.lo > 0 or self.hi < 0:
            return True
        return engine().decide(self.t != 0)

    def __index__(self):
        return concretize(self)

    def __int__(self):
        return concretize(self)

    def __float__(self):
        engine().note_conc("float(int)")
        return float(concretize(self))

    def __hash__(self):
        return hash(concretize(self))

    def __trunc__(self):
        return self

    __floor__ = __ceil__ = __trunc__

    def __round__(self, n=None):
        if n is None or n >= 0:
            return self
        return round(concretize(self), n)

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    numerator = real

    @property
    def denominator(self):
        return 1

    @property
    def imag(self):
        return 0

    def is_integer(self):
        return True

    # comparison
    def __eq__(self, o):
        o2 = as_int(o)
        if o2 is None:
            return _num_eq(self, o)
        return _cmp(self, o2, "eq")

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else sx_not(r)

    def __lt__(self, o):
        o2 = as_int(o)
        if o2 is None:
            return _num_cmp(self, o, "lt")
        return _cmp(self, o2, "lt")

    def __le__(self, o):
        o2 = as_int(o)
        if o2 is None:
            return _num_cmp(self, o, "le")
        return _cmp(self, o2, "le")

    def __gt__(self, o):
        o2 = as_int(o)
        if o2 is None:
            return _num_cmp(self, o, "gt")
        return _cmp(o2, self, "lt")

    def __ge__(self, o):
        o2 = as_int(o)
        if o2 is None:
            return _num_cmp(self, o, "ge")
        return _cmp(o2, self, "le")

    # arithmetic
    def __neg__(self):
        p, q = _fac(self)
        if q > 1:
            return (-p) * q
        lo, hi = -self.hi, -self.lo
        return mkint(-_ext(self.t, width(min(lo, self.lo), max(hi, self.hi))), lo, hi)

    def __pos__(self):
        return self

    def __abs__(self):
        if self.lo >= 0:
            return self
        if self.hi <= 0:
            return -self
        p, q = _fac(self)
        if q > 1:
            return abs(p) * q
        m = max(-self.lo, self.hi)
        w = width(-m, m)
        t = _ext(self.t, w)
        return mkint(z3.If(t < 0, -t, t), 0, m)

    def __invert__(self):
        return mkint(~self.t, ~self.hi, ~self.lo)

    def __add__(self, o):
        o2 = as_int(o)
        if o2 is None:
            return _dec_op("add", self, o)
        bl, bh = rng(o2)
        lo, hi = self.lo + bl, self.hi + bh
        w = width(lo, hi)
        return _lin(mkint(term(self, w) + term(o2, w), lo, hi), "+", self, o2)

    def __radd__(self, o):
        o2 = as_int(o)
        if o2 is None:
            return _dec_op("add", o, self)
        return self + o2

    def __sub__(self, o):
        o2 = as_int(o)
        if o2 is None:
            return _dec_op("sub", self, o)
        bl, bh = rng(o2)
        lo, hi = self.lo - bh, self.hi - bl
        w = width(lo, hi)
        return _lin(mkint(term(self, w) - term(o2, w), lo, hi), "-", self, o2)

    def __rsub__(self, o):
        o2 = as_int(o)
        if o2 is None:
            return _dec_op("sub", o, self)
        bl, bh = rng(o2)
        lo, hi = bl - self.hi, bh - self.lo
        w = width(lo, hi)
        return _lin(mkint(term(o2, w) - term(self, w), lo, hi), "-", o2, self)

    def __mul__(self, o):
        if isinstance(o, (bytes, bytearray, str, list, tuple)) and not isinstance(o, Sym):
            return _repeat(o, self)
        if isinstance(o, (SymBytes, SymStr)):
            return o * self
        o2 = as_int(o)
        if o2 is None:
            return _dec_op("mul", self, o)
        if type(o2) is int and o2 == 1:
            return self
        bl, bh = rng(o2)
        c = [self.lo * bl, self.lo * bh, self.hi * bl, self.hi * bh]
        lo, hi = min(c), max(c)
        w = width(lo, hi)
        if not isinstance(o2, SymInt) and o2 > 1:
            e = _euc(self)
            if e is not None:
                return euclid(e[0], e[1] * o2, e[2] * o2)
            p, q = _fac(self)
            if q > 1:
                return p * (q * o2)
        r = mkint(term(self, w) * term(o2, w), lo, hi)
        return _lin(r, "*", self, o2) if not isinstance(o2, SymInt) and o2 > 0 else r

    __rmul__ = __mul__

    def _divmod(self, o):
        return _idivmod(self, o)

    def __floordiv__(self, o):
        o2 = as_int(o)
        if o2 is None:
            return _dec_op("floordiv", self, o)
        return _idivmod(self, o2)[0]

    def __rfloordiv__(self, o):
        o2 = as_int(o)
        if o2 is None:
            return _dec_op("floordiv", o, self)
        return _idivmod(o2, self)[0]

    def __mod__(self, o):
        o2 = as_int(o)
        if o2 is None:
            return _dec_op("mod", self, o)
        return _idivmod(self, o2)[1]

    def __rmod__(self, o):
        if isinstance(o, (str, bytes)):
            return o % concretize(self)
        o2 = as_int(o)
        if o2 is None:
            return _dec_op("mod", o, self)
        return _idivmod(o2, self)[1]

    def __divmod__(self, o):
        o2 = as_int(o)
        if o2 is None:
            return NotImplemented
        return _idivmod(self, o2)

    def __rdivmod__(self, o):
        o2 = as_int(o)
        if o2 is None:
            return NotImplemented
        return _idivmod(o2, self)

    def __truediv__(self, o):
        r = _dec_op("truediv", self, o)
        if r is not NotImplemented:
            return r
        engine().note_conc("int/int")
        return concretize(self) / concretize(o)

    def __rtruediv__(self, o):
        r = _dec_op("truediv", o, self)
        if r is not NotImplemented:
            return r
        engine().note_conc("int/int")
        return concretize(o) / concretize(self)

    def __pow__(self, o, mod=None):
        if mod is not None:
            return pow(concretize(self), concretize(o), concretize(mod))
        o2 = as_int(o)
        if o2 is None:
            engine().note_conc("pow")
            return concretize(self) ** concretize(o)
        o2 = concretize(o2)
        if o2 < 0:
            return concretize(self) ** o2
        r = 1
        for _ in range(o2):
            r = r * self
        return r

    def __rpow__(self, o, mod=None):
        o2 = as_int(o)
        if o2 == 2 and self.lo >= 0 and self.hi <= 4096:
            return 1 << self
        return o ** concretize(self)

    def __lshift__(self, o):
        o2 = as_int(o)
        if o2 is None:
            return NotImplemented
        return _shl(self, o2)

    def __rlshift__(self, o):
        o2 = as_int(o)
        if o2 is None:
            return NotImplemented
        return _shl(o2, self)

    def __rshift__(self, o):
        o2 = as_int(o)
        if o2 is None:
            return NotImplemented
        return _shr(self, o2)

    def __rrshift__(self, o):
        o2 = as_int(o)
        if o2 is None:
            return NotImplemented
        return _shr(o2, self)

    def _bit(self, o, fn, kind):
        o2 = as_int(o)
        if o2 is None:
            return NotImplemented
        bl, bh = rng(o2)
        w = max(width(self.lo, self.hi), width(bl, bh))
        t = fn(term(self, w), term(o2, w))
        if kind == "and" and (self.lo >= 0 or bl >= 0):
            if self.lo >= 0 and bl >= 0:
                hi = min(self.hi, bh)
            else:
                hi = self.hi if self.lo >= 0 else bh
            return mkint(t, 0, hi)
        if self.lo >= 0 and bl >= 0:
            return mkint(t, 0, (1 << (w - 1)) - 1)
        return mkint(t, -(1 << (w - 1)), (1 << (w - 1)) - 1)

    def __and__(self, o):
        return self._bit(o, lambda a, b: a & b, "and")

    def __or__(self, o):
        return self._bit(o, lambda a, b: a | b, "or")

    def __xor__(self, o):
        return self._bit(o, lambda a, b: a ^ b, "xor")

    __rand__, __ror__, __rxor__ = __and__, __or__, __xor__

    def bit_length(self):
        a = abs(self)
        if not isinstance(a, SymInt):
            return a.bit_length()
        m = a.hi.bit_length()
        t = BV(0, 16)
        w = a.t.size()
        for k in range(m):
            t = z3.If(z3.Extract(k, k, a.t) == 1, BV(k + 1, 16), t)
        return _lin(mkint(t, 0 if a.lo == 0 else a.lo.bit_length(), m), "bits", a, None)

    def bit_count(self):
        a = abs(self)
        m = a.hi.bit_length()
        r = 0
        for k in range(m):
            r = r + mkint(z3.ZeroExt(1, z3.Extract(k, k, a.t)), 0, 1)
        return r

    def to_bytes(self, length=1, byteorder="big", *, signed=False):
        if signed:
            n = concretize(length)
            if n == 0:
                if self != 0:
                    raise OverflowError("int too big to convert")
                return b""
            if self < -(1 << (8 * n - 1)) or self >= (1 << (8 * n - 1)):
                raise OverflowError("int too big to convert")
            t = _ext(self.t, 8 * n)
            items = [mkbyte(z3.Extract(8 * i + 7, 8 * i, t)) for i in range(n)]
        else:
            if self < 0:
                raise OverflowError("can't convert negative int to unsigned")
            if isinstance(length, SymInt):
                if length < 0:
                    raise ValueError("length argument must be non-negative")
                fits = (length.lin is not None and length.lin[0] == "bytes"
                        and _same_int(length.lin[1], self))
                if not fits and self >= (1 << (8 * length)):
                    raise OverflowError("int too big to convert")
                mx = length.hi
                if mx > 4096:
                    mx = concretize(length)
                    return self.to_bytes(mx, byteorder)
                t = _ext(self.t, max(8 * mx + 1, self.t.size()))
                items = [mkbyte(z3.Extract(8 * i + 7, 8 * i, t)) for i in range(mx)]
                if byteorder == "big":
                    r = SymBytes.ralign(items, length)
                    r.zext = True
                    return r
                return SymBytes(items)[:length]
            n = int(length)
            if n < 0:
                raise ValueError("length argument must be non-negative")
            if self >= (1 << (8 * n)):
                raise OverflowError("int too big to convert")
            t = _ext(self.t, max(8 * n + 1, self.t.size()))
            items = [mkbyte(z3.Extract(8 * i + 7, 8 * i, t)) for i in range(n)]
        if byteorder == "big":
            items.reverse()
        elif byteorder != "little":
            raise ValueError("byteorder must be either 'little' or 'big'")
        return SymBytes(items)


def _shl(a, n):
    nl, nh = rng(n)
    if nl < 0:
        if n < 0:
            raise ValueError("negative shift count")
        nl = max(nl, 0)
    if nh > 5000:
        return _shl(a, concretize(n))
    if not isinstance(n, SymInt):
        return a * (1 << n)
    al, ah = rng(a)
    hi = max(ah << nh, ah << nl, 0)
    lo = min(al << nh, al << nl, 0)
    w = max(width(lo, hi), width(nl, nh) + 1)
    return mkint(term(a, w) << term(n, w), lo, hi)


def _shr(a, n):
    nl, nh = rng(n)
    if nl < 0:
        if n < 0:
            raise ValueError("negative shift count")
    if not isinstance(n, SymInt):
        if not isinstance(a, SymInt):
            return a >> n
        w = a.t.size()
        lo, hi = a.lo >> n, a.hi >> n
        if n >= w:
            return mkint(a.t >> BV(w - 1, w), lo, hi)
        return mkint(z3.Extract(w - 1, n, a.t), lo, hi)
    al, ah = rng(a)
    lo, hi = min(al, al >> nl if nl >= 0 else al, 0), max(ah, 0)
    w = max(width(al, ah), width(nl, nh) + 1)
    return mkint(term(a, w) >> term(n, w), lo, hi)


def _idivmod(a, b):
    """Python floor division and modulo."""
    bl, bh = rng(b)
    if bl <= 0 <= bh:
        if (b == 0) if isinstance(b, SymInt) else b == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
    al, ah = rng(a)
    if isinstance(a, SymInt) and not isinstance(b, SymInt) and b > 1:
        e = _euc(a)
        if e is not None and e[1] == b:
            return e[0], e[2]
        if e is not None and b % e[1] == 0:
            d, m = _idivmod(e[0], b // e[1])
            return d, euclid(m, e[1], e[2])
        if e is not None and e[1] % b == 0:
            d, m = _idivmod(e[2], b)
            return e[0] * (e[1] // b) + d, m
        p, q = _fac(a)
        if q > 1 and q % b == 0:
            return p * (q // b), 0
        if q > 1 and b % q == 0:
            d, m = _idivmod(p, b // q)
            return d, m * q
    if not isinstance(b, SymInt) and b > 0 and (b & (b - 1)) == 0:
        k = b.bit_length() - 1
        if not isinstance(a, SymInt):
            return divmod(a, b)
        q = _shr(a, k)
        if k == 0:
            return q, 0
        if 0 <= al and ah < b:
            return 0, a
        if k == 3 and a.lin is not None and a.lin[0] == "+" and type(a.lin[2]) is int \
                and a.lin[2] == 7 and isinstance(a.lin[1], SymInt) and a.lin[1].lin is not None \
                and a.lin[1].lin[0] == "bits":
            q = _lin(q, "bytes", a.lin[1].lin[1], None)
        w = max(a.t.size(), k)
        lo, hi = (al % b, ah % b) if al // b == ah // b else (0, b - 1)
        r = mkint(z3.ZeroExt(1, z3.Extract(k - 1, 0, _ext(a.t, w))), lo, hi)
        return q, r
    if al >= 0 and bl > 0:
        w = max(width(al, ah), width(bl, bh))
        x, y = term(a, w), term(b, w)
        q = mkint(z3.UDiv(x, y), al // bh, ah // bl)
        r = mkint(z3.URem(x, y), 0, min(ah, bh - 1))
        return q, r
    w = max(width(al, ah), width(bl, bh)) + 1
    x, y = term(a, w), term(b, w)
    q0 = x / y  # signed, truncating
    r0 = z3.SRem(x, y)
    adj = z3.And(r0 != 0, (r0 < 0) != (y < 0))
    q = z3.If(adj, q0 - 1, q0)
    r = z3.If(adj, r0 + y, r0)
    m = max(abs(al), abs(ah))
    mb = max(abs(bl), abs(bh))
    return (mkint(q, -m - 1, m + 1),
            mkint(r, 0 if bl > 0 else -mb, 0 if bh < 0 else mb))


def _repeat(seq, n):
    if isinstance(seq, (bytes, bytearray)):
        if len(seq) == 1 and not isinstance(seq, bytearray):
            n = imax(n, 0)
            if not isinstance(n, SymInt):
                return seq * n
            if n.hi > sys.maxsize:
                if n > sys.maxsize:
                    raise OverflowError("cannot fit 'int' into an index-sized integer")
            return SymBytes.view(_ConstBase(seq[0]), 0, n)
        if len(seq) == 0:
            return seq
    return seq * concretize(n)


# ---------------------------------------------------------------------------------------
def mkbyte(t):
    """byte item: int or BV8 term."""
    t = z3.simplify(t)
    if z3.is_bv_value(t):
        return t.as_long()
    return t


def b2t(x):
    return BV(x, 8) if isinstance(x, int) else x


def b2i(x):
    if isinstance(x, int):
        return x
    return SymInt(z3.ZeroExt(1, x), 0, 255)


def i2b(v):
    """int/SymInt in range(256) -> byte item."""
    if isinstance(v, SymInt):
        if v.lo < 0 or v.hi > 255:
            if v < 0 or v > 255:
                raise ValueError("bytes must be in range(0, 256)")
        return mkbyte(_ext(v.t, 9) if False else z3.Extract(7, 0, _ext(v.t, max(v.t.size(), 9))))
    if isinstance(v, SymBool):
        return i2b(v._i())
    v = int(v)
    if not 0 <= v <= 255:
        raise ValueError("bytes must be in range(0, 256)")
    return v


class _ConstBase:
    def __init__(self, b):
        self.b = b

    def get(self, i):
        return self.b


class _ListBase:
    """bytes held in a list; reads at a symbolic position shift the whole list"""

    def __init__(self, items):
        self.items = items
        self.runs = {}

    def get(self, i):
        if not isinstance(i, SymInt):
            return self.items[i] if 0 <= i < len(self.items) else 0
        return self.run(i, 1)[0]

    def run(self, i, n):
        """the n bytes at i (zero beyond the end)"""
        if n == 0:
            return []
        if not isinstance(i, SymInt):
            return [self.get(i + k) for k in range(n)]
        key = (i.t.get_id(), n)
        got = self.runs.get(key)
        if got is not None and got[0] == (i.lo, i.hi):
            return got[1]
        lo, hi = max(i.lo, 0), max(min(i.hi, len(self.items)), 0)
        m = hi - lo + n
        win = self.items[lo:lo + m]
        win = win + [0] * (m - len(win))
        if all(type(x) is int for x in win):
            big = BV(int.from_bytes(bytes(win), "big"), 8 * m)
        else:
            big = z3.Concat(*[b2t(x) for x in win]) if m > 1 else b2t(win[0])
        d = term(i - lo, max(8 * m, width(i.lo - lo, i.hi - lo))) if isinstance(i - lo, SymInt) \
            else BV(i - lo, 8 * m)
        w = max(8 * m, d.size())
        if w > 8 * m:
            big = z3.Concat(big, BV(0, w - 8 * m))
        sh = big << (d * 8)
        sh = z3.simplify(z3.Extract(w - 1, w - 8 * n, sh))
        out = [mkbyte(z3.simplify(z3.Extract(8 * (n - k) - 1, 8 * (n - k) - 8, sh)))
               for k in range(n)]
        self.runs[key] = ((i.lo, i.hi), out, i.t)
        return out


class ArrayBase:
    """Input buffer of a fixed length, bytes held in a z3 array."""

    IDX = 16

    def __init__(self, name, n, items=None):
        self.n = n
        self.name = name
        if n > 65000:  # indices of the array must not wrap around
            self.IDX = 24
        assert n < 1 << 23
        self.arr = z3.Array(name, z3.BitVecSort(self.IDX), z3.BitVecSort(8))
        self.items = items  # contents known at the start
        if items is not None:
            engine().assume(z3.And(*[z3.Select(self.arr, BV(i, self.IDX)) == b2t(x)
                                     for i, x in enumerate(items)]))

    def get(self, i):
        if isinstance(i, SymInt):
            t = _ext(i.t, self.IDX)
            return z3.simplify(z3.Select(self.arr, t))
        if self.items is not None and 0 <= i < len(self.items):
            return self.items[i]
        return z3.Select(self.arr, BV(i, self.IDX))


class SymBytes(Sym):
    """bytes/bytearray.

    forms: `items` (concrete length list of int|BV8), or a view (base, start, n) with a symbolic
    length, or right-aligned `ritems` (ritems[0] is the last byte) with a symbolic length.
    """

    __slots__ = ("items", "base", "start", "n", "ritems", "_py", "_rel", "zext", "u8")
    __class__ = property(lambda self: self._py)

    def __init__(self, items, py=bytes):
        self.items = items
        self.base = self.start = self.n = self.ritems = None
        self._py = py
        self._rel = None
        self.u8 = False  # decoded as UTF-8 on this path
        self.zext = False  # ritems at and beyond n are known to be zero

    @classmethod
    def view(cls, base, start, n, py=bytes):
        s = cls(None, py)
        s.base, s.start, s.n = base, start, n
        if not isinstance(n, SymInt):
            s._materialise(n)
        return s

    @classmethod
    def ralign(cls, ritems, n, py=bytes):
        s = cls(None, py)
        s.ritems, s.n = ritems, n
        if not isinstance(n, SymInt):
            s._materialise(n)
        return s

    def _materialise(self, n):
        if self.base is not None:
            if isinstance(self.base, _ListBase) and isinstance(self.start, SymInt):
                self.items = list(self.base.run(self.start, n))
            else:
                self.items = [self.base.get(self.start + i) for i in range(n)]
        else:
            self.items = [self.ritems[n - 1 - i] for i in range(n)]
        self.ritems = None
        if self.u8 and n <= 128:
            engine().assume(zbool(utf8_valid(SymBytes(self.items))))
        if self._py is bytearray:
            self.base = None

    def fix(self):
        """Force a concrete length (forks over feasible lengths)."""
        if self.items is None:
            n = unique_or_pick(self.n)
            self._materialise(n)
        return self.items

    def length(self):
        return len(self.items) if self.items is not None else self.n

    def max_len(self):
        return len(self.items) if self.items is not None else self.n.hi

    def at(self, i):
        """byte item at concrete left index i (only meaningful for i < length)."""
        if self.items is not None:
            return self.items[i]
        if self.base is not None:
            if isinstance(self.base, _ListBase) and isinstance(self.start, SymInt):
                m = self.max_len()
                if i < m:
                    return self.base.run(self.start, m)[i]
            return self.base.get(self.start + i)
        self.fix()
        return self.items[i] if i < len(self.items) else 0

    # sequence protocol
    def __len__(self):
        return len(self.fix())

    def __bool__(self):
        if self.items is not None:
            return len(self.items) > 0
        return bool(self.n > 0)

    def __iter__(self):
        if self.items is not None:
            for x in list(self.items):
                yield b2i(x)
            return
        i = 0
        while self.n > i if isinstance(self.n, SymInt) else self.n > i:
            yield b2i(self.at(i))
            i += 1
            if i > engine().max_iter:
                raise PathCut("iteration bound")

    def __getitem__(self, k):
        if isinstance(k, slice):
            return self._slice(k)
        k2 = as_int(k)
        if k2 is None:
            raise TypeError("byte indices must be integers or slices")
        n = self.length()
        if k2 < 0:
            k2 = k2 + n
        if k2 < 0 or k2 >= n:
            raise IndexError("index out of range")
        if isinstance(k2, SymInt):
            if self.base is not None:
                return b2i(self.base.get(self.start + k2))
            if self.items is not None:
                return b2i(_ListBase(self.items).get(k2))
            self.fix()
            return b2i(_ListBase(self.items).get(k2))
        return b2i(self.at(k2))

    def _norm(self, v, n, default):
        if v is None:
            return default
        v = as_int(v)
        if v is None:
            raise TypeError("slice indices must be integers or None or have an __index__ method")
        if v < 0:
            v = v + n
            if v < 0:
                return 0
        return v if v <= n else n

    def sub(self, p, m):
        """self[p:p+m] when 0 <= p and p + m <= len(self) are already known."""
        if self.ritems is not None and self.items is None:
            self.fix()
        if self.items is not None and not isinstance(p, SymInt) and not isinstance(m, SymInt):
            return mkbytes(self.items[p:p + m], self._py)
        base = self.base if self.base is not None else _ListBase(self.items)
        start = (self.start + p) if self.base is not None else p
        if isinstance(m, SymInt):
            h = rng(self.length() - p)[1]
            if h <= 0:
                return self._py() if self._py is not memoryview else b""
            if h < m.hi:
                _bound(m, None, h)
            if m.lo == m.hi:
                m = m.lo
        return SymBytes.view(base, start, m, self._py)

    def _slice(self, s):
        step = s.step
        if step is not None and not (isinstance(step, int) and int(step) == 1):
            items = self.fix()
            a = None if s.start is None else concretize(s.start)
            b = None if s.stop is None else concretize(s.stop)
            return SymBytes(items[a:b:concretize(step)], self._py)
        n = self.length()
        a = self._norm(s.start, n, 0)
        b = self._norm(s.stop, n, n)
        if not isinstance(a, SymInt) and not isinstance(b, SymInt) and self.items is not None:
            return mkbytes(self.items[a:b], self._py)
        if b <= a:
            return self._py() if self._py is not memoryview else b""
        m = b - a
        if isinstance(m, SymInt):
            m = mkint(m.t, max(m.lo, 1), max(m.hi, 1))
        return self.sub(a, m)

    def __setitem__(self, k, v):
        if self._py is not bytearray:
            raise TypeError("'bytes' object does not support item assignment")
        items = self.fix()
        if isinstance(k, slice):
            items[k] = list(SymBytes.of(v).fix())
        else:
            items[concretize(k)] = i2b(v)

    def append(self, v):
        self.fix().append(i2b(v))

    def extend(self, v):
        if isinstance(v, (bytes, bytearray)):
            self.fix().extend(SymBytes.of(v).fix())
        else:
            self.fix().extend(i2b(x) for x in v)

    def _array(self, name):
        if self._py is not bytearray:
            raise AttributeError("'bytes' object has no attribute %r" % name)
        return self.fix()

    def __delitem__(self, k):
        if self._py is not bytearray:
            raise TypeError("'bytes' object doesn't support item deletion")
        del self.fix()[k if isinstance(k, slice) else concretize(k)]

    def insert(self, i, v):
        self._array("insert").insert(concretize(i), i2b(v))

    def pop(self, i=-1):
        items = self._array("pop")
        i = concretize(i)
        r = self[i]
        del items[i]
        return r

    def clear(self):
        del self._array("clear")[:]

    def reverse(self):
        self._array("reverse").reverse()

    def __iadd__(self, o):
        if self._py is bytearray:
            self.extend(o)
            return self
        return self + o

    @staticmethod
    def of(o):
        if isinstance(o, SymBytes):
            return o
        return SymBytes(list(bytes(o)), type(o) if isinstance(o, (bytes, bytearray)) else bytes)

    # comparison
    def __eq__(self, o):
        if not isinstance(o, (bytes, bytearray, memoryview)):
            return NotImplemented if not isinstance(o, Sym) else False
        o = SymBytes.of(o)
        return bytes_eq(self, o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else sx_not(r)

    def _order(self, o, lt, orequal):
        o = SymBytes.of(o)
        a, b = self.fix(), o.fix()
        # lexicographic
        res = (len(a) < len(b)) or (orequal and len(a) == len(b))
        n = min(len(a), len(b))
        t = z3.BoolVal(res)
        for i in range(n - 1, -1, -1):
            x, y = b2t(a[i]), b2t(b[i])
            t = z3.If(x == y, t, z3.ULT(x, y))
        return mkbool(t)

    def __lt__(self, o):
        return self._order(o, True, False)

    def __le__(self, o):
        return self._order(o, True, True)

    def __gt__(self, o):
        return sx_not(self._order(o, True, True))

    def __ge__(self, o):
        return sx_not(self._order(o, True, False))

    def __hash__(self):
        return hash(concretize(self))

    def __contains__(self, o):
        if isinstance(o, (bytes, bytearray)):
            o = SymBytes.of(o).fix()
            items = self.fix()
            for i in range(len(items) - len(o) + 1):
                if conj(byte_eq(items[i + j], o[j]) for j in range(len(o))):
                    return True
            return False
        b = i2b(o)
        return bool(disj(byte_eq(x, b) for x in self.fix()))

    # building
    def __add__(self, o):
        if not isinstance(o, (bytes, bytearray, memoryview)):
            return NotImplemented
        o = SymBytes.of(o)
        r = _glue(self, o)
        return r if r is not None else mkbytes(self.fix() + o.fix(), self._py)

    def __radd__(self, o):
        if not isinstance(o, (bytes, bytearray, memoryview)):
            return NotImplemented
        return mkbytes(list(o) + self.fix(), type(o) if type(o) is not memoryview else bytes)

    def __mul__(self, n):
        n = as_int(n)
        if n is None:
            return NotImplemented
        return mkbytes(self.fix() * max(concretize(n), 0), self._py)

    __rmul__ = __mul__

    def join(self, parts):
        sep = self.fix()
        out = []
        parts = list(parts)
        if not sep:
            i = 0
            while i < len(parts) - 1:
                if isinstance(parts[i], SymBytes) and isinstance(parts[i + 1], SymBytes):
                    r = _glue(parts[i], parts[i + 1])
                    if r is not None:
                        parts[i:i + 2] = [r]
                i += 1
        for k, p in enumerate(parts):
            if not isinstance(p, (bytes, bytearray, memoryview)):
                raise TypeError("sequence item %d: expected a bytes-like object, %s found"
                                % (k, type_of(p).__name__))
            if k:
                out.extend(sep)
            out.extend(SymBytes.of(p).fix())
        return mkbytes(out, self._py)

    def rjust(self, w, fill=b" "):
        return self._just(w, fill, True)

    def ljust(self, w, fill=b" "):
        return self._just(w, fill, False)

    def zfill(self, w):
        items = self.fix()
        if items and (byte_eq(items[0], 43) or byte_eq(items[0], 45)):
            engine().note_conc("bytes.zfill")
            return concretize(self).zfill(concretize(w))
        return self.rjust(w, b"0")

    def center(self, w, fill=b" "):
        engine().note_conc("bytes.center")
        return concretize(self).center(concretize(w), concretize(fill))

    def _just(self, w, fill, right):
        f = SymBytes.of(fill).fix()
        if len(f) != 1:
            raise TypeError("fill must be a byte string of length 1")
        f = f[0]
        w = concretize(w)
        if self.items is not None:
            pad = [f] * max(w - len(self.items), 0)
            return mkbytes(pad + self.items if right else self.items + pad, self._py)
        if self.n.hi <= w:
            out = []
            for i in range(w):
                if right:
                    # index from the right end
                    if self.ritems is not None:
                        x = self.ritems[i] if i < len(self.ritems) else f
                        if i < self.n.lo or (self.zext and type(f) is int and f == 0):
                            out.append(x)
                            continue
                        c = self.n > i
                        out.append(_bite(c, x, f))
                    else:
                        self.fix()
                        return self._just(w, fill, right)
                else:
                    if self.base is None:
                        self.fix()
                        return self._just(w, fill, right)
                    c = self.n > i
                    out.append(_bite(c, self.at(i), f) if c is not False else f)
            if right:
                out.reverse()
            return mkbytes(out, self._py)
        self.fix()
        return self._just(w, fill, right)

    # queries
    def startswith(self, p, a=None, b=None):
        if a is not None or b is not None:
            return self[a:b].startswith(p)
        if isinstance(p, tuple):
            return bool(disj(self.startswith(x) for x in p))
        p = SymBytes.of(p).fix()
        n = self.length()
        if n < len(p):
            return False
        return conj(byte_eq(self.at(i), p[i]) for i in range(len(p)))

    def endswith(self, p, a=None, b=None):
        if a is not None or b is not None:
            return self[a:b].endswith(p)
        if isinstance(p, tuple):
            return bool(disj(self.endswith(x) for x in p))
        p = SymBytes.of(p).fix()
        items = self.fix()
        if len(items) < len(p):
            return False
        return conj(byte_eq(items[len(items) - len(p) + i], p[i]) for i in range(len(p)))

    def _strip_set(self, chars):
        return list(b" \t\n\r\x0b\x0c") if chars is None else SymBytes.of(chars).fix()

    def _stripn(self, cs, items):
        """How many of the items, from the first on, are in the set cs."""
        k = len(items)
        hit = [disj(byte_eq(x, c) for c in cs) for x in items]
        for i in range(len(items) - 1, -1, -1):
            k = ite(hit[i], k, i)
        return k

    def lstrip(self, chars=None):
        cs = self._strip_set(chars)
        items = self.fix()
        if len(items) <= 64 and self._py is bytes:
            k = self._stripn(cs, items)
            if not isinstance(k, SymInt):
                return mkbytes(items[k:], self._py)
            return self.sub(k, len(items) - k)
        i = 0
        while i < len(items) and disj(byte_eq(items[i], c) for c in cs):
            i += 1
        return mkbytes(items[i:], self._py)

    def rstrip(self, chars=None):
        cs = self._strip_set(chars)
        items = self.fix()
        if len(items) <= 64 and self._py is bytes:
            k = self._stripn(cs, items[::-1])
            if not isinstance(k, SymInt):
                return mkbytes(items[:len(items) - k], self._py)
            return self.sub(0, len(items) - k)
        i = len(items)
        while i > 0 and disj(byte_eq(items[i - 1], c) for c in cs):
            i -= 1
        return mkbytes(items[:i], self._py)

    def strip(self, chars=None):
        items = self.fix()
        if len(items) <= 64 and self._py is bytes:
            cs = self._strip_set(chars)
            a, b = self._stripn(cs, items), self._stripn(cs, items[::-1])
            n = len(items)
            if isinstance(a, SymInt) or isinstance(b, SymInt):
                m = ite(a == n, 0, n - a - b)
                if isinstance(m, SymInt):
                    m = mkint(m.t, max(m.lo, 0), min(m.hi, n))
                return self.sub(a, m)
            else:
                return mkbytes(items[a:n - b] if a < n else [], self._py)
        return SymBytes.of(self.lstrip(chars)).rstrip(chars)

    def count(self, x, *a):
        if a:
            engine().note_conc("bytes.count")
            return concretize(self).count(concretize(x), *[concretize(q) for q in a])
        if isinstance(x, (bytes, bytearray)):
            x = SymBytes.of(x).fix()
            if len(x) != 1:
                engine().note_conc("bytes.count")
                return concretize(self).count(concretize(SymBytes(x)))
            x = x[0]
        else:
            x = i2b(x)
        r = 0
        for y in self.fix():
            r = r + ite(byte_eq(y, x), 1, 0)
        return r

    def hex(self, *a):
        if a:
            engine().note_conc("bytes.hex")
            return concretize(self).hex(*a)
        out = []
        for x in self.fix():
            for sh in (4, 0):
                if isinstance(x, int):
                    out.append(ord("0123456789abcdef"[(x >> sh) & 15]))
                else:
                    out.append(hexcp(z3.Extract(sh + 3, sh, x)))
        return mkstr(out)

    def decode(self, encoding="utf-8", errors="strict"):
        return bytes_decode(self, encoding, errors)

    def tobytes(self):
        return SymBytes(self.items, bytes) if self.items is not None else self

    def __bytes__(self):
        return concretize(self)

    def copy(self):
        return mkbytes(list(self.fix()), self._py)

    def release(self):
        pass

    @property
    def nbytes(self):
        return self.length()


def _latin(b):
    if isinstance(b, (bytes, bytearray, memoryview)):
        return SymStr([byte_cp(x) for x in SymBytes.of(b).fix()])
    return b


def _unlatin(r, py):
    if isinstance(r, str):
        return mkbytes([cp_byte(x) for x in SymStr.of(r).c], py)
    if isinstance(r, list):
        return [_unlatin(x, py) for x in r]
    if isinstance(r, tuple):
        return tuple(_unlatin(x, py) for x in r)
    return r


def _bytes_method(name):
    def m(self, *a, **k):
        a = [SymStr([byte_cp(i2b(x))]) if isinstance(x, int) and j == 0 and name in
             ("find", "rfind", "index", "rindex") else _latin(x) for j, x in enumerate(a)]
        r = getattr(_latin(self), name)(*a, **{q: _latin(x) for q, x in k.items()})
        return _unlatin(r, self._py if self._py is not memoryview else bytes)

    m.__name__ = name
    return m


for _n in ("find", "rfind", "index", "rindex", "removeprefix", "removesuffix", "partition",
           "rpartition", "replace"):
    setattr(SymBytes, _n, _bytes_method(_n))


def _bytes_split(name):
    g = _bytes_method(name)

    def m(self, sep=None, maxsplit=-1):
        if sep is None:
            engine().note_conc("bytes." + name)
            return getattr(concretize(self), name)(None, maxsplit)
        return g(self, sep, maxsplit)

    return m


def _bytes_class(ranges, empty=False):
    def m(self):
        items = self.fix()
        if not items:
            return empty
        return conj(disj(mkbool(z3.And(z3.UGE(b2t(x), BV(lo, 8)), z3.ULE(b2t(x), BV(hi, 8))))
                         for lo, hi in ranges) for x in items)

    return m


def _bytes_case(lo, hi, d):
    def m(self):
        out = []
        for x in self.fix():
            t = b2t(x)
            out.append(mkbyte(z3.If(z3.And(z3.UGE(t, BV(lo, 8)), z3.ULE(t, BV(hi, 8))),
                                    t + BV(d % 256, 8), t)))
        return mkbytes(out, self._py)

    return m


SymBytes.split = _bytes_split("split")
SymBytes.rsplit = _bytes_split("rsplit")
SymBytes.isascii = _bytes_class([(0, 127)], True)
SymBytes.isdigit = _bytes_class([(48, 57)])
SymBytes.isalpha = _bytes_class([(65, 90), (97, 122)])
SymBytes.isalnum = _bytes_class([(48, 57), (65, 90), (97, 122)])
SymBytes.isspace = _bytes_class([(9, 13), (32, 32)])
SymBytes.lower = _bytes_case(65, 90, 32)
SymBytes.upper = _bytes_case(97, 122, -32)


def _glue(a, b):
    """a fill of symbolic length before a right-aligned value, if the total length is constant"""
    if a.items is not None or b.items is not None or a._py is bytearray:
        return None
    if not isinstance(a.base, _ConstBase) or b.ritems is None:
        return None
    n = a.n + b.n
    if isinstance(n, SymInt):
        t = z3.simplify(n.t)
        if not z3.is_bv_value(t):
            e = engine()
            w = a.n.hi + b.n.lo
            if n.lo > w or n.hi < w or not e.entails(n.t == BV(w, n.t.size())):
                return None
            n = w
        else:
            n = t.as_long()
    if b.max_len() > n:
        return None
    f = a.base.get(0)
    out = []
    for i in range(n):
        x = b.ritems[i] if i < len(b.ritems) else f
        if i < b.n.lo or i >= len(b.ritems) or (b.zext and type(f) is int and f == 0):
            out.append(x)
        else:
            out.append(_bite(b.n > i, x, f))
    out.reverse()
    return mkbytes(out, a._py)


def mkbytes(items, py=bytes):
    """concrete bytes if every item is concrete, else SymBytes."""
    if py is bytes and all(type(x) is int for x in items):
        return bytes(items)
    return SymBytes(list(items), py if py is not memoryview else bytes)


def byte_eq(x, y):
    if isinstance(x, int) and isinstance(y, int):
        return x == y
    return mkbool(b2t(x) == b2t(y))


def _bite(c, x, y):
    if c is True:
        return x
    if c is False:
        return y
    if isinstance(x, int) and isinstance(y, int) and x == y:
        return x
    return mkbyte(z3.If(c.t, b2t(x), b2t(y)))


def bytes_eq(a, b):
    la, lb = a.length(), b.length()
    if a.ritems is not None and a.items is None:
        a.fix()
        la = a.length()
    if b.ritems is not None and b.items is None:
        b.fix()
        lb = b.length()
    if not isinstance(la, SymInt) and not isinstance(lb, SymInt):
        if la != lb:
            return False
        ts = []
        for x, y in zip(a.items, b.items):
            if isinstance(x, int) and isinstance(y, int):
                if x != y:
                    return False
            elif x is not y:
                ts.append(b2t(x) == b2t(y))
        return mkbool(z3.And(*ts)) if ts else True
    leq = as_symbool(la == lb)
    if leq is False:
        return False
    # same base and start: only lengths matter
    if a.items is None and b.items is None and a.base is b.base and _same_int(a.start, b.start):
        return leq
    m = min(a.max_len(), b.max_len())
    if m > 64:
        m = tighten(la if isinstance(la, SymInt) else lb, m)
    if m > 2000:
        raise PathCut("bytes comparison bound")
    ts = [zbool(leq)]
    n = la if not isinstance(la, SymInt) else (lb if not isinstance(lb, SymInt) else la)
    for i in range(m):
        g = zbool(n > i) if isinstance(n, SymInt) else z3.BoolVal(i < n)
        ts.append(z3.Implies(g, b2t(a.at(i)) == b2t(b.at(i))))
    return mkbool(z3.And(*ts))


def tighten(n, m):
    """A smaller upper bound of the symbolic length n (<= m), found with the solver."""
    for k in (32, 64, 128, 256, 512, 1024):
        if k >= m:
            return m
        c = n > k
        if c is False or (c is not True and engine().entails(z3.Not(c.t))):
            return k
    return m


def as_symbool(b):
    return b


def _same_int(a, b):
    if isinstance(a, SymInt) and isinstance(b, SymInt):
        w = max(a.t.size(), b.t.size())
        return _ext(a.t, w).eq(_ext(b.t, w)) or z3.is_true(z3.simplify(_ext(a.t, w) == _ext(b.t, w)))
    if isinstance(a, SymInt) or isinstance(b, SymInt):
        return False
    return a == b


def int_from_bytes(b, byteorder="big", *, signed=False):
    if not isinstance(b, (bytes, bytearray, memoryview)):
        b = [i2b(x) for x in b]
        b = mkbytes(b)
    b = SymBytes.of(b)
    if b.items is None and b.ritems is not None and byteorder == "big" and not signed:
        # zero-extension of a right-aligned minimal form
        items = list(b.ritems)
        out = []
        for i, x in enumerate(items):
            out.append(x if b.zext or i < b.n.lo else _bite(b.n > i, x, 0))
        items = list(reversed(out))
    else:
        items = list(b.fix())
    if byteorder == "little":
        items.reverse()
    elif byteorder != "big":
        raise ValueError("byteorder must be either 'little' or 'big'")
    if not items:
        return 0
    n = len(items)
    if all(isinstance(x, int) for x in items):
        return int.from_bytes(bytes(items), "big", signed=signed)
    t = z3.Concat(*[b2t(x) for x in items]) if n > 1 else b2t(items[0])
    if signed:
        return mkint(t, -(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1)
    lo = 0
    hi = (1 << (8 * n)) - 1
    k = 0
    while k < n and isinstance(items[k], int):
        k += 1
    if k:
        pre = int.from_bytes(bytes(items[:k]), "big")
        lo = pre << (8 * (n - k))
        hi = lo + (1 << (8 * (n - k))) - 1
    return mkint(z3.ZeroExt(1, t), lo, hi)


def min_big_endian(v):
    """eth_utils.int_to_big_endian: minimal big-endian bytes, b'\\0' for zero."""
    if v < 0:
        raise OverflowError("can't convert negative int to unsigned")
    if not isinstance(v, SymInt):
        return v.to_bytes((v.bit_length() + 7) // 8 or 1, "big")
    m = max((v.hi.bit_length() + 7) // 8, 1)
    t = _ext(v.t, max(8 * m + 1, v.t.size()))
    ritems = [mkbyte(z3.Extract(8 * i + 7, 8 * i, t)) for i in range(m)]
    lo = max((max(v.lo, 0).bit_length() + 7) // 8, 1)
    if lo == m:
        return SymBytes(list(reversed(ritems)))
    nt = BV(lo, 16)
    for i in range(lo, m):
        nt = z3.If(b2t(ritems[i]) != 0, BV(i + 1, 16), nt)
    r = SymBytes.ralign(ritems, mkint(nt, lo, m))
    r.zext = True
    return r


# ---------------------------------------------------------------------------------------
# text

def mkcp(t):
    t = z3.simplify(t)
    if z3.is_bv_value(t):
        return t.as_long()
    return t


def c2t(c):
    return BV(c, 21) if isinstance(c, int) else c


HEXLO = ((48, 57), (97, 102))
HEXUP = ((48, 57), (65, 70))


def hexcp(nib, up=False):
    """code point of the hex digit of a 4-bit term"""
    nib = z3.simplify(nib)
    if z3.is_bv_value(nib):
        c = "0123456789abcdef"[nib.as_long()]
        return ord(c.upper() if up else c)
    n = z3.ZeroExt(17, nib)
    t = mkcp(z3.If(z3.ULT(n, 10), n + 48, n + (55 if up else 87)))
    return tag_cp(t, HEXUP if up else HEXLO, nib, up)


def tag_cp(t, ranges, nib=None, up=False):
    """note that code point t lies in ranges (and is the hex digit of nib)"""
    if not isinstance(t, int):
        engine().cpset[t.get_id()] = (t, tuple(ranges), nib, up)
    return t


def cp_info(c):
    return None if isinstance(c, int) else engine().cpset.get(c.get_id())


def cp_byte(x):
    """byte of a code point known to be below 256"""
    if isinstance(x, int):
        return x
    b = mkbyte(z3.Extract(7, 0, x))
    if not isinstance(b, int) and cp_info(x) is not None:
        engine().bytecp[b.get_id()] = (b, x)
    return b


def byte_cp(b):
    if isinstance(b, int):
        return b
    k = engine().bytecp.get(b.get_id())
    return k[1] if k is not None else mkcp(z3.ZeroExt(13, b))


def _subset(a, ranges):
    return all(any(lo <= x and y <= hi for lo, hi in ranges) for x, y in a)


def _disjoint(a, ranges):
    return not any(x <= hi and lo <= y for x, y in a for lo, hi in ranges)


def cp_eq(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if isinstance(a, int):
        a, b = b, a
    i = cp_info(a)
    if i is not None:
        if isinstance(b, int):
            if _disjoint(i[1], ((b, b),)):
                return False
            if i[2] is not None:
                return mkbool(i[2] == BV(int(chr(b), 16), 4))
        else:
            j = cp_info(b)
            if j is not None:
                if i[2] is not None and j[2] is not None and i[3] == j[3]:
                    return mkbool(i[2] == j[2])
                if _disjoint(i[1], j[1]):
                    return False
    return mkbool(c2t(a) == c2t(b))


def cp_in(c, ranges):
    """c within any of the [lo,hi] ranges."""
    if isinstance(c, int):
        return any(lo <= c <= hi for lo, hi in ranges)
    i = cp_info(c)
    if i is not None:
        if _subset(i[1], ranges):
            return True
        if _disjoint(i[1], ranges):
            return False
    ts = []
    for lo, hi in ranges:
        if lo == hi:
            ts.append(c == BV(lo, 21))
        else:
            ts.append(z3.And(z3.UGE(c, BV(lo, 21)), z3.ULE(c, BV(hi, 21))))
    return mkbool(z3.Or(*ts)) if ts else False


def mkstr(cps):
    if all(isinstance(c, int) for c in cps):
        return "".join(map(chr, cps))
    return SymStr(list(cps))


_UNI = {}


def uni_ranges(name):
    """ranges of the code points for which str.<name>() holds, or that it changes"""
    r = _UNI.get(name)
    if r is None:
        r = []
        for i in range(0x110000):
            c = chr(i)
            v = getattr(c, name)()
            if v is True or (v is not False and v != c):
                if r and r[-1][1] == i - 1:
                    r[-1][1] = i
                else:
                    r.append([i, i])
        r = _UNI[name] = [tuple(x) for x in r]
    return r


class SymStr(Sym):
    """str with a concrete number of code points, each int or BV21."""

    __slots__ = ("c",)
    _py = str
    __class__ = property(lambda self: str)

    def __init__(self, cps):
        self.c = cps

    @staticmethod
    def of(o):
        if isinstance(o, SymStr):
            return o
        if isinstance(o, SymText):
            o = o.chars()
            if isinstance(o, SymStr):
                return o
        return SymStr([ord(x) for x in o])

    def __len__(self):
        return len(self.c)

    def __bool__(self):
        return len(self.c) > 0

    def __iter__(self):
        for x in self.c:
            yield mkstr([x])

    def __hash__(self):
        return hash(concretize(self))

    def __eq__(self, o):
        if not isinstance(o, str):
            return NotImplemented if not isinstance(o, Sym) else False
        if isinstance(o, SymText):
            return o == self
        o = SymStr.of(o)
        if len(o.c) != len(self.c):
            return False
        return conj(cp_eq(a, b) for a, b in zip(self.c, o.c))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else sx_not(r)

    def _lt(self, o, orequal):
        a, b = self.c, SymStr.of(o).c
        t = z3.BoolVal((len(a) < len(b)) or (orequal and len(a) == len(b)))
        for i in range(min(len(a), len(b)) - 1, -1, -1):
            x, y = c2t(a[i]), c2t(b[i])
            t = z3.If(x == y, t, z3.ULT(x, y))
        return mkbool(t)

    def __lt__(self, o):
        return self._lt(o, False)

    def __le__(self, o):
        return self._lt(o, True)

    def __gt__(self, o):
        return sx_not(self._lt(o, True))

    def __ge__(self, o):
        return sx_not(self._lt(o, False))

    def __getitem__(self, k):
        if isinstance(k, slice):
            f = lambda v: None if v is None else concretize(v)
            return mkstr(self.c[slice(f(k.start), f(k.stop), f(k.step))])
        return mkstr([self.c[concretize(k)]])

    def __add__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return mkstr(self.c + SymStr.of(o).c)

    def __radd__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return mkstr(SymStr.of(o).c + self.c)

    def __mul__(self, n):
        return mkstr(self.c * max(concretize(n), 0))

    __rmul__ = __mul__

    def __contains__(self, o):
        o = SymStr.of(o).c
        return self._find(o, 0, len(self.c)) >= 0

    def _find(self, o, a, b):
        for i in range(a, b - len(o) + 1):
            if conj(cp_eq(self.c[i + j], o[j]) for j in range(len(o))):
                return i
        return -1

    def find(self, o, a=0, b=None):
        return self._find(SymStr.of(o).c, a, len(self.c) if b is None else b)

    def index(self, o, *a):
        r = self.find(o, *a)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def count(self, o, *a):
        o = SymStr.of(o).c
        n = i = 0
        if not o or a:
            engine().note_conc("str.count")
            return concretize(self).count(concretize(SymStr(o)), *a)
        while True:
            i = self._find(o, i, len(self.c))
            if i < 0:
                return n
            n += 1
            i += len(o)

    def startswith(self, p, a=0, b=None):
        b = len(self.c) if b is None else min(b, len(self.c))
        if isinstance(p, tuple):
            return bool(disj(self.startswith(x, a, b) for x in p))
        p = SymStr.of(p).c
        if a > len(self.c) or b - a < len(p):
            return False
        return conj(cp_eq(self.c[a + i], p[i]) for i in range(len(p)))

    def endswith(self, p, *a):
        if isinstance(p, tuple):
            return bool(disj(self.endswith(x) for x in p))
        p = SymStr.of(p).c
        if len(self.c) < len(p):
            return False
        o = len(self.c) - len(p)
        return conj(cp_eq(self.c[o + i], p[i]) for i in range(len(p)))

    def removeprefix(self, p):
        if p and self.startswith(p):
            return self[len(p):]
        return self

    def removesuffix(self, p):
        if p and self.endswith(p):
            return self[: -len(p)]
        return self

    def _case(self, lo, hi, d, name):
        out = []
        for x in self.c:
            if isinstance(x, int):
                s = getattr(chr(x), name)()
                out.extend(ord(q) for q in s)
            else:
                i = cp_info(x)
                if cp_in(x, [(128, 0x10ffff)]):
                    if not cp_in(x, uni_ranges(name)):
                        out.append(x)
                        continue
                    engine().note_conc("str.%s non-ascii" % name)
                    s = getattr(chr(concretize_cp(x)), name)()
                    out.extend(ord(q) for q in s)
                elif i is not None and _disjoint(i[1], ((lo, hi),)):
                    out.append(x)
                elif i is not None and i[2] is not None:
                    out.append(hexcp(i[2], d < 0))
                else:
                    out.append(mkcp(z3.If(z3.And(z3.UGE(x, BV(lo, 21)), z3.ULE(x, BV(hi, 21))),
                                          x + BV(d, 21), x)))
        return mkstr(out)

    def lower(self):
        return self._case(65, 90, 32, "lower")

    def upper(self):
        return self._case(97, 122, -32, "upper")

    def casefold(self):
        return self._case(65, 90, 32, "casefold")

    def _all(self, ranges, name):
        if not self.c:
            return name == "isprintable"
        ts = []
        for x in self.c:
            i = cp_info(x)
            ascii_ = isinstance(x, int) and x < 128 or (
                i is not None and _subset(i[1], ((0, 127),)))
            ts.append(cp_in(x, ranges if ascii_ and ranges else uni_ranges(name)))
        return conj(ts)

    def isdigit(self):
        return self._all([(48, 57)], "isdigit")

    def isdecimal(self):
        return self._all([(48, 57)], "isdecimal")

    def isnumeric(self):
        return self._all([(48, 57)], "isnumeric")

    def isspace(self):
        return self._all([(9, 13), (28, 32)], "isspace")

    def isprintable(self):
        return self._all([(32, 126)], "isprintable")

    def isalpha(self):
        return self._all([(65, 90), (97, 122)], "isalpha")

    def isalnum(self):
        return self._all([(48, 57), (65, 90), (97, 122)], "isalnum")

    def ljust(self, w, fill=" "):
        return mkstr(self.c + SymStr.of(fill).c * max(concretize(w) - len(self.c), 0))

    def rjust(self, w, fill=" "):
        return mkstr(SymStr.of(fill).c * max(concretize(w) - len(self.c), 0) + self.c)

    def zfill(self, w):
        if self.c and disj([cp_eq(self.c[0], 43), cp_eq(self.c[0], 45)]):
            return mkstr([self.c[0]]) + SymStr.of(self[1:]).rjust(concretize(w) - 1, "0")
        return self.rjust(w, "0")

    def rfind(self, o, a=0, b=None):
        o = SymStr.of(o).c
        b = len(self.c) if b is None else b
        for i in range(b - len(o), a - 1, -1):
            if conj(cp_eq(self.c[i + j], o[j]) for j in range(len(o))):
                return i
        return -1

    def rindex(self, o, *a):
        r = self.rfind(o, *a)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def rpartition(self, sep):
        j = self.rfind(sep)
        if j < 0:
            return "", "", self
        return self[:j], sep, self[j + len(sep):]

    def rsplit(self, sep=None, maxsplit=-1):
        if sep is None:
            engine().note_conc("str.rsplit")
            return concretize(self).rsplit(None, maxsplit)
        out, rest = [], self
        while maxsplit != 0:
            j = SymStr.of(rest).rfind(sep)
            if j < 0:
                break
            out.append(rest[j + len(sep):])
            rest = rest[:j]
            maxsplit -= 1
        out.append(rest)
        return out[::-1]

    def isascii(self):
        return conj(cp_in(x, [(0, 127)]) for x in self.c)

    def join(self, parts):
        out = []
        for k, p in enumerate(parts):
            if not isinstance(p, str):
                raise TypeError("sequence item %d: expected str instance, %s found"
                                % (k, type_of(p).__name__))
            if k:
                out.extend(self.c)
            out.extend(SymStr.of(p).c)
        return mkstr(out)

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            engine().note_conc("str.split")
            return concretize(self).split(None, maxsplit)
        sep = SymStr.of(sep).c
        out, i = [], 0
        while maxsplit != 0:
            j = self._find(sep, i, len(self.c))
            if j < 0:
                break
            out.append(mkstr(self.c[i:j]))
            i = j + len(sep)
            maxsplit -= 1
        out.append(mkstr(self.c[i:]))
        return out

    def partition(self, sep):
        j = self.find(sep)
        if j < 0:
            return self, "", ""
        return self[:j], sep, self[j + len(sep):]

    def replace(self, a, b, n=-1):
        return SymStr.of(b).join(self.split(a, n))

    def _strip(self, chars, left, right):
        cs = None if chars is None else [(x, x) for x in map(concretize_cp, SymStr.of(chars).c)]
        if cs is None:
            cs = [(9, 13), (28, 32), (0x85, 0x85), (0xA0, 0xA0), (0x1680, 0x1680),
                  (0x2000, 0x200A), (0x2028, 0x2029), (0x202F, 0x202F), (0x205F, 0x205F),
                  (0x3000, 0x3000)]
        i, j = 0, len(self.c)
        while left and i < j and cp_in(self.c[i], cs):
            i += 1
        while right and j > i and cp_in(self.c[j - 1], cs):
            j -= 1
        return mkstr(self.c[i:j])

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    def encode(self, encoding="utf-8", errors="strict"):
        return str_encode(self, encoding, errors)

    def __mod__(self, a):
        return concretize(self) % a


def concretize_cp(x):
    return x if isinstance(x, int) else engine().pick(x, lambda v: v.as_long())


class SymText(Sym):
    """str known through its UTF-8 bytes (assumed or decided valid).

    Models the utf-8 codec as the bijection between valid UTF-8 byte strings and text.
    """

    __slots__ = ("b", "lossy")
    _py = str
    __class__ = property(lambda self: str)

    def __init__(self, b, lossy=None):
        self.b = b
        self.lossy = lossy  # errors= handler used on invalid data, if any

    def __hash__(self):
        return hash(concretize(self))

    def __eq__(self, o):
        if not isinstance(o, str):
            return NotImplemented if not isinstance(o, Sym) else False
        if isinstance(o, SymText):
            if self.lossy != o.lossy:
                return False
            return bytes_eq(self.b, o.b)
        if self.lossy:
            return concretize(self) == o
        try:
            ob = str_encode(o, "utf-8", "strict") if isinstance(o, SymStr) else o.encode("utf-8")
        except UnicodeEncodeError:
            return False
        return bytes_eq(self.b, SymBytes.of(ob))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else sx_not(r)

    def __len__(self):
        return len(concretize(self))

    def __bool__(self):
        if self.lossy not in (None, "surrogateescape", "surrogatepass", "replace",
                              "backslashreplace"):
            return bool(concretize(self))
        return bool(self.b)

    def sx_len(self):
        m = self.b.max_len()
        if m > 300 or self.lossy:
            return len(concretize(self))
        n = self.b.length()
        r = 0
        for i in range(m):
            x = self.b.at(i)
            c = z3.Not(z3.And(z3.UGE(b2t(x), BV(0x80, 8)), z3.ULE(b2t(x), BV(0xBF, 8))))
            if isinstance(n, SymInt):
                c = z3.And(c, zbool(n > i))
            r = r + ite(mkbool(c), 1, 0)
        return r

    def encode(self, encoding="utf-8", errors="strict"):
        codec = _norm_codec(encoding)
        if codec in ("utf-8", "utf-8-sig") and (
                not self.lossy or self.lossy == errors == "surrogatepass"):
            r = self.b if self.b.items is None else mkbytes(self.b.items)
            return r if codec == "utf-8" else b"\xef\xbb\xbf" + r
        if codec == "utf-8" and errors == "strict" and self.lossy in (
                "surrogatepass", "surrogateescape"):
            raise UnicodeEncodeError("utf-8", "\ud800", 0, 1, "surrogates not allowed")
        return str_encode(SymStr([ord(c) for c in concretize(self)]), encoding, errors)

    def isascii(self):
        if self.lossy:
            return concretize(self).isascii()
        n, ts = self.b.length(), []
        m = self.b.max_len()
        if m > 300:
            return concretize(self).isascii()
        for i in range(m):
            c = z3.ULT(b2t(self.b.at(i)), BV(0x80, 8))
            ts.append(z3.Implies(zbool(n > i), c) if isinstance(n, SymInt) else c)
        return mkbool(z3.And(*ts)) if ts else True

    def chars(self):
        """the same text as code points (forks over the kinds of characters)"""
        items = self.b.fix()
        if self.lossy or len(items) > 300:
            return concretize(self)
        out, i = [], 0
        while i < len(items):
            x = items[i]
            t = [z3.ZeroExt(13, b2t(q)) for q in items[i:i + 4]]
            lim = lambda k: x < k if isinstance(x, int) else bool(
                mkbool(z3.ULT(x, BV(k, 8))))
            if lim(0x80):
                out.append(mkcp(t[0]))
                i += 1
            elif lim(0xE0) and len(t) > 1:
                out.append(mkcp(((t[0] & 31) << 6) | (t[1] & 63)))
                i += 2
            elif lim(0xF0) and len(t) > 2:
                out.append(mkcp(((t[0] & 15) << 12) | ((t[1] & 63) << 6) | (t[2] & 63)))
                i += 3
            elif len(t) > 3:
                out.append(mkcp(((t[0] & 7) << 18) | ((t[1] & 63) << 12) | ((t[2] & 63) << 6)
                                | (t[3] & 63)))
                i += 4
            else:
                raise PathInfeasible()
        return mkstr(out)

    def __add__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return self.chars() + (o.chars() if type(o) is SymText else o)

    def __radd__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return o + self.chars()

    def __getitem__(self, k):
        return self.chars()[k]

    def __iter__(self):
        return iter(self.chars())

    def __contains__(self, o):
        return o in SymStr.of(self.chars())


def _text_method(name):
    def m(self, *a, **k):
        r = self.chars()
        f = getattr(r if isinstance(r, SymStr) else SymStr.of(r), name)
        return f(*[x.chars() if type(x) is SymText else x for x in a], **k)

    m.__name__ = name
    return m


for _n in ("startswith", "endswith", "removeprefix", "removesuffix", "lower", "upper", "casefold",
           "isdigit", "isdecimal", "isnumeric", "isspace", "isprintable", "isalpha", "isalnum",
           "strip", "lstrip", "rstrip", "split", "rsplit", "partition", "rpartition", "replace",
           "find", "rfind", "index", "rindex", "count", "ljust", "rjust", "zfill", "join"):
    setattr(SymText, _n, _text_method(_n))


def ndigits(x):
    """len(str(x)) as an int/SymInt."""
    a = abs(x)
    m = len(str(a.hi)) if isinstance(a, SymInt) and a.hi.bit_length() < 13000 else None
    if m is None or m > 100:
        return None
    t = BV(1, 16)
    w = a.t.size()
    for k in range(1, m):
        t = z3.If(z3.UGE(a.t, BV(10 ** k, w)), BV(k + 1, 16), t)
    n = mkint(t, 1, m)
    if x.lo >= 0:
        return n
    return n + ite(x < 0, 1, 0)


_FRESH = [0]


class SymOpaque(Sym):
    """Text computed from symbolic values that nobody has looked at yet (messages).

    Length: exact where cheap, otherwise an arbitrary non-negative number; any other use
    computes the text by concretisation."""

    __slots__ = ("args", "n", "fn")
    _py = str
    __class__ = property(lambda self: str)

    def __init__(self, args, n, fn):
        self.args = args
        self.n = n
        self.fn = fn

    @staticmethod
    def concat(parts):
        return SymOpaque(list(parts), None, lambda *a: "".join(a))

    def force(self):
        engine().note_conc("text of a symbolic value")
        return self.fn(*[concretize(x) for x in self.args])

    def sx_len(self):
        if self.n is None:
            e = engine()
            k = e.fresh("len")
            self.n = SymInt(z3.BitVec(k, 14), 0, 8191)
            e.assume(self.n.t >= 0)
        return self.n

    def __len__(self):
        return len(self.force())

    def __bool__(self):
        return bool(self.force())

    def __add__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return SymOpaque.concat([self, o])

    def __radd__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return SymOpaque.concat([o, self])

    def __getitem__(self, k):
        if isinstance(k, slice):
            return SymOpaque([self], None, lambda v: v[k])
        return self.force()[k]

    def __eq__(self, o):
        if not isinstance(o, str):
            return NotImplemented if not isinstance(o, Sym) else False
        return self.force() == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else sx_not(r)

    def __hash__(self):
        return hash(self.force())

    def __contains__(self, o):
        return concretize(o) in self.force()

    def __iter__(self):
        return iter(self.force())


def _norm_codec(enc):
    try:
        return _codecs.lookup(enc).name
    except LookupError:
        return None


# UTF-8 automaton: 0 ok, 1..3 continuation bytes needed, 4 after E0, 5 after ED, 6 after F0,
# 7 after F4, 8 error
def _utf8_step(s, b, surr=False):
    def rng_(lo, hi):
        return z3.And(z3.UGE(b, BV(lo, 8)), z3.ULE(b, BV(hi, 8)))

    S = lambda k: BV(k, 4)
    cont = rng_(0x80, 0xBF)
    start = z3.If(z3.ULE(b, BV(0x7F, 8)), S(0),
            z3.If(rng_(0xC2, 0xDF), S(1),
            z3.If(b == BV(0xE0, 8), S(4),
            z3.If(b == BV(0xED, 8), S(5),
            z3.If(rng_(0xE1, 0xEF), S(2),
            z3.If(b == BV(0xF0, 8), S(6),
            z3.If(rng_(0xF1, 0xF3), S(3),
            z3.If(b == BV(0xF4, 8), S(7), S(8)))))))))
    return z3.If(s == S(0), start,
           z3.If(s == S(1), z3.If(cont, S(0), S(8)),
           z3.If(s == S(2), z3.If(cont, S(1), S(8)),
           z3.If(s == S(3), z3.If(cont, S(2), S(8)),
           z3.If(s == S(4), z3.If(rng_(0xA0, 0xBF), S(1), S(8)),
           z3.If(s == S(5), z3.If(cont if surr else rng_(0x80, 0x9F), S(1), S(8)),
           z3.If(s == S(6), z3.If(rng_(0x90, 0xBF), S(2), S(8)),
           z3.If(s == S(7), z3.If(rng_(0x80, 0x8F), S(2), S(8)), S(8)))))))))


def utf8_valid(b, surr=False):
    """bool/SymBool: b is valid UTF-8 (with surr: or would be if surrogates were allowed)."""
    if not isinstance(b, SymBytes):
        try:
            bytes(b).decode("utf-8", "surrogatepass" if surr else "strict")
            return True
        except UnicodeDecodeError:
            return False
    if b.ritems is not None and b.items is None:
        b.fix()
    s = BV(0, 4)
    n = b.length()
    if b.items is None and isinstance(b.base, ArrayBase):
        return _utf8_region(b, n, surr)
    m = b.max_len()
    if isinstance(n, SymInt):
        m = tighten(n, m)
    k = 0
    if b.items is not None:
        while k < m and isinstance(b.items[k], int) and b.items[k] < 128:
            k += 1
    if m - k > 1500:
        raise PathCut("utf-8 length bound")
    for i in range(k, m):
        x = b.at(i)
        if isinstance(x, int) and x < 128 and z3.is_bv_value(s) and s.as_long() == 0 \
                and not isinstance(n, SymInt):
            continue
        nx = _utf8_step(s, b2t(x), surr)
        if isinstance(n, SymInt):
            nx = z3.If(zbool(n > i), nx, s)
        s = z3.simplify(nx)
    return mkbool(s == 0)


def _utf8_region(b, n, surr=False):
    """Validity of a region of an input buffer at a symbolic place: an uninterpreted predicate of
    the place (the buffer never changes).  Models are asked to agree with the real predicate."""
    f = z3.Function("utf8%s!%s" % ("s" if surr else "", b.base.name), z3.BitVecSort(16), z3.BitVecSort(16), z3.BoolSort())
    st = term(b.start, 16)
    u = z3.simplify(f(st, term(n, 16)))
    e = engine()
    m = tighten(n, b.max_len())
    if surr and m <= 1500:
        sur = z3.And(zbool(n == 3), *[b2t(b.at(i)) == BV(v, 8)
                                      for i, v in enumerate((0xED, 0xA0, 0x80)[:m])])
        e.soft.append(z3.Implies(u, sur))
        e.soft.append(z3.Implies(z3.Not(u), b2t(b.at(0)) == BV(255, 8)))
    elif m <= 1500:
        ascii_ = z3.And(*[z3.Implies(zbool(n > i), z3.ULT(b2t(b.at(i)), BV(128, 8)))
                          for i in range(m)])
        e.soft.append(z3.Implies(u, ascii_))
        e.soft.append(z3.Implies(z3.Not(u), z3.Or(
            b2t(b.at(0)) == BV(255, 8), b2t(b.at(0)) == BV(0xED, 8))))
    return mkbool(z3.Or(zbool(n == 0), u))


def ascii_valid(b):
    n = b.length()
    ts = []
    for i in range(b.max_len()):
        x = b.at(i)
        if isinstance(x, int):
            if x < 128:
                continue
        elif x.get_id() in engine().bytecp and cp_in(byte_cp(x), [(0, 127)]) is True:
            continue
        g = zbool(n > i) if isinstance(n, SymInt) else z3.BoolVal(True)
        ts.append(z3.Implies(g, z3.ULT(b2t(x), BV(128, 8))))
    return mkbool(z3.And(*ts)) if ts else True


def bytes_decode(b, encoding="utf-8", errors="strict"):
    b = SymBytes.of(b)
    codec = _norm_codec(concretize(encoding))
    if codec == "utf-8":
        if b.items is not None and all(isinstance(x, int) for x in b.items):
            return bytes(b.items).decode("utf-8", errors)
        if utf8_valid(b):
            if isinstance(b, SymBytes) and b.items is None:
                b.u8 = True
            return SymText(b)
        if errors == "strict" or errors == "surrogatepass" and not utf8_valid(b, True):
            raise UnicodeDecodeError("utf-8", b"\xff", 0, 1, "invalid start byte (symbolic)")
        return SymText(b, lossy=errors)
    if codec == "utf-8-sig":
        return bytes_decode(b[3:] if b.startswith(b"\xef\xbb\xbf") else b, "utf-8", errors)
    if codec == "ascii":
        if ascii_valid(b):
            return mkstr([byte_cp(x) for x in b.fix()])
        if errors == "strict":
            raise UnicodeDecodeError("ascii", b"\xff", 0, 1, "ordinal not in range(128)")
    if codec == "iso8859-1":
        return mkstr([byte_cp(x) for x in b.fix()])
    engine().note_conc("decode %s/%s" % (codec, errors))
    return concretize(b).decode(encoding, errors)


def str_encode(s, encoding="utf-8", errors="strict"):
    if isinstance(s, SymText):
        return s.encode(encoding, errors)
    codec = _norm_codec(concretize(encoding))
    s = SymStr.of(s)
    dec = engine().decide
    out = []
    if codec == "utf-8":
        for x in s.c:
            if isinstance(x, int):
                try:
                    out.extend(chr(x).encode("utf-8"))
                except UnicodeEncodeError:
                    if errors == "strict":
                        raise
                    engine().note_conc("encode errors")
                    return concretize(s).encode(encoding, errors)
                continue
            e = lambda hi, lo: z3.Extract(hi, lo, x)
            if cp_in(x, [(0, 0x7f)]):
                out.append(cp_byte(x))
            elif dec(z3.ULT(x, BV(0x800, 21))):
                out.append(mkbyte(z3.Concat(BV(6, 3), e(10, 6))))
                out.append(mkbyte(z3.Concat(BV(2, 2), e(5, 0))))
            elif dec(z3.ULT(x, BV(0x10000, 21))):
                if dec(z3.And(z3.UGE(x, BV(0xD800, 21)), z3.ULE(x, BV(0xDFFF, 21)))):
                    if errors == "strict":
                        raise UnicodeEncodeError("utf-8", "\ud800", 0, 1, "surrogates not allowed")
                    engine().note_conc("encode errors")
                    return concretize(s).encode(encoding, errors)
                out.append(mkbyte(z3.Concat(BV(14, 4), e(15, 12))))
                out.append(mkbyte(z3.Concat(BV(2, 2), e(11, 6))))
                out.append(mkbyte(z3.Concat(BV(2, 2), e(5, 0))))
            else:
                out.append(mkbyte(z3.Concat(BV(30, 5), e(20, 18))))
                out.append(mkbyte(z3.Concat(BV(2, 2), e(17, 12))))
                out.append(mkbyte(z3.Concat(BV(2, 2), e(11, 6))))
                out.append(mkbyte(z3.Concat(BV(2, 2), e(5, 0))))
        return mkbytes(out)
    if codec in ("ascii", "iso8859-1"):
        lim = 128 if codec == "ascii" else 256
        for x in s.c:
            if cp_in(x, [(0, lim - 1)]):
                out.append(cp_byte(x))
            elif errors == "strict":
                raise UnicodeEncodeError(codec, "\u1234", 0, 1, "ordinal not in range")
            else:
                engine().note_conc("encode errors")
                return concretize(s).encode(encoding, errors)
        return mkbytes(out)
    engine().note_conc("encode %s" % codec)
    return concretize(s).encode(encoding, errors)


# ---------------------------------------------------------------------------------------
# decimals

def _p10(k):
    return 10 ** k


class SymDecimal(Sym):
    """decimal.Decimal: coef * 10**exp, finite; coef symbolic, exp concrete."""

    __slots__ = ("coef", "exp")
    _py = _D
    __class__ = property(lambda self: _D)

    def __init__(self, coef, exp):
        self.coef = coef
        self.exp = exp

    def __hash__(self):
        return hash(concretize(self))

    def __bool__(self):
        return bool(self.coef != 0)

    def is_nan(self):
        return False

    is_infinite = is_snan = is_qnan = is_nan

    def is_finite(self):
        return True

    def is_zero(self):
        return self.coef == 0

    def is_signed(self):
        return self.coef < 0

    def __int__(self):
        return concretize(dec_to_int(self))

    def __float__(self):
        return float(concretize(self))

    def __trunc__(self):
        return dec_to_int(self)

    def __neg__(self):
        return _fix(-self.coef, self.exp)

    def __pos__(self):
        return _fix(self.coef, self.exp)

    def __abs__(self):
        return _fix(abs(self.coef), self.exp)

    def copy_abs(self):
        return SymDecimal(abs(self.coef), self.exp)

    def copy_negate(self):
        return SymDecimal(-self.coef, self.exp)

    def __eq__(self, o):
        return _num_eq(self, o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else sx_not(r)

    def __lt__(self, o):
        return _num_cmp(self, o, "lt")

    def __le__(self, o):
        return _num_cmp(self, o, "le")

    def __gt__(self, o):
        return _num_cmp(self, o, "gt")

    def __ge__(self, o):
        return _num_cmp(self, o, "ge")

    def scaleb(self, k, context=None):
        k = concretize(k)
        k = int(k)
        return _fix(self.coef, self.exp + k, context)

    def to_integral_value(self, rounding=None, context=None):
        if self.exp >= 0:
            return self
        r = rounding or (context or _decimal.getcontext()).rounding
        return SymDecimal(_round_div(self.coef, _p10(-self.exp), r)[0], 0)

    to_integral = to_integral_value

    def to_integral_exact(self, rounding=None, context=None):
        ctx = context or _decimal.getcontext()
        if self.exp >= 0:
            return self
        q, inexact = _round_div(self.coef, _p10(-self.exp), rounding or ctx.rounding)
        if ctx.traps[_decimal.Inexact] and inexact:
            raise _decimal.Inexact()
        return SymDecimal(q, 0)

    def quantize(self, exp, rounding=None, context=None):
        ctx = context or _decimal.getcontext()
        e = concretize(exp)
        e = _D(e).as_tuple().exponent
        if e <= self.exp:
            c = self.coef * _p10(self.exp - e)
            inexact = False
        else:
            c, inexact = _round_div(self.coef, _p10(e - self.exp), rounding or ctx.rounding)
        if abs(c) >= _p10(ctx.prec):
            if ctx.traps[_decimal.InvalidOperation]:
                raise _decimal.InvalidOperation([_decimal.InvalidOperation])
            return _D("NaN")
        if ctx.traps[_decimal.Inexact] and inexact:
            raise _decimal.Inexact()
        return SymDecimal(c, e)

    def normalize(self, context=None):
        return _fix(self.coef, self.exp, context)

    def as_integer_ratio(self):
        engine().note_conc("Decimal.as_integer_ratio")
        return concretize(self).as_integer_ratio()

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, n, m=None):
        n = concretize(n)
        r = SymDecimal(1, 0)
        if m is None and isinstance(n, int) and n >= 0:
            r = SymDecimal(1, 0)
            for _ in range(n):
                r = r * self
            return r
        engine().note_conc("Decimal.**")
        return concretize(self) ** n


def _mk_dec_ops():
    for nm in ("add", "sub", "mul", "truediv", "floordiv", "mod"):
        def f(self, o, nm=nm):
            return _dec_op(nm, self, o)

        def g(self, o, nm=nm):
            return _dec_op(nm, o, self)

        setattr(SymDecimal, "__%s__" % nm, f)
        setattr(SymDecimal, "__r%s__" % nm, g)


_mk_dec_ops()


def as_dec(o):
    """(coef, exp) of a finite decimal-compatible operand or None."""
    if isinstance(o, SymDecimal):
        return o.coef, o.exp
    i = as_int(o)
    if i is not None:
        return i, 0
    if isinstance(o, _D):
        if not o.is_finite():
            return None
        s, ds, e = o.as_tuple()
        c = int("".join(map(str, ds)) or "0")
        return (-c if s else c), e
    return None


def mkdec(c, e):
    if not isinstance(c, SymInt):
        ctx = _decimal.Context(prec=max(_decimal.getcontext().prec, 6000))
        sign = 1 if c < 0 else 0
        return _D((sign, tuple(int(d) for d in str(abs(c))), e))
    return SymDecimal(c, e)


def _align(a, b):
    (ca, ea), (cb, eb) = a, b
    e = min(ea, eb)
    if max(ea, eb) - e > 3000:
        raise PathCut("decimal exponent spread")
    return ca * _p10(ea - e), cb * _p10(eb - e), e


def _is_numlike(o):
    return isinstance(o, (SymDecimal, SymInt, SymBool, int, _D))


def _num_eq(a, b):
    if isinstance(b, float) or isinstance(a, float):
        if isinstance(b, float) and b == b and b not in (float("inf"), float("-inf")):
            b = _D(b)
        elif isinstance(a, float) and a == a and a not in (float("inf"), float("-inf")):
            a = _D(a)
        else:
            return False
    if not _is_numlike(b):
        return NotImplemented if not isinstance(b, Sym) else False
    x, y = as_dec(a), as_dec(b)
    if x is None or y is None:
        return False
    p, q, _ = _align(x, y)
    return _cmp(p, q, "eq")


def _num_cmp(a, b, op):
    if isinstance(b, float):
        if b != b:
            return False
        if b in (float("inf"), float("-inf")):
            return {"lt": b > 0, "le": b > 0, "gt": b < 0, "ge": b < 0}[op]
        b = _D(b)
    if not _is_numlike(b):
        return NotImplemented
    x, y = as_dec(a), as_dec(b)
    if y is None:
        if b.is_nan():
            raise _decimal.InvalidOperation("comparison involving NaN")
        pos = b > 0
        return {"lt": pos, "le": pos, "gt": not pos, "ge": not pos}[op]
    p, q, _ = _align(x, y)
    if op == "lt":
        return _cmp(p, q, "lt")
    if op == "le":
        return _cmp(p, q, "le")
    if op == "gt":
        return _cmp(q, p, "lt")
    return _cmp(q, p, "le")


def _trunc_divmod(a, b):
    """truncating division of int/SymInt by int/SymInt, b != 0."""
    if not isinstance(a, SymInt) and not isinstance(b, SymInt):
        q = abs(a) // abs(b)
        if (a < 0) != (b < 0):
            q = -q
        return q, a - q * b
    al, _ = rng(a)
    bl, bh = rng(b)
    if not isinstance(b, SymInt) and b > 0 and _euc(a) is not None and al < 0:
        q, r = _idivmod(a, b)
        up = conj([q < 0, sx_not(r == 0)])
        return ite(up, q + 1, q), ite(up, r - b, r)
    if bl > 0:
        m = abs(a)
        q, r = _idivmod(m, b)
        neg = a < 0
        if neg is False:
            return q, r
        if not isinstance(r, SymInt) and r == 0 and isinstance(a, SymInt):
            f, k = _fac(a)
            if not isinstance(b, SymInt) and k % b == 0:
                return f * (k // b), 0
        if neg is True:
            return -q, -r
        return ite(neg, -q, q), ite(neg, -r, r)
    if bh < 0:
        q, r = _trunc_divmod(a, -b)
        return -q, r
    engine().note_conc("division sign")
    return _trunc_divmod(a, concretize(b))


def _round_div(c, d, mode):
    """c / d (d > 0 const) rounded to an integer with a decimal rounding mode.
    Returns (q, inexact)."""
    m = abs(c)
    q, r = _idivmod(m, d)
    neg = c < 0
    inexact = r != 0
    two = r * 2
    if mode == _decimal.ROUND_DOWN:
        up = False
    elif mode == _decimal.ROUND_UP:
        up = inexact
    elif mode == _decimal.ROUND_HALF_UP:
        up = two >= d
    elif mode == _decimal.ROUND_HALF_DOWN:
        up = two > d
    elif mode == _decimal.ROUND_HALF_EVEN:
        up = disj([two > d, conj([two == d, (q % 2) == 1])])
    elif mode == _decimal.ROUND_CEILING:
        up = conj([inexact, sx_not(neg)])
    elif mode == _decimal.ROUND_FLOOR:
        up = conj([inexact, neg])
    else:  # ROUND_05UP
        up = conj([inexact, disj([(q % 10) == 0, (q % 10) == 5])])
    q = q + ite(up, 1, 0)
    return ite(neg, -q, q), inexact


def _fix(c, e, context=None):
    """Round a decimal result to the (given or current) context."""
    ctx = context or _decimal.getcontext()
    p = ctx.prec
    if not isinstance(c, SymInt):
        return ctx.plus(mkdec(c, e))
    lim = _p10(p)
    if max(abs(c.lo), abs(c.hi)) < lim:
        return SymDecimal(c, e)
    a = abs(c)
    if a < lim:
        return SymDecimal(c, e)
    k = 1
    while a >= _p10(p + k):
        k += 1
        if k > 3000:
            raise PathCut("decimal digits")
    ctx.flags[_decimal.Rounded] = True
    if ctx.traps[_decimal.Rounded]:
        raise _decimal.Rounded()
    q, inexact = _round_div(c, _p10(k), ctx.rounding)
    if not ctx.flags[_decimal.Inexact] or ctx.traps[_decimal.Inexact]:
        if inexact:
            ctx.flags[_decimal.Inexact] = True
            if ctx.traps[_decimal.Inexact]:
                raise _decimal.Inexact()
    if abs(q) >= lim:
        q = ite(q < 0, -_p10(p - 1), _p10(p - 1))
        k += 1
    return SymDecimal(q, e + k) if isinstance(q, SymInt) else mkdec(q, e + k)


def _dec_op(op, a, b):
    """Decimal arithmetic with at least one symbolic operand."""
    if not (isinstance(a, (SymDecimal, _D)) or isinstance(b, (SymDecimal, _D))):
        if isinstance(a, float) or isinstance(b, float):
            engine().note_conc("int/float arithmetic")
            import operator
            return getattr(operator, op)(concretize(a), concretize(b))
        return NotImplemented
    if not _is_numlike(a) or not _is_numlike(b):
        return NotImplemented
    x, y = as_dec(a), as_dec(b)
    if x is None or y is None:
        engine().note_conc("decimal special")
        import operator
        return getattr(operator, op)(_D(concretize(a)), _D(concretize(b)))
    if op in ("add", "sub"):
        p, q, e = _align(x, y)
        return _fix(p + q if op == "add" else p - q, e)
    if op == "mul":
        return _fix(x[0] * y[0], x[1] + y[1])
    zero = y[0] == 0
    if zero:
        raise _decimal.DivisionByZero([_decimal.DivisionByZero])
    if op == "truediv":
        c, e = y
        if not isinstance(c, SymInt):
            neg = c < 0
            c = abs(c)
            k = 0
            while c % 10 == 0:
                c //= 10
                k += 1
            if c == 1:
                n = -x[0] if neg else x[0]
                return _fix(n, x[1] - e - k)
            # denominators 2^i*5^j are exact after scaling
            i = j = 0
            while c % 2 == 0:
                c //= 2
                i += 1
            while c % 5 == 0:
                c //= 5
                j += 1
            if c == 1:
                m = max(i, j)
                n = x[0] * (2 ** (m - i) * 5 ** (m - j))
                return _fix(-n if neg else n, x[1] - e - k - m)
        engine().note_conc("decimal division")
        return mkdec(concretize(x[0]), x[1]) / mkdec(concretize(y[0]), y[1])
    p, q, e = _align(x, y)
    dv, rm = _trunc_divmod(p, q)
    ctx = _decimal.getcontext()
    if abs(dv) >= _p10(ctx.prec):
        if ctx.traps[_decimal.InvalidOperation]:
            raise _decimal.InvalidOperation([_decimal.DivisionImpossible])
        return _D("NaN")
    if op == "floordiv":
        return _fix(dv, 0)
    return _fix(rm, e)


def dec_to_int(d):
    if d.exp >= 0:
        return d.coef * _p10(d.exp)
    return _trunc_divmod(d.coef, _p10(-d.exp))[0]


# ---------------------------------------------------------------------------------------
SYM_TYPES = (SymInt, SymBool, SymBytes, SymStr, SymText, SymDecimal, SymOpaque)
_SYMSET = frozenset(SYM_TYPES)


def is_sym(x):
    return type(x) in _SYMSET


def type_of(x):
    return x.__class__ if type(x) in _SYMSET else type(x)


def unique_or_pick(v):
    """concrete value of an int; forks if several are feasible."""
    if not isinstance(v, SymInt):
        return v
    return concretize(v)


def diversify(x):
    """forks so that the values picked next are not all of the same kind"""
    t = type(x)
    if t is SymInt:
        bool(x < 0) or bool(x < 256)
    elif t in (SymBytes, SymStr, SymText):
        if bool(x) and not bool(x.isascii()) and t is not SymBytes and not getattr(
                x, "lossy", None):
            # letters that case mappings or normalisation change
            bool(x.startswith("\u212b")) or bool(x.startswith("\u0130"))


def concretize(x):
    t = type(x)
    if t is SymInt:
        w = x.t.size()
        v = engine().pick(x.t, lambda q: q.as_long())
        return v - (1 << w) if v >> (w - 1) else v
    if t is SymBool:
        return engine().decide(x.t)
    if t is SymBytes:
        items = x.fix()
        # pick all unknown bytes at once
        idx = [i for i, b in enumerate(items) if not isinstance(b, int)]
        out = list(items)
        if idx:
            big = z3.Concat(*[items[i] for i in idx]) if len(idx) > 1 else items[idx[0]]
            v = engine().pick(z3.simplify(big), lambda q: q.as_long()).to_bytes(len(idx), "big")
            for k, i in enumerate(idx):
                out[i] = v[k]
        return x._py(out) if x._py is not memoryview else bytes(out)
    if t is SymStr:
        idx = [i for i, b in enumerate(x.c) if not isinstance(b, int)]
        out = list(x.c)
        if idx:
            big = z3.Concat(*[x.c[i] for i in idx]) if len(idx) > 1 else x.c[idx[0]]
            v = engine().pick(z3.simplify(big), lambda q: q.as_long())
            for k, i in enumerate(reversed(idx)):
                out[i] = (v >> (21 * k)) & 0x1FFFFF
        return "".join(map(chr, out))
    if t is SymText:
        return concretize(x.b).decode("utf-8", x.lossy or "strict")
    if t is SymDecimal:
        return mkdec(concretize(x.coef), x.exp)
    if t is SymOpaque:
        return x.force()
    if t is list:
        return [concretize(y) for y in x]
    if t is tuple:
        return tuple(concretize(y) for y in x)
    if t is dict:
        return {concretize(k): concretize(v) for k, v in x.items()}
    return x


# evaluation in a model -------------------------------------------------------------------
def ev(m, x):
    """Concrete Python value of x in model m (tuples/lists recursively)."""
    t = type(x)
    if t is SymInt:
        return m.eval(x.t, model_completion=True).as_signed_long()
    if t is SymBool:
        return z3.is_true(m.eval(x.t, model_completion=True))
    if t is SymBytes:
        def one(b):
            return b if isinstance(b, int) else m.eval(b, model_completion=True).as_long()
        if x.items is not None:
            out = [one(b) for b in x.items]
        else:
            n = ev(m, x.n)
            if x.base is not None:
                s = ev(m, x.start)
                out = [one(x.base.get(s + i)) for i in range(n)]
            else:
                out = [one(x.ritems[n - 1 - i]) for i in range(n)]
        return x._py(out) if x._py is not memoryview else bytes(out)
    if t is SymStr:
        return "".join(chr(c if isinstance(c, int) else m.eval(c, model_completion=True).as_long())
                       for c in x.c)
    if t is SymText:
        return ev(m, x.b).decode("utf-8", x.lossy or "strict")
    if t is SymDecimal:
        return mkdec(ev(m, x.coef), x.exp)
    if t is SymOpaque:
        return "<text>"
    if t in (list, tuple):
        return t(ev(m, y) for y in x)
    if t is dict:
        return {ev(m, k): ev(m, v) for k, v in x.items()}
    return x


def deep_eq(a, b):
    """Equality of nested sequences as one condition (no forking)."""
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        if type(a) is not type(b) or len(a) != len(b):
            return False
        return conj(deep_eq(x, y) for x, y in zip(a, b))
    ta, tb = type_of(a), type_of(b)
    if ta is not tb:
        return False
    r = a == b
    return r if isinstance(r, (bool, SymBool)) else bool(r)
