"""Proxy values: exact integers over bit-vectors, integers over LIA, reals,
booleans, byte strings and text.  None of the operations wraps: SymInt grows
its bit-vector so that Python's unbounded integers are represented exactly."""
import z3
from fractions import Fraction
from . import engine as E

_int, _float, _str, _bytes, _bytearray, _bool, _len = int, float, str, bytes, bytearray, bool, len


def eng():
    return E.CUR


# ---------------------------------------------------------------- booleans
class SymBool(object):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return eng().branch(self.e)

    def _i(self):
        return SymInt.mk(z3.If(self.e, z3.BitVecVal(1, 2), z3.BitVecVal(0, 2)), 0, 1)

    def __eq__(self, o):
        if o is True or o is False:
            return mkbool(self.e == o)
        if isinstance(o, SymBool):
            return mkbool(self.e == o.e)
        if isinstance(o, (_int, SymInt, SymZ, SymReal, _float)):
            return self._i() == o
        return False

    def __ne__(self, o):
        return neg(self == o)

    def __hash__(self):
        return hash(_bool(self))

    def __and__(self, o):
        if isinstance(o, SymBool) or o is True or o is False:
            return mkbool(z3.And(self.e, zb(o)))
        return self._i() & o
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, SymBool) or o is True or o is False:
            return mkbool(z3.Or(self.e, zb(o)))
        return self._i() | o
    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, SymBool) or o is True or o is False:
            return mkbool(z3.Xor(self.e, zb(o)))
        return self._i() ^ o
    __rxor__ = __xor__

    def __invert__(self):
        return ~self._i()

    def __index__(self):
        return 1 if self else 0
    __int__ = __index__

    def __float__(self):
        return 1.0 if self else 0.0

    def __repr__(self):
        return '<symbool>'

    def __format__(self, spec):
        return '<symbool>'

    def __add__(self, o): return self._i() + o
    def __radd__(self, o): return o + self._i()
    def __sub__(self, o): return self._i() - o
    def __rsub__(self, o): return o - self._i()
    def __mul__(self, o): return self._i() * o
    def __rmul__(self, o): return o * self._i()
    def __lshift__(self, o): return self._i() << o
    def __rshift__(self, o): return self._i() >> o
    def __lt__(self, o): return self._i() < o
    def __le__(self, o): return self._i() <= o
    def __gt__(self, o): return self._i() > o
    def __ge__(self, o): return self._i() >= o
    def __neg__(self): return -self._i()


def mkbool(e):
    if e is True or e is False:
        return e
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def zb(b):
    """z3 Bool of a bool / SymBool / condition."""
    if isinstance(b, SymBool):
        return b.e
    if isinstance(b, z3.BoolRef):
        return b
    return z3.BoolVal(_bool(b))


def neg(b):
    if isinstance(b, SymBool):
        return mkbool(z3.Not(b.e))
    return not b


def conj(bs):
    out = []
    for b in bs:
        if isinstance(b, SymBool):
            out.append(b.e)
        elif not b:
            return False
    if not out:
        return True
    if _len(out) == 1:
        return mkbool(out[0])
    return mkbool(z3.And(*out))


def disj(bs):
    return neg(conj([neg(b) for b in bs]))


def is_sym(v):
    return isinstance(v, (SymBool, SymInt, SymZ, SymReal, SymDouble, SymBytes, SymByteArray, SymStr)) \
        or getattr(v, '_symx_symbolic', False)


# ---------------------------------------------------------------- integers
def width_for(lo, hi):
    """Bits of a signed bit-vector holding every value of [lo, hi]."""
    w = 1
    if hi > 0:
        w = max(w, hi.bit_length() + 1)
    if lo < 0:
        w = max(w, (-lo - 1).bit_length() + 1)
    return w


def resize(e, w):
    cw = e.size()
    if cw == w:
        return e
    if cw < w:
        return z3.SignExt(w - cw, e)
    return z3.Extract(w - 1, 0, e)


MAXW = 4200


class SymInt(object):
    __slots__ = ('e', 'lo', 'hi')

    @staticmethod
    def mk(e, lo, hi):
        if lo == hi:
            return lo
        w = width_for(lo, hi)
        if w > MAXW:
            raise E.Unsupported('integer wider than %d bits' % MAXW)
        e = z3.simplify(resize(e, w))
        if z3.is_bv_value(e):
            return e.as_signed_long()
        s = object.__new__(SymInt)
        s.e, s.lo, s.hi = e, lo, hi
        return s

    @staticmethod
    def from_bv(bv, signed):
        n = bv.size()
        if signed:
            return SymInt.mk(bv, -(1 << (n - 1)), (1 << (n - 1)) - 1)
        return SymInt.mk(z3.ZeroExt(1, bv), 0, (1 << n) - 1)

    def at(self, w):
        return resize(self.e, w)

    @property
    def w(self):
        return self.e.size()

    def _co(self, o):
        if isinstance(o, SymInt):
            return o
        if isinstance(o, SymBool):
            o = o._i()
            if isinstance(o, SymInt):
                return o
        if isinstance(o, _int):
            o = _int(o)
            s = object.__new__(SymInt)
            s.e, s.lo, s.hi = z3.BitVecVal(o, width_for(o, o)), o, o
            return s
        return None

    def _bin(self, o, f, lo, hi):
        w = max(width_for(lo, hi), self.w, o.w)
        return SymInt.mk(f(self.at(w), o.at(w)), lo, hi)

    def __add__(self, o):
        if isinstance(o, (SymZ, SymReal, _float)):
            return toreal(self) + o
        o = self._co(o)
        if o is None:
            return NotImplemented
        return self._bin(o, lambda a, b: a + b, self.lo + o.lo, self.hi + o.hi)
    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, (SymZ, SymReal, _float)):
            return toreal(self) - o
        o = self._co(o)
        if o is None:
            return NotImplemented
        return self._bin(o, lambda a, b: a - b, self.lo - o.hi, self.hi - o.lo)

    def __rsub__(self, o):
        if isinstance(o, _float):
            return o - toreal(self)
        o = self._co(o)
        if o is None:
            return NotImplemented
        return o - self

    def __mul__(self, o):
        if isinstance(o, (SymZ, SymReal, _float)):
            return toreal(self) * o
        if isinstance(o, (_str, _bytes, _bytearray, list, tuple)):
            return o * self.__index__()
        o = self._co(o)
        if o is None:
            return NotImplemented
        c = [self.lo * o.lo, self.lo * o.hi, self.hi * o.lo, self.hi * o.hi]
        return self._bin(o, lambda a, b: a * b, min(c), max(c))
    __rmul__ = __mul__

    def __truediv__(self, o):
        return toreal(self) / o

    def __rtruediv__(self, o):
        return toreal(o) / toreal(self)

    def _divmod(self, o):
        o = self._co(o)
        if o is None:
            return None
        if self_true(SymInt._eq(o, 0)):
            raise ZeroDivisionError('integer division or modulo by zero')
        m = max(abs(self.lo), abs(self.hi))
        w = max(self.w, o.w) + 1
        a, b = self.at(w), o.at(w)
        q0 = a / b          # signed, truncating
        r0 = z3.SRem(a, b)
        adj = z3.And(r0 != 0, (r0 < 0) != (b < 0))
        q = z3.If(adj, q0 - 1, q0)
        r = z3.If(adj, r0 + b, r0)
        mb = max(abs(o.lo), abs(o.hi))
        rlo = 0 if o.lo > 0 else -(mb - 1) if o.lo < 0 else 0
        rhi = 0 if o.hi < 0 else mb - 1
        qlo, qhi = -m - 1, m
        if self.lo >= 0 and o.lo > 0:
            qlo, qhi = self.lo // o.hi, self.hi // o.lo
        return SymInt.mk(q, qlo, qhi), SymInt.mk(r, rlo, rhi)

    def __floordiv__(self, o):
        if isinstance(o, (_float, SymReal)):
            raise E.Unsupported('float floor division')
        d = self._divmod(o)
        return NotImplemented if d is None else d[0]

    def __mod__(self, o):
        if isinstance(o, (_float, SymReal)):
            raise E.Unsupported('float modulo')
        d = self._divmod(o)
        return NotImplemented if d is None else d[1]

    def __divmod__(self, o):
        d = self._divmod(o)
        return NotImplemented if d is None else d

    def __rfloordiv__(self, o):
        return self._co(o)._divmod(self)[0]

    def __rmod__(self, o):
        return self._co(o)._divmod(self)[1]

    def __pow__(self, o, mod=None):
        if isinstance(o, SymInt):
            o = o.__index__()
        if not isinstance(o, _int):
            raise E.Unsupported('pow')
        if o < 0:
            return toreal(1) / (self ** -o)
        r = 1
        for _ in range(o):
            r = r * self
        return r

    def __rpow__(self, o):
        return o ** self.__index__()

    def __neg__(self):
        return 0 - self

    def __pos__(self):
        return self

    def __abs__(self):
        if self.lo >= 0:
            return self
        if self.hi <= 0:
            return -self
        w = self.w + 1
        a = self.at(w)
        return SymInt.mk(z3.If(a < 0, -a, a), 0, max(-self.lo, self.hi))

    def __invert__(self):
        return -1 - self

    def _bit(self, o, f, kind):
        o = self._co(o)
        if o is None:
            return NotImplemented
        if self.lo >= 0 and o.lo >= 0:
            if kind == '&':
                lo, hi = 0, min(self.hi, o.hi)
            else:
                lo, hi = 0, (1 << max(self.hi.bit_length(), o.hi.bit_length())) - 1
        elif kind == '&' and (self.lo >= 0 or o.lo >= 0):
            lo, hi = 0, self.hi if self.lo >= 0 else o.hi
        else:
            w = max(self.w, o.w)
            lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
        return self._bin(o, f, lo, hi)

    def __and__(self, o): return self._bit(o, lambda a, b: a & b, '&')
    __rand__ = __and__
    def __or__(self, o): return self._bit(o, lambda a, b: a | b, '|')
    __ror__ = __or__
    def __xor__(self, o): return self._bit(o, lambda a, b: a ^ b, '^')
    __rxor__ = __xor__

    def __lshift__(self, o):
        if isinstance(o, SymInt):
            o = o.__index__()
        if o < 0:
            raise ValueError('negative shift count')
        lo, hi = self.lo << o, self.hi << o
        w = max(width_for(lo, hi), self.w)
        return SymInt.mk(self.at(w) << o, lo, hi)

    def __rlshift__(self, o):
        return o << self.__index__()

    def __rshift__(self, o):
        if isinstance(o, SymInt):
            o = o.__index__()
        if o < 0:
            raise ValueError('negative shift count')
        if o >= self.w:
            return SymInt.mk(z3.If(self.e < 0, z3.BitVecVal(-1, 2), z3.BitVecVal(0, 2)),
                             -1 if self.lo < 0 else 0, 0 if self.hi >= 0 else -1)
        return SymInt.mk(self.e >> o, self.lo >> o, self.hi >> o)

    def __rrshift__(self, o):
        return o >> self.__index__()

    @staticmethod
    def _eq(a, o):
        o = a._co(o)
        if a.hi < o.lo or a.lo > o.hi:
            return False
        w = max(a.w, o.w)
        return mkbool(a.at(w) == o.at(w))

    def __eq__(self, o):
        if isinstance(o, (SymZ, SymReal, _float)):
            return toreal(self) == o
        if isinstance(o, (_int, SymInt, SymBool)):
            return SymInt._eq(self, o)
        return False if not hasattr(o, '_symx_reflect') else NotImplemented

    def __ne__(self, o):
        return neg(self == o)

    def _cmp(self, o, f, below, above):
        if isinstance(o, (SymZ, SymReal, _float)):
            return f(toreal(self), o)
        o = self._co(o)
        if o is None:
            return NotImplemented
        if self.hi < o.lo:
            return below
        if self.lo > o.hi:
            return above
        if f is LE and self.hi <= o.lo:
            return True
        if f is GE and self.lo >= o.hi:
            return True
        if f is LT and self.lo >= o.hi:
            return False
        if f is GT and self.hi <= o.lo:
            return False
        w = max(self.w, o.w)
        return mkbool(f(self.at(w), o.at(w)))

    def __lt__(self, o): return self._cmp(o, LT, True, False)
    def __le__(self, o): return self._cmp(o, LE, True, False)
    def __gt__(self, o): return self._cmp(o, GT, False, True)
    def __ge__(self, o): return self._cmp(o, GE, False, True)

    def __bool__(self):
        return _bool(self != 0)

    def __index__(self):
        return eng().concretise(self.e, lambda v: v.as_signed_long(), 'int')
    __int__ = __index__

    def __hash__(self):
        return hash(self.__index__())

    def __float__(self):
        return float(self.__index__())

    def __repr__(self):
        return '<symint>'
    __str__ = __repr__

    def __format__(self, spec):
        return '<symint>'

    def bit_length(self):
        a = abs(self)
        if isinstance(a, _int):
            return a.bit_length()
        w = a.w
        r = z3.BitVecVal(0, 16)
        for i in range(w):
            r = z3.If(z3.Extract(i, i, a.e) == 1, z3.BitVecVal(i + 1, 16), r)
        return SymInt.mk(r, 0, w)

    def to_bytes(self, length, byteorder='big', signed=False):
        return int_to_bytes(self, length, byteorder, signed)

    def is_integer(self):
        return True

    def __round__(self, n=None):
        return self

    def __trunc__(self):
        return self

    real = property(lambda s: s)
    imag = property(lambda s: 0)
    numerator = property(lambda s: s)
    denominator = property(lambda s: 1)


def LT(a, b): return a < b
def LE(a, b): return a <= b
def GT(a, b): return a > b
def GE(a, b): return a >= b


def self_true(b):
    return _bool(b)


# ---------------------------------------------------------- LIA / reals
class SymZ(object):
    """Integer over z3's mathematical integers (for arithmetic-heavy code)."""
    __slots__ = ('e',)

    @staticmethod
    def mk(e):
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        s = object.__new__(SymZ)
        s.e = e
        return s

    @staticmethod
    def co(o):
        if isinstance(o, SymZ):
            return o.e
        if isinstance(o, SymInt):
            return z3.BV2Int(o.e, is_signed=True)
        if isinstance(o, SymBool):
            return z3.If(o.e, 1, 0)
        if isinstance(o, _int):
            return z3.IntVal(_int(o))
        return None

    def _b(self, o, f):
        if isinstance(o, (_float, SymReal)):
            return f(toreal(self), o)
        o = SymZ.co(o)
        if o is None:
            return NotImplemented
        return SymZ.mk(f(self.e, o))

    def __add__(self, o): return self._b(o, lambda a, b: a + b)
    def __radd__(self, o): return self._b(o, lambda a, b: b + a)
    def __sub__(self, o): return self._b(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._b(o, lambda a, b: b - a)
    def __mul__(self, o): return self._b(o, lambda a, b: a * b)
    __rmul__ = __mul__
    def __neg__(self): return SymZ.mk(-self.e)
    def __pos__(self): return self
    def __truediv__(self, o): return toreal(self) / o
    def __rtruediv__(self, o): return toreal(o) / toreal(self)

    def _dm(self, a, b):
        if _bool(mkbool(b == 0)):
            raise ZeroDivisionError('integer division or modulo by zero')
        # python floor semantics from z3's euclidean div
        q = z3.If(z3.And(b < 0, a % b != 0), a / b - 1, a / b)
        return q, a - b * q

    def __floordiv__(self, o):
        return SymZ.mk(self._dm(self.e, SymZ.co(o))[0])

    def __rfloordiv__(self, o):
        return SymZ.mk(self._dm(SymZ.co(o), self.e)[0])

    def __mod__(self, o):
        return SymZ.mk(self._dm(self.e, SymZ.co(o))[1])

    def __rmod__(self, o):
        return SymZ.mk(self._dm(SymZ.co(o), self.e)[1])

    def __divmod__(self, o):
        q, r = self._dm(self.e, SymZ.co(o))
        return SymZ.mk(q), SymZ.mk(r)

    def __abs__(self): return SymZ.mk(z3.If(self.e < 0, -self.e, self.e))

    def _c(self, o, f):
        if isinstance(o, (_float, SymReal)):
            return f(toreal(self), o)
        o = SymZ.co(o)
        if o is None:
            return NotImplemented
        return mkbool(f(self.e, o))

    def __lt__(self, o): return self._c(o, LT)
    def __le__(self, o): return self._c(o, LE)
    def __gt__(self, o): return self._c(o, GT)
    def __ge__(self, o): return self._c(o, GE)

    def __eq__(self, o):
        if isinstance(o, (_float, SymReal)):
            return toreal(self) == o
        o = SymZ.co(o)
        return False if o is None else mkbool(self.e == o)

    def __ne__(self, o): return neg(self == o)
    def __bool__(self): return _bool(self != 0)

    def __index__(self):
        return eng().concretise(self.e, lambda v: v.as_long(), 'int')
    __int__ = __index__

    def __hash__(self): return hash(self.__index__())
    def __repr__(self): return '<symz>'
    __str__ = __repr__
    def __format__(self, spec): return '<symz>'
    def __round__(self, n=None): return self
    def is_integer(self): return True
    def __and__(self, o): raise E.Unsupported('bit operation on LIA integer')
    __or__ = __xor__ = __lshift__ = __rshift__ = __rand__ = __ror__ = __and__

    def __pow__(self, o):
        r = 1
        for _ in range(o):
            r = r * self
        return r


def q(v):
    f = Fraction(v)
    return z3.RealVal('%d/%d' % (f.numerator, f.denominator))


class SymReal(object):
    """A float treated as an exact real (assumption stated by the harness), or
    with `round_ops` an exact real with bounded relative rounding error per
    multiplication.  `ival` is set while the value is known to be an integer
    carried exactly (float(int) with |int| < 2**53)."""
    __slots__ = ('_e', 'ival')
    rounding = False

    def __init__(self, e=None, ival=None):
        self._e = e
        self.ival = ival

    @property
    def e(self):
        if self._e is None:
            self._e = z3.ToReal(SymZ.co(self.ival))
        return self._e

    @staticmethod
    def mk(e):
        e = z3.simplify(e)
        if z3.is_rational_value(e):
            f = Fraction(e.numerator_as_long(), e.denominator_as_long())
            v = _float(f)
            if Fraction(v) == f:
                return v
        return SymReal(e)

    @staticmethod
    def co(o):
        if isinstance(o, SymReal):
            return o.e
        if isinstance(o, (SymZ, SymInt, SymBool)):
            return z3.ToReal(SymZ.co(o))
        if isinstance(o, (_int, _float, Fraction)):
            if isinstance(o, _float) and (o != o or o in (float('inf'), float('-inf'))):
                raise E.Unsupported('non-finite float')
            return q(o)
        return None

    @staticmethod
    def _round(e):
        """Result of one rounded float operation with exact value e."""
        if not SymReal.rounding:
            return e
        en = eng()
        en.fresh_n += 1
        y = z3.Real('rnd!%d' % en.fresh_n)
        u = z3.Q(1, 2 ** 53)
        a = z3.If(e < 0, -e, e)
        en.assume(z3.And(y - e <= a * u, e - y <= a * u))
        return y

    def _b(self, o, f, rnd=False):
        o2 = SymReal.co(o)
        if o2 is None:
            return NotImplemented
        return SymReal.mk(SymReal._round(f(self.e, o2)))

    def __add__(self, o):
        if not is_num(o): return NotImplemented
        if not is_sym(o) and o == 0: return self
        return self._b(o, lambda a, b: a + b)
    __radd__ = __add__
    def __sub__(self, o):
        return self._b(o, lambda a, b: a - b)
    def __rsub__(self, o):
        return self._b(o, lambda a, b: b - a)

    def __mul__(self, o):
        if self.ival is not None and isinstance(o, (_int, _float)) and o == 1:
            return self
        if self.ival is not None and isinstance(o, (_int, _float)) and o == int(o):
            p = self.ival * int(o)
            if isinstance(p, SymInt) and abs(p.lo) <= 2 ** 53 and abs(p.hi) <= 2 ** 53:
                return SymReal(None, p)
            if isinstance(p, _int):
                return _float(p)
        return self._b(o, lambda a, b: a * b)
    __rmul__ = __mul__

    def __truediv__(self, o):
        o2 = SymReal.co(o)
        if o2 is None:
            return NotImplemented
        if _bool(mkbool(o2 == 0)):
            raise ZeroDivisionError('float division by zero')
        return SymReal.mk(SymReal._round(self.e / o2))

    def __rtruediv__(self, o):
        return toreal(o).__truediv__(self)

    def __neg__(self):
        if self.ival is not None:
            return SymReal(None, -self.ival)
        return SymReal.mk(-self.e)

    def __pos__(self): return self

    def __abs__(self):
        if self.ival is not None:
            return SymReal(None, abs(self.ival))
        return SymReal.mk(z3.If(self.e < 0, -self.e, self.e))

    def __pow__(self, o):
        if isinstance(o, _int) and o >= 0:
            r = 1.0
            for _ in range(o):
                r = r * self
            return r
        raise E.Unsupported('real power')

    def __rpow__(self, o):
        raise E.Unsupported('real power')

    def __floordiv__(self, o):
        d = self / o
        return SymReal(None, SymZ.mk(z3.ToInt(SymReal.co(d))))

    def __mod__(self, o):
        return self - (self // o) * o

    def _c(self, o, f):
        if self.ival is not None:
            if isinstance(o, SymReal) and o.ival is not None:
                return f(self.ival, o.ival)
            if isinstance(o, (_int, SymInt, SymZ)) or (isinstance(o, _float) and o.is_integer()):
                return f(self.ival, int(o) if isinstance(o, _float) else o)
        if isinstance(o, _float) and o in (float('inf'), float('-inf')):
            return f(0.0, o)
        o2 = SymReal.co(o)
        if o2 is None:
            return NotImplemented
        return mkbool(f(self.e, o2))

    def __lt__(self, o): return self._c(o, LT)
    def __le__(self, o): return self._c(o, LE)
    def __gt__(self, o): return self._c(o, GT)
    def __ge__(self, o): return self._c(o, GE)

    def __eq__(self, o):
        if not is_num(o):
            return False
        r = self._c(o, lambda a, b: a == b)
        return r

    def __ne__(self, o): return neg(self == o)
    def __bool__(self): return _bool(self != 0)

    def __hash__(self):
        raise E.Unsupported('hash of a symbolic float')

    def __repr__(self): return '<symreal>'
    __str__ = __repr__
    def __format__(self, spec): return '<symreal>'

    def trunc(self):
        if self.ival is not None:
            return self.ival
        e = self.e
        return SymZ.mk(z3.If(e >= 0, z3.ToInt(e), -z3.ToInt(-e)))
    __trunc__ = trunc

    def floor(self):
        if self.ival is not None:
            return self.ival
        return SymZ.mk(z3.ToInt(self.e))
    __floor__ = floor

    def ceil(self):
        return -((-self).floor())
    __ceil__ = ceil

    def __round__(self, n=None):
        if n is not None:
            raise E.Unsupported('round with digits')
        f = self.floor()
        d = self - f
        if d < 0.5:
            return f
        if d > 0.5:
            return f + 1
        return f if f % 2 == 0 else f + 1

    def is_integer(self):
        return self.trunc() == self

    def __float__(self):
        raise E.Unsupported('float() of a symbolic real outside the shim')


def is_num(o):
    return isinstance(o, (_int, _float, Fraction, SymInt, SymZ, SymReal, SymBool))


def toreal(o):
    if isinstance(o, SymReal):
        return o
    if isinstance(o, SymInt):
        if abs(o.lo) <= 2 ** 53 and abs(o.hi) <= 2 ** 53:
            return SymReal(None, o)
        return SymReal(z3.ToReal(SymZ.co(o)))
    if isinstance(o, SymZ):
        return SymReal(z3.ToReal(o.e), o)
    if isinstance(o, SymBool):
        return toreal(o._i())
    return SymReal(q(o))


class SymDouble(object):
    """A float known only as its 64-bit pattern (stored and written back)."""
    __slots__ = ('bits',)

    def __init__(self, bits):
        self.bits = bits

    def __eq__(self, o):
        if o is self:
            return True
        raise E.Unsupported('comparison of an opaque double')

    def __ne__(self, o):
        return not (self == o)

    def __hash__(self):
        raise E.Unsupported('hash of an opaque double')

    def _u(self, *a):
        raise E.Unsupported('arithmetic on an opaque double')
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = _u
    __lt__ = __le__ = __gt__ = __ge__ = __abs__ = __neg__ = __bool__ = __float__ = __int__ = _u

    def __repr__(self): return '<symdouble>'
    def __format__(self, spec): return '<symdouble>'


# ---------------------------------------------------------------- bytes
def byte_item(v):
    """Normalise to int or BV8; raises like bytearray would."""
    if isinstance(v, SymBool):
        v = v._i()
    if isinstance(v, SymZ):
        v = v.__index__()
    if isinstance(v, SymInt):
        if v.lo < 0 or v.hi > 255:
            if not _bool(conj([v >= 0, v <= 255])):
                raise ValueError('byte must be in range(0, 256)')
            return z3.simplify(z3.Extract(7, 0, v.at(max(9, v.w))))
        e = z3.simplify(z3.Extract(7, 0, v.at(9)))
        return e.as_long() if z3.is_bv_value(e) else e
    if isinstance(v, z3.BitVecRef):
        v = z3.simplify(v)
        return v.as_long() if z3.is_bv_value(v) else v
    if hasattr(v, '__index__'):
        v = v.__index__()
    else:
        raise TypeError("'%s' object cannot be interpreted as an integer" % type(v).__name__)
    if not 0 <= v <= 255:
        raise ValueError('byte must be in range(0, 256)')
    return v


def byte_val(it):
    if isinstance(it, _int):
        return it
    return SymInt.from_bv(it, False)


def items_of(o):
    """List of byte items of any bytes-like, or None."""
    if isinstance(o, (_bytes, _bytearray)):
        return list(o)
    if isinstance(o, (SymBytes, SymByteArray)):
        return o.v
    if isinstance(o, memoryview):
        return list(o)
    return None


def items_eq(a, b):
    if _len(a) != _len(b):
        return False
    out = []
    for x, y in zip(a, b):
        if isinstance(x, _int) and isinstance(y, _int):
            if x != y:
                return False
            continue
        if x is y:
            continue
        out.append(x == y)
    if not out:
        return True
    return mkbool(z3.And(*out))


def mkbytes(items):
    for x in items:
        if not isinstance(x, _int):
            return SymBytes(items)
    return _bytes(items)


class _BytesBase(object):
    __slots__ = ('v',)
    _symx_reflect = True

    def __len__(self):
        return _len(self.v)

    def _new(self, items):
        return mkbytes(items)

    def __iter__(self):
        for x in list(self.v):
            yield byte_val(x)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return self._new(self.v[i])
        if is_sym(i):
            i = i.__index__()
        return byte_val(self.v[i])

    def __eq__(self, o):
        it = items_of(o)
        if it is None:
            return False
        return items_eq(self.v, it)

    def __ne__(self, o):
        return neg(self == o)

    def _lex(self, o):
        it = items_of(o)
        if it is None:
            raise TypeError('unorderable')
        return seq_int(self.v + [0] * max(0, _len(it) - _len(self.v))), \
            seq_int(it + [0] * max(0, _len(self.v) - _len(it))), _len(self.v), _len(it)

    def __lt__(self, o):
        a, b, n, m = self._lex(o)
        return disj([a < b, conj([a == b, n < m])])

    def __gt__(self, o):
        a, b, n, m = self._lex(o)
        return disj([a > b, conj([a == b, n > m])])

    def __le__(self, o): return neg(self > o)
    def __ge__(self, o): return neg(self < o)

    def __add__(self, o):
        it = items_of(o)
        if it is None:
            return NotImplemented
        return self._new(self.v + it)

    def __radd__(self, o):
        it = items_of(o)
        if it is None:
            return NotImplemented
        r = it + self.v
        return SymByteArray(r) if isinstance(o, (_bytearray, SymByteArray)) else mkbytes(r)

    def __mul__(self, n):
        return self._new(self.v * n)

    def __contains__(self, x):
        it = items_of(x)
        if it is not None:
            return self.find(x) >= 0
        return any(_bool(byte_val(y) == x) for y in self.v)

    def __bool__(self):
        return _len(self.v) > 0

    def __repr__(self):
        return '<symbytes %d>' % _len(self.v)
    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def strip(self, chars=None):
        return self.lstrip(chars).rstrip(chars) if True else None

    def _set(self, chars):
        if chars is None:
            chars = b' \t\n\r\x0b\f'
        return items_of(chars)

    def lstrip(self, chars=None):
        s = self._set(chars)
        v = list(self.v)
        while v and _bool(disj([mkb(v[0], c) for c in s])):
            v.pop(0)
        return self._new(v)

    def rstrip(self, chars=None):
        s = self._set(chars)
        v = list(self.v)
        while v and _bool(disj([mkb(v[-1], c) for c in s])):
            v.pop()
        return self._new(v)

    def find(self, sub, start=0, end=None):
        it = items_of(sub)
        if it is None:
            it = [byte_item(sub)]
        n = _len(self.v) if end is None else min(end, _len(self.v))
        for i in range(start, n - _len(it) + 1):
            if _bool(items_eq(self.v[i:i + _len(it)], it)):
                return i
        return -1

    def index(self, sub, *a):
        r = self.find(sub, *a)
        if r < 0:
            raise ValueError('subsection not found')
        return r

    def count(self, sub):
        it = items_of(sub)
        if it is None:
            it = [byte_item(sub)]
        n, i = 0, 0
        while i + _len(it) <= _len(self.v):
            if _bool(items_eq(self.v[i:i + _len(it)], it)):
                n += 1
                i += max(1, _len(it))
            else:
                i += 1
        return n

    def startswith(self, p):
        if isinstance(p, tuple):
            return disj([self.startswith(x) for x in p])
        it = items_of(p)
        return items_eq(self.v[:_len(it)], it)

    def endswith(self, p):
        if isinstance(p, tuple):
            return disj([self.endswith(x) for x in p])
        it = items_of(p)
        return items_eq(self.v[_len(self.v) - _len(it):], it) if _len(it) <= _len(self.v) else False

    def replace(self, a, b):
        a, b = items_of(a), items_of(b)
        out, i, v = [], 0, self.v
        while i < _len(v):
            if i + _len(a) <= _len(v) and _bool(items_eq(v[i:i + _len(a)], a)):
                out += b
                i += _len(a)
            else:
                out.append(v[i])
                i += 1
        return self._new(out)

    def split(self, sep, maxsplit=-1):
        s = items_of(sep)
        out, cur, i = [], [], 0
        while i < _len(self.v):
            if i + _len(s) <= _len(self.v) and (maxsplit < 0 or _len(out) < maxsplit) and \
                    _bool(items_eq(self.v[i:i + _len(s)], s)):
                out.append(self._new(cur))
                cur = []
                i += _len(s)
            else:
                cur.append(self.v[i])
                i += 1
        out.append(self._new(cur))
        return out

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return self._new(list(self.v)), self._new([]), self._new([])
        n = _len(items_of(sep))
        return self._new(self.v[:i]), self._new(self.v[i:i + n]), self._new(self.v[i + n:])

    def join(self, parts):
        out = []
        for i, p in enumerate(parts):
            if i:
                out += self.v
            out += items_of(p)
        return self._new(out)

    def decode(self, encoding='utf-8', errors='strict'):
        from . import text
        return text.decode(self.v, encoding, errors)

    def hex(self):
        from . import text
        return text.hexlify(self.v)

    def ljust(self, n, fill=b' '):
        return self._new(self.v + items_of(fill) * max(0, n - _len(self.v)))

    def rjust(self, n, fill=b' '):
        return self._new(items_of(fill) * max(0, n - _len(self.v)) + self.v)

    def tobytes(self):
        return mkbytes(list(self.v))

    def isdigit(self):
        raise E.Unsupported('bytes.isdigit')


def mkb(item, c):
    if isinstance(item, _int) and isinstance(c, _int):
        return item == c
    return mkbool(item == c)


class SymBytes(_BytesBase):
    __slots__ = ()

    def __init__(self, items):
        self.v = items

    def __hash__(self):
        r = []
        for x in self.v:
            r.append(x if isinstance(x, _int) else
                     eng().concretise(x, lambda v: v.as_long(), 'byte'))
        return hash(_bytes(r))


class SymByteArray(_BytesBase):
    """Mutable; used for every bytearray created by the loaded code."""
    __slots__ = ()
    __hash__ = None

    def __init__(self, items):
        self.v = list(items)

    def _new(self, items):
        return SymByteArray(items)

    def __setitem__(self, i, val):
        if isinstance(i, slice):
            it = items_of(val)
            if it is None:
                it = [byte_item(x) for x in val]
            self.v[i] = it
        else:
            if is_sym(i):
                i = i.__index__()
            self.v[i] = byte_item(val)

    def __delitem__(self, i):
        del self.v[i]

    def append(self, x):
        self.v.append(byte_item(x))

    def extend(self, xs):
        it = items_of(xs)
        self.v.extend(it if it is not None else [byte_item(x) for x in xs])

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __imul__(self, n):
        self.v *= n
        return self

    def insert(self, i, x):
        self.v.insert(i, byte_item(x))

    def pop(self, i=-1):
        return byte_val(self.v.pop(i))

    def clear(self):
        self.v[:] = []

    def reverse(self):
        self.v.reverse()

    def copy(self):
        return SymByteArray(self.v)

    def remove(self, x):
        for i, y in enumerate(self.v):
            if byte_val(y) == x:
                del self.v[i]
                return
        raise ValueError('value not found in bytearray')


def cat(items):
    """BV of the concatenation, first item most significant."""
    parts = [z3.BitVecVal(x, 8) if isinstance(x, _int) else x for x in items]
    if _len(parts) == 1:
        return parts[0]
    return z3.simplify(z3.Concat(*parts))


def seq_int(items, signed=False):
    if not items:
        return 0
    if all(isinstance(x, _int) for x in items):
        return _int.from_bytes(_bytes(items), 'big', signed=signed)
    e = cat(items)
    link = eng().zlink
    if link and z3.is_const(e) and str(e) in link:
        v, m = link[str(e)], 1 << (8 * len(items))
        if signed:
            return SymZ.mk(z3.If(v >= m // 2, v - m, v))
        return SymZ.mk(z3.If(v < 0, v + m, v))
    return SymInt.from_bv(e, signed)


def int_to_items(v, n, signed, exc):
    """Big-endian byte items of integer v in n bytes; raises exc when out of range."""
    lo, hi = (-(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1) if signed else (0, (1 << (8 * n)) - 1)
    if isinstance(v, SymBool):
        v = v._i()
    if isinstance(v, SymZ):
        ok = conj([v >= lo, v <= hi])
        if not _bool(ok):
            raise exc
        # the bytes are named, not computed: reading all of them back gives v (see seq_int)
        en = eng()
        en.fresh_n += 1
        bv = z3.BitVec('z2b!%d' % en.fresh_n, 8 * n)
        en.zlink[str(bv)] = v.e
    elif isinstance(v, SymInt):
        if v.lo < lo or v.hi > hi:
            if not _bool(conj([v >= lo, v <= hi])):
                raise exc
        bv = v.at(8 * n) if v.w >= 8 * n else z3.SignExt(8 * n - v.w, v.e)
    else:
        if not lo <= v <= hi:
            raise exc
        return list((v & ((1 << (8 * n)) - 1)).to_bytes(n, 'big'))
    out = []
    for i in range(n):
        b = z3.simplify(z3.Extract(8 * (n - i) - 1, 8 * (n - 1 - i), bv))
        out.append(b.as_long() if z3.is_bv_value(b) else b)
    return out


def int_to_bytes(v, n, byteorder, signed):
    it = int_to_items(v, n, signed, OverflowError('int too big to convert'))
    return mkbytes(it if byteorder == 'big' else it[::-1])


# ---------------------------------------------------------------- text
class SymStr(object):
    """Text as a list of code points: int or Ch (symbolic)."""
    __slots__ = ('v',)
    _symx_reflect = True

    def __init__(self, v):
        self.v = v

    def __len__(self): return _len(self.v)
    def __bool__(self): return _len(self.v) > 0

    def __iter__(self):
        for c in self.v:
            yield mkstr([c])

    def __getitem__(self, i):
        if isinstance(i, slice):
            return mkstr(self.v[i])
        return mkstr([self.v[i]])

    def __eq__(self, o):
        it = cps_of(o)
        if it is None:
            return False
        if _len(it) != _len(self.v):
            return False
        return conj([ch_eq(a, b) for a, b in zip(self.v, it)])

    def __ne__(self, o): return neg(self == o)

    def __hash__(self):
        # only dict/set flavours of shims.py hold these without hashing
        raise E.Unsupported('hash of symbolic text')

    def _lexlt(self, a, b):
        for x, y in zip(a, b):
            if _bool(ch_eq(x, y)):
                continue
            return mkbool(z3.ULT(ch_e(x), ch_e(y)))
        return _len(a) < _len(b)

    def __lt__(self, o): return self._lexlt(self.v, cps_of(o))
    def __gt__(self, o): return self._lexlt(cps_of(o), self.v)
    def __le__(self, o): return neg(self > o)
    def __ge__(self, o): return neg(self < o)

    def __add__(self, o):
        it = cps_of(o)
        if it is None:
            return NotImplemented
        return mkstr(self.v + it)

    def __radd__(self, o):
        it = cps_of(o)
        if it is None:
            return NotImplemented
        return mkstr(it + self.v)

    def __mul__(self, n): return mkstr(self.v * n)

    def __contains__(self, o): return self.find(o) >= 0

    def __repr__(self): return "<symstr %d>" % _len(self.v)
    __str__ = __repr__
    def __format__(self, spec): return repr(self)

    def encode(self, encoding='utf-8', errors='strict'):
        from . import text
        return text.encode(self.v, encoding, errors)

    def lower(self):
        from . import text
        return mkstr([text.lower(c) for c in self.v])

    def upper(self):
        raise E.Unsupported('str.upper')

    def find(self, sub, start=0):
        it = cps_of(sub)
        for i in range(start, _len(self.v) - _len(it) + 1):
            if _bool(conj([ch_eq(a, b) for a, b in zip(self.v[i:i + _len(it)], it)])):
                return i
        return -1

    def index(self, sub, start=0):
        r = self.find(sub, start)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def replace(self, a, b, count=-1):
        a, b = cps_of(a), cps_of(b)
        out, i, v = [], 0, self.v
        while i < _len(v):
            if i + _len(a) <= _len(v) and count != 0 and \
                    _bool(conj([ch_eq(x, y) for x, y in zip(v[i:i + _len(a)], a)])):
                out += b
                i += _len(a)
                count -= 1
            else:
                out.append(v[i])
                i += 1
        return mkstr(out)

    def startswith(self, p):
        if isinstance(p, tuple):
            return disj([self.startswith(x) for x in p])
        it = cps_of(p)
        if _len(it) > _len(self.v):
            return False
        return conj([ch_eq(a, b) for a, b in zip(self.v, it)])

    def endswith(self, p):
        if isinstance(p, tuple):
            return disj([self.endswith(x) for x in p])
        it = cps_of(p)
        if _len(it) > _len(self.v):
            return False
        return conj([ch_eq(a, b) for a, b in zip(self.v[_len(self.v) - _len(it):], it)])

    def strip(self, chars=None): return self._lstrip(chars)._rstrip(chars)

    def _set(self, chars):
        return cps_of(chars) if chars is not None else [9, 10, 11, 12, 13, 28, 29, 30, 31, 32, 0x85, 0xa0, 0x3000]

    def _lstrip(self, chars):
        s, v = self._set(chars), list(self.v)
        while v and _bool(disj([ch_eq(v[0], c) for c in s])):
            v.pop(0)
        return SymStr(v)

    def _rstrip(self, chars):
        s, v = self._set(chars), list(self.v)
        while v and _bool(disj([ch_eq(v[-1], c) for c in s])):
            v.pop()
        return mkstr(v) if True else None

    def lstrip(self, chars=None): return mkstr(self._lstrip(chars).v)
    def rstrip(self, chars=None): return self._rstrip(chars)

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            raise E.Unsupported('str.split()')
        s = cps_of(sep)
        out, cur, i = [], [], 0
        while i < _len(self.v):
            if i + _len(s) <= _len(self.v) and (maxsplit < 0 or _len(out) < maxsplit) and \
                    _bool(conj([ch_eq(x, y) for x, y in zip(self.v[i:i + _len(s)], s)])):
                out.append(mkstr(cur))
                cur = []
                i += _len(s)
            else:
                cur.append(self.v[i])
                i += 1
        out.append(mkstr(cur))
        return out

    def join(self, parts):
        out = []
        for i, p in enumerate(parts):
            if i:
                out += self.v
            out += cps_of(p)
        return mkstr(out)

    def zfill(self, n):
        if self.v and _bool(disj([ch_eq(self.v[0], 43), ch_eq(self.v[0], 45)])):
            return mkstr(self.v[:1] + [48] * max(0, n - _len(self.v)) + self.v[1:])
        return mkstr([48] * max(0, n - _len(self.v)) + self.v)

    def rjust(self, n, fill=' '): return mkstr(cps_of(fill) * max(0, n - _len(self.v)) + self.v)
    def ljust(self, n, fill=' '): return mkstr(self.v + cps_of(fill) * max(0, n - _len(self.v)))

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return mkstr(self.v), '', ''
        n = _len(cps_of(sep))
        return mkstr(self.v[:i]), mkstr(self.v[i:i + n]), mkstr(self.v[i + n:])


class Ch(object):
    """A symbolic character.  src = (codec, BV) when produced by a bijective
    table: codec in TABLES, BV the table index."""
    __slots__ = ('_e', 'src')
    TABLES = {}       # codec -> list of code points (bijective)
    INV = {}

    def __init__(self, e=None, src=None):
        self._e = e
        self.src = src

    @property
    def e(self):
        if self._e is None:
            codec, bv = self.src
            t = Ch.TABLES[codec]
            ident = 128 if codec != 'hex' else 0
            r = z3.BitVecVal(t[-1], 21)
            for i in range(_len(t) - 2, ident - 1, -1):
                r = z3.If(bv == i, z3.BitVecVal(t[i], 21), r)
            if ident:
                r = z3.If(z3.ULT(bv, ident), z3.ZeroExt(21 - bv.size(), bv), r)
            self._e = r
        return self._e


def ch_e(c):
    return z3.BitVecVal(c, 21) if isinstance(c, _int) else c.e


def ch_eq(a, b):
    ai, bi = isinstance(a, _int), isinstance(b, _int)
    if ai and bi:
        return a == b
    if a is b:
        return True
    if ai:
        a, b, ai, bi = b, a, bi, ai
    if bi:
        if a.src:
            i = Ch.INV[a.src[0]].get(b)
            if i is None:
                return False
            return mkbool(a.src[1] == i)
        return mkbool(a.e == b)
    if a.src and b.src and a.src[0] == b.src[0]:
        return mkbool(a.src[1] == b.src[1])
    return mkbool(a.e == b.e)


def cps_of(o):
    if isinstance(o, _str):
        return [ord(c) for c in o]
    if isinstance(o, SymStr):
        return o.v
    return None


def mkstr(v):
    for c in v:
        if not isinstance(c, _int):
            return SymStr(v)
    return ''.join(map(chr, v))
