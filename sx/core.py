"""Symbolic values and the per-path context of the executor.

Symbolic integers are mathematical integers (as Python's are), symbolic floats
are exact rationals with an explicit bound on accumulated rounding error, byte
strings are sequences of byte terms of concrete length, and text stays `str`
with fixed-width tokens standing for rendered symbolic numbers.
"""
import math
import re as _re
from fractions import Fraction

import z3

CTX = None  # context of the path being executed (None outside exploration)


class SxControl(BaseException):
    "Base of the executor's own control flow."


class Unsupported(SxControl):
    "An operation the executor does not model; the path is cut (and reported as such)."


class Infeasible(SxControl):
    "The path condition is unsatisfiable (failed assume)."


class PathLimit(SxControl):
    "A bound (loop unwinding, realisation, decisions) was hit."


def ctx():
    if CTX is None:
        raise Unsupported("symbolic operation outside exploration")
    return CTX


def unsupported(msg):
    c = CTX
    if c is not None and c.aborted is None:
        c.aborted = "unsupported: " + msg
    raise Unsupported(msg)


# ----------------------------------------------------------------------------- ints

def _isint(x):
    return isinstance(x, int)


def zi(x):
    "z3 term of an int-like."
    if isinstance(x, SymInt):
        return x.e
    return z3.IntVal(int(x))


def bounds(x):
    if isinstance(x, SymInt):
        return x.lo, x.hi
    x = int(x)
    return x, x


def mk(e, lo=None, hi=None, tz=0):
    if lo is not None and lo == hi:
        return lo
    if z3.is_int_value(e):
        return e.as_long()
    return SymInt(e, lo, hi, tz)


def as_int(x):
    "int-like of x or None."
    if isinstance(x, SymInt):
        return x
    if isinstance(x, SymBool):
        return mk(z3.If(x.e, z3.IntVal(1), z3.IntVal(0)), 0, 1)
    if isinstance(x, int):
        return int(x)
    return None


def _add(a, b):
    if a is None or b is None:
        return None
    return a + b


def _minn(*xs):
    return None if any(x is None for x in xs) else min(xs)


def _maxn(*xs):
    return None if any(x is None for x in xs) else max(xs)


def i_add(a, b):
    if _isint(a) and a == 0:
        return b
    if _isint(b) and b == 0:
        return a
    al, ah = bounds(a)
    bl, bh = bounds(b)
    tz = min(getattr(a, 'tz', 64) if isinstance(a, SymInt) else _tz(a),
             getattr(b, 'tz', 64) if isinstance(b, SymInt) else _tz(b))
    return mk(zi(a) + zi(b), _add(al, bl), _add(ah, bh), tz)


def _tz(n):
    n = int(n)
    if n == 0:
        return 512
    return (n & -n).bit_length() - 1


def i_neg(a):
    lo, hi = bounds(a)
    return mk(-zi(a), None if hi is None else -hi, None if lo is None else -lo, a.tz)


def i_sub(a, b):
    if _isint(b):
        return i_add(a, -int(b))
    if isinstance(a, SymInt) and a.e.eq(b.e):
        return 0
    if CTX is not None and isinstance(a, SymInt):
        m = CTX.modmemo.get(b.e.get_id())
        if m is not None and m[0].e.eq(a.e):  # a - a % n
            return i_mul(i_floordiv(a, m[1]), m[1])
    al, ah = bounds(a)
    bl, bh = bounds(b)
    return mk(zi(a) - zi(b), None if al is None or bh is None else al - bh,
              None if ah is None or bl is None else ah - bl)


def i_mul(a, b):
    if _isint(a):
        a, b = b, a
    if _isint(b):
        b = int(b)
        if b == 0:
            return 0
        if b == 1:
            return a
        lo, hi = a.lo, a.hi
        l2 = None if lo is None else lo * b
        h2 = None if hi is None else hi * b
        if b < 0:
            l2, h2 = h2, l2
        return mk(a.e * z3.IntVal(b), l2, h2, a.tz + _tz(b))
    # symbolic * symbolic: realise the narrower when it is small, else nonlinear
    for x, y in ((a, b), (b, a)):
        if x.lo is not None and x.hi is not None and x.hi - x.lo <= 64:
            return i_mul(y, realize(x))
    al, ah, bl, bh = a.lo, a.hi, b.lo, b.hi
    if None in (al, ah, bl, bh):
        return mk(a.e * b.e)
    ps = [al * bl, al * bh, ah * bl, ah * bh]
    return mk(a.e * b.e, min(ps), max(ps))


def i_floordiv(a, b):
    if isinstance(b, SymInt):
        if isinstance(a, SymInt) and a.e.eq(b.e):
            if b:
                return 1
        if b == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        if b.lo is not None and b.hi is not None and b.hi - b.lo <= 4096:
            b = realize(b)
        else:
            # q*b + r = a, sign-aware floor; nonlinear
            if b > 0:
                return mk(zi(a) / b.e)
            return i_floordiv(-a, -b)
        return i_floordiv(a, b)
    b = int(b)
    if b == 0:
        raise ZeroDivisionError("integer division or modulo by zero")
    if _isint(a):
        return a // b
    if b < 0:
        return i_floordiv(i_neg(a), -b)
    if b == 1:
        return a
    lo, hi = a.lo, a.hi
    l2 = None if lo is None else lo // b
    h2 = None if hi is None else hi // b
    if l2 is not None and l2 == h2:
        return l2
    memo = CTX.divmemo if CTX is not None else {}
    m = memo.get(a.e.get_id())
    if m is not None and (b & (b - 1) or m[1] & (m[1] - 1)):   # x // k // b == x // (k * b)
        return i_floordiv(m[0], m[1] * b)
    res = mk(_div(a.e, b), l2, h2)
    if isinstance(res, SymInt):
        memo[res.e.get_id()] = (a, b, res)
    return res


def _linear_split(e, b):
    """e == b*q + r with q, r terms (r may be None for 0) when e is a sum with multiples of b."""
    if z3.is_app(e):
        k = e.decl().kind()
        if k == z3.Z3_OP_MUL and e.num_args() == 2:
            for i in (0, 1):
                c = e.arg(i)
                if z3.is_int_value(c) and c.as_long() % b == 0:
                    q = c.as_long() // b
                    o = e.arg(1 - i)
                    return (o if q == 1 else o * z3.IntVal(q)), None
        if k in (z3.Z3_OP_ADD,):
            qs, rs = [], []
            for i in range(e.num_args()):
                q, r = _linear_split(e.arg(i), b)
                if q is not None:
                    qs.append(q)
                if r is not None:
                    rs.append(r)
            if qs:
                return z3.Sum(qs) if len(qs) > 1 else qs[0], (None if not rs else (z3.Sum(rs) if len(rs) > 1 else rs[0]))
        if k == z3.Z3_OP_SUB and e.num_args() == 2:
            q0, r0 = _linear_split(e.arg(0), b)
            q1, r1 = _linear_split(e.arg(1), b)
            if q0 is not None or q1 is not None:
                z = z3.IntVal(0)
                q = (q0 if q0 is not None else z) - (q1 if q1 is not None else z)
                if r0 is None and r1 is None:
                    return q, None
                return q, (r0 if r0 is not None else z) - (r1 if r1 is not None else z)
        if z3.is_int_value(e):
            v = e.as_long()
            if v % b == 0:
                return z3.IntVal(v // b), None
            if v >= b or v < 0:
                return z3.IntVal(v // b), z3.IntVal(v % b)
    return None, e


def _div(e, b):
    q, r = _linear_split(e, b)
    if q is None:
        return e / z3.IntVal(b)
    if r is None:
        return q
    return q + r / z3.IntVal(b)


def i_mod(a, b):
    if isinstance(b, SymInt):
        return i_sub(a, i_mul(i_floordiv(a, b), b))
    b = int(b)
    if b == 0:
        raise ZeroDivisionError("integer division or modulo by zero")
    if _isint(a):
        return a % b
    if b < 0:
        return i_neg_any(i_mod(i_neg(a), -b))
    if b == 1:
        return 0
    lo, hi = a.lo, a.hi
    if lo is not None and hi is not None and lo // b == hi // b:
        return i_sub(a, (lo // b) * b)
    if a.tz >= 0 and (1 << min(a.tz, 200)) % b == 0:
        return 0
    if CTX is not None:
        m = CTX.divmemo.get(a.e.get_id())
        if m is not None and (b & (b - 1) or m[1] & (m[1] - 1)):   # x // k % b == x % (k * b) // k
            return i_floordiv(i_mod(m[0], m[1] * b), m[1])
        m = CTX.modmemo.get(a.e.get_id())
        if m is not None and m[1] % b == 0:     # x % (k * b) % b == x % b
            return i_mod(m[0], b)
    q, r = _linear_split(a.e, b)
    if q is not None:
        if r is None:
            return 0
    res = mk((a.e if q is None else r) % z3.IntVal(b), 0, b - 1)
    if CTX is not None and isinstance(res, SymInt):
        CTX.modmemo[res.e.get_id()] = (a, b, res)
    return res


def i_neg_any(a):
    return -a


def i_and(a, b):
    if isinstance(a, SymInt) and isinstance(b, SymInt):
        for x, y in ((a, b), (b, a)):
            if x.lo is not None and x.hi is not None and x.hi - x.lo <= 16:
                return i_and(y, realize(x))
        return _bv_op(a, b, lambda p, q: p & q)
    if _isint(a):
        a, b = b, a
    m = int(b)
    if m == 0:
        return 0
    if m < 0:
        # x & ~k  == x - (x & k)
        return i_sub(a, i_and(a, ~m)) if ~m else a
    if a.lo is not None and a.lo >= 0 and a.hi is not None:
        nb = a.hi.bit_length()
        m &= (1 << nb) - 1
        if m == 0:
            return 0
        if m == (1 << nb) - 1:
            return a
    res = 0
    pos = 0
    while m:
        if m & 1:
            run = 0
            while (m >> run) & 1:
                run += 1
            part = i_mod(i_floordiv(a, 1 << pos), 1 << run)
            res = res + part * (1 << pos) if not _isint(res) or not _isint(part) else res + part * (1 << pos)
            m >>= run
            pos += run
        else:
            m >>= 1
            pos += 1
    return res


def i_or(a, b):
    if isinstance(a, SymInt) and isinstance(b, SymInt):
        for x, y in ((a, b), (b, a)):
            if y.lo is not None and y.lo >= 0 and y.hi is not None and y.hi < (1 << min(x.tz, 4096)):
                return i_add(x, y)
        return _bv_op(a, b, lambda p, q: p | q)
    if _isint(a):
        a, b = b, a
    b = int(b)
    if b == 0:
        return a
    if 0 <= b < (1 << min(a.tz, 4096)):
        return i_add(a, b)
    return i_add(i_sub(a, i_and(a, b)), b)


def i_xor(a, b):
    # a ^ b = (a | b) - (a & b)
    return i_sub(i_or(a, b), i_and(a, b))


def _bv_op(a, b, f):
    if a.lo is None or b.lo is None or a.lo < 0 or b.lo < 0 or a.hi is None or b.hi is None:
        unsupported("bit operation on unbounded symbolic ints")
    n = max(a.hi.bit_length(), b.hi.bit_length())
    r = f(z3.Int2BV(a.e, n), z3.Int2BV(b.e, n))
    return mk(z3.BV2Int(r, False), 0, (1 << n) - 1)


def i_lshift(a, b):
    if isinstance(b, SymInt):
        b = realize(b)
    return i_mul(a, 1 << b) if isinstance(a, SymInt) else a << b


def i_rshift(a, b):
    if isinstance(b, SymInt):
        b = realize(b)
    return i_floordiv(a, 1 << b)


def cmp_bool(op, a, b):
    al, ah = bounds(a)
    bl, bh = bounds(b)
    if op == '==':
        if (ah is not None and bl is not None and ah < bl) or (al is not None and bh is not None and al > bh):
            return False
        if isinstance(a, SymInt) and isinstance(b, SymInt) and a.e.eq(b.e):
            return True
        return mkb(zi(a) == zi(b))
    if op == '<':
        if ah is not None and bl is not None and ah < bl:
            return True
        if al is not None and bh is not None and al >= bh:
            return False
        return mkb(zi(a) < zi(b))
    if op == '<=':
        if ah is not None and bl is not None and ah <= bl:
            return True
        if al is not None and bh is not None and al > bh:
            return False
        return mkb(zi(a) <= zi(b))
    raise AssertionError(op)


def mkb(e):
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def b_not(x):
    if isinstance(x, SymBool):
        return mkb(z3.Not(x.e))
    return not x


def zb(x):
    if isinstance(x, SymBool):
        return x.e
    if isinstance(x, SymInt):
        return x.e != 0
    if isinstance(x, SymFloat):
        return zb(b_not(x == 0))
    return z3.BoolVal(bool(x))


def b_and(*xs):
    if any(x is False for x in xs):
        return False
    xs = [x for x in xs if x is not True]
    if not xs:
        return True
    return mkb(z3.And([zb(x) for x in xs]))


def b_or(*xs):
    if any(x is True for x in xs):
        return True
    xs = [x for x in xs if x is not False]
    if not xs:
        return False
    return mkb(z3.Or([zb(x) for x in xs]))


class SymBool:
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return ctx().fork(self.e)

    def __eq__(self, o):
        if isinstance(o, (SymBool, bool)):
            return mkb(self.e == zb(o))
        oi = as_int(o)
        if oi is None:
            return False
        return as_int(self) == oi

    def __ne__(self, o):
        return b_not(self.__eq__(o))

    __hash__ = None

    def __and__(self, o):
        if isinstance(o, (SymBool, bool)):
            return b_and(self, o)
        return as_int(self) & o
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (SymBool, bool)):
            return b_or(self, o)
        return as_int(self) | o
    __ror__ = __or__

    def __xor__(self, o):
        return mkb(z3.Xor(self.e, zb(o)))

    def __invert__(self):
        return ~as_int(self)

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __str__(self):
        return str(bool(self))

    def __format__(self, spec):
        return format(bool(self), spec)

    def _ar(name):  # noqa
        def f(self, *a):
            x = as_int(self)
            return getattr(x, name)(*a)
        return f
    for _n in ('__add__', '__radd__', '__sub__', '__rsub__', '__mul__', '__rmul__', '__floordiv__', '__mod__',
               '__lt__', '__le__', '__gt__', '__ge__', '__lshift__', '__rshift__', '__neg__', '__truediv__'):
        locals()[_n] = _ar(_n)
    del _n, _ar


def _lift(o):
    if isinstance(o, SymInt):
        return o
    if isinstance(o, SymBool):
        return as_int(o)
    if isinstance(o, int):
        return o
    return None


class SymInt:
    __slots__ = ('e', 'lo', 'hi', 'tz')

    def __init__(self, e, lo=None, hi=None, tz=0):
        self.e = e
        self.lo = lo
        self.hi = hi
        self.tz = tz

    def _bin(fn, swap=False):  # noqa
        def f(self, o):
            b = _lift(o)
            if b is None:
                if isinstance(o, float):
                    o = SymFloat.of(o)
                    a = SymFloat.of(self)
                    g = _FLOATOPS.get(fn)
                    if g is None:
                        return NotImplemented
                    return g(o, a) if swap else g(a, o)
                return NotImplemented
            return fn(b, self) if swap else fn(self, b)
        return f
    __add__ = _bin(i_add)
    __radd__ = _bin(i_add, True)
    __sub__ = _bin(i_sub)

    def __rsub__(self, o):
        b = _lift(o)
        if b is None:
            if isinstance(o, float):
                return SymFloat.of(o) - SymFloat.of(self)
            return NotImplemented
        return i_add(i_neg(self), b)
    def __mul__(self, o):
        if isinstance(o, (str, bytes, list, tuple, SymBytes)):
            return o * realize(self)
        return SymInt._mul0(self, o)

    def __rmul__(self, o):
        if isinstance(o, (str, bytes, list, tuple, SymBytes)):
            return o * realize(self)
        return SymInt._mul0(self, o)
    _mul0 = _bin(i_mul)
    __floordiv__ = _bin(i_floordiv)
    __rfloordiv__ = _bin(i_floordiv, True)
    __mod__ = _bin(i_mod)
    __rmod__ = _bin(i_mod, True)
    __and__ = _bin(i_and)
    __rand__ = _bin(i_and, True)
    __or__ = _bin(i_or)
    __ror__ = _bin(i_or, True)
    __xor__ = _bin(i_xor)
    __rxor__ = _bin(i_xor, True)
    __lshift__ = _bin(i_lshift)
    __rlshift__ = _bin(i_lshift, True)
    __rshift__ = _bin(i_rshift)
    __rrshift__ = _bin(i_rshift, True)
    del _bin

    def __divmod__(self, o):
        if _lift(o) is None:
            return NotImplemented
        if isinstance(o, SymInt) and o.lo is not None and o.hi is not None and o.hi - o.lo <= 4096:
            o = realize(o)
        return i_floordiv(self, _lift(o)), i_mod(self, _lift(o))

    def __rdivmod__(self, o):
        b = realize(self)
        return divmod(o, b)

    def __pow__(self, o, m=None):
        if m is None and isinstance(o, int) and 0 <= o <= 4:
            r = 1
            for _ in range(o):
                r = r * self
            return r
        return pow(realize(self), o if not isinstance(o, SymInt) else realize(o), m)

    def __rpow__(self, o):
        return o ** realize(self)

    def __truediv__(self, o):
        return SymFloat.of(self) / o

    def __rtruediv__(self, o):
        return SymFloat.of(o) / self

    def __neg__(self):
        return i_neg(self)

    def __pos__(self):
        return self

    def __invert__(self):
        return i_sub(i_neg(self), 1)

    def __abs__(self):
        if self.lo is not None and self.lo >= 0:
            return self
        if self.hi is not None and self.hi <= 0:
            return i_neg(self)
        hi = None if self.lo is None or self.hi is None else max(abs(self.lo), abs(self.hi))
        return mk(z3.If(self.e >= 0, self.e, -self.e), 0, hi)

    def _cmp(op, swap=False, neg=False):  # noqa
        def f(self, o):
            b = _lift(o)
            if b is None:
                if isinstance(o, float):
                    if o != o or o in (math.inf, -math.inf):
                        return _INFCMP[(op, swap, neg)](o)
                    a, b = SymFloat.of(self), SymFloat.of(o)
                    r = f_cmp(op, b, a) if swap else f_cmp(op, a, b)
                    return b_not(r) if neg else r
                if isinstance(o, SymFloat):
                    a = SymFloat.of(self)
                    r = f_cmp(op, o, a) if swap else f_cmp(op, a, o)
                    return b_not(r) if neg else r
                if op == '==':
                    return neg
                return NotImplemented
            r = cmp_bool(op, b, self) if swap else cmp_bool(op, self, b)
            return b_not(r) if neg else r
        return f
    __eq__ = _cmp('==')
    __ne__ = _cmp('==', neg=True)
    __lt__ = _cmp('<')
    __le__ = _cmp('<=')
    __gt__ = _cmp('<', swap=True)
    __ge__ = _cmp('<=', swap=True)
    del _cmp

    def __bool__(self):
        r = b_not(cmp_bool('==', self, 0))
        return r if isinstance(r, bool) else ctx().fork(r.e)

    def __index__(self):
        return realize(self)

    def __int__(self):
        return realize(self)

    def __float__(self):
        return float(realize(self))

    def __hash__(self):
        return hash(realize(self))

    def __round__(self, n=None):
        return self

    def __ceil__(self):
        return self
    __floor__ = __trunc__ = __ceil__

    def __str__(self):
        return render_int(self)

    def __repr__(self):
        return render_int(self)

    def __format__(self, spec):
        return format_value(self, spec)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def bit_length(self):
        return realize(self).bit_length()

    def to_bytes(self, length=1, byteorder='big', *, signed=False):
        return pack_int(self, length, byteorder, signed, OverflowError)

    def conjugate(self):
        return self

    def is_integer(self):
        return True

    @property
    def real(self):
        return self

    @property
    def numerator(self):
        return self

    @property
    def denominator(self):
        return 1


_INFCMP = {}
for _op in ('==', '<', '<='):
    for _sw in (False, True):
        for _ng in (False, True):
            def _g(o, op=_op, sw=_sw, ng=_ng):
                if o != o:
                    r = False
                elif op == '==':
                    r = False
                else:
                    r = (o < 0) if sw else (o > 0)
                return (not r) if ng else r
            _INFCMP[(_op, _sw, _ng)] = _g


def ite(c, a, b):
    "If-merge of two values under a symbolic condition."
    if not isinstance(c, (SymBool, SymInt)):
        return a if c else b
    if isinstance(a, SymBool) or isinstance(b, SymBool) or isinstance(a, bool) and isinstance(b, bool):
        if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
            return mkb(z3.If(zb(c), zb(a), zb(b)))
    x, y = _lift(a), _lift(b)
    if x is None or y is None:
        if a is b:
            return a
        return a if c else b
    if _isint(x) and _isint(y) and x == y:
        return x
    al, ah = bounds(x)
    bl, bh = bounds(y)
    tz = min(x.tz if isinstance(x, SymInt) else _tz(x), y.tz if isinstance(y, SymInt) else _tz(y))
    return mk(z3.If(zb(c), zi(x), zi(y)), _minn(al, bl), _maxn(ah, bh), tz)


def realize(x, limit=None):
    "Concrete value of x on this path (forks over the feasible values)."
    if isinstance(x, SymBool):
        return int(bool(x))
    if isinstance(x, int):
        return x
    return ctx().realize(x)


# ----------------------------------------------------------------------------- floats

EPS = Fraction(1, 2 ** 52)


def _dyadic(fr):
    d = fr.denominator
    return d & (d - 1) == 0


def civil(t):
    "seconds -> (year, month, day, hour, minute, second) of the proleptic Gregorian calendar."
    z = t // 86400 + 719468
    era = z // 146097
    doe = z - era * 146097
    yoe = (doe - doe // 1460 + doe // 36524 - doe // 146096) // 365
    y = yoe + era * 400
    doy = doe - (365 * yoe + yoe // 4 - yoe // 100)
    mp = (5 * doy + 2) // 153
    d = doy - (153 * mp + 2) // 5 + 1
    m = ite(mp < 10, mp + 3, mp - 9)
    s = t % 86400
    return y + ite(m <= 2, 1, 0), m, d, s // 3600, (s // 60) % 60, s % 60


class CalInt(SymInt):
    "A calendar field of an instant; the term is only built when it is needed."
    __slots__ = ('cal', '_e')
    BOUNDS = ((1000, 9999), (1, 12), (1, 31), (0, 23), (0, 59), (0, 59))

    def __init__(self, t, field):
        self.cal = (t, field)
        self._e = None
        self.lo, self.hi = self.BOUNDS[field]
        self.tz = 0

    @property
    def e(self):
        if self._e is None:
            v = civil(self.cal[0])[self.cal[1]]
            self._e = v.e if isinstance(v, SymInt) else z3.IntVal(v)
        return self._e


def calendar_fields(t):
    "fields of a SymInt instant within years 1000..9999"
    if t.lo is not None and t.lo >= -30610224000 and t.hi is not None and t.hi < 253402300800:
        return tuple(CalInt(t, k) for k in range(6))
    return civil(t)


class SymFloat:
    """num/den + off, off by at most err from the machine value; nround = number of roundings."""
    __slots__ = ('num', 'den', 'off', 'err', 'nround')

    def __init__(self, num, den=1, off=Fraction(0), err=Fraction(0), nround=0):
        self.num = num
        self.den = den
        self.off = off
        self.err = err
        self.nround = nround

    @staticmethod
    def of(x):
        if isinstance(x, SymFloat):
            return x
        if isinstance(x, float):
            if x != x or x in (math.inf, -math.inf):
                unsupported("inf/nan")
            return SymFloat(0, 1, Fraction(x))
        if isinstance(x, SymBool):
            x = as_int(x)
        if isinstance(x, SymInt):
            return SymFloat(x, 1)
        if isinstance(x, int):
            return SymFloat(0, 1, Fraction(x))
        return None

    def maxabs(self):
        lo, hi = bounds(self.num)
        if lo is None or hi is None:
            unsupported("float from unbounded int")
        return max(abs(Fraction(lo, self.den) + self.off), abs(Fraction(hi, self.den) + self.off))

    def _round(self):
        "account for rounding of the value just computed."
        if isinstance(self.num, int):
            v = Fraction(self.num, self.den) + self.off
            if self.err == 0:
                return float(v)
        den = self.den * self.off.denominator // math.gcd(self.den, self.off.denominator)
        m = self.maxabs() + self.err
        if self.err == 0 and den & (den - 1) == 0 and m * den < 2 ** 53:
            return self
        self.err = self.err + m * EPS
        self.nround += 1
        return self

    def _addsub(self, o, sign):
        a, b = self, o
        if isinstance(b.num, int) and b.num == 0:
            num, den = a.num, a.den
        elif isinstance(a.num, int) and a.num == 0:
            num, den = (b.num if sign > 0 else -b.num), b.den
        else:
            den = a.den * b.den // math.gcd(a.den, b.den)
            num = a.num * (den // a.den) + b.num * (sign * (den // b.den))
        return SymFloat(num, den, a.off + sign * b.off, a.err + b.err, a.nround + b.nround)

    def __add__(self, o):
        o = SymFloat.of(o)
        return NotImplemented if o is None else self._addsub(o, 1)._round()
    __radd__ = __add__

    def __sub__(self, o):
        o = SymFloat.of(o)
        return NotImplemented if o is None else self._addsub(o, -1)._round()

    def __rsub__(self, o):
        o = SymFloat.of(o)
        return NotImplemented if o is None else o._addsub(self, -1)._round()

    def const(self):
        if isinstance(self.num, int) and self.err == 0:
            return Fraction(self.num, self.den) + self.off
        return None

    def _scale(self, c):
        "multiply by exact rational c (unrounded)."
        num = self.num * c.numerator
        den = self.den * c.denominator
        if isinstance(num, int) and num == 0:
            den = 1
        else:
            g = math.gcd(c.numerator, self.den)
            if g > 1:
                num = self.num * (c.numerator // g)
                den = (self.den // g) * c.denominator
        return SymFloat(num, den, self.off * c, self.err * abs(c), self.nround)

    def __mul__(self, o):
        o = SymFloat.of(o)
        if o is None:
            return NotImplemented
        c = o.const()
        if c is not None:
            return self._scale(c)._round()
        c = self.const()
        if c is not None:
            return o._scale(c)._round()
        o2 = SymFloat(realize(o.num), o.den, o.off, o.err, o.nround)
        if o2.err:
            unsupported("product of inexact floats")
        return self._scale(o2.const())._round()
    __rmul__ = __mul__

    def __truediv__(self, o):
        o = SymFloat.of(o)
        if o is None:
            return NotImplemented
        c = o.const()
        if c is None:
            if o.err:
                unsupported("division by inexact float")
            c = Fraction(realize(o.num), o.den) + o.off
        if c == 0:
            raise ZeroDivisionError("division by zero")
        return self._scale(1 / c)._round()

    def __rtruediv__(self, o):
        o = SymFloat.of(o)
        return NotImplemented if o is None else o.__truediv__(self)

    def __neg__(self):
        return self._scale(Fraction(-1))

    def __pos__(self):
        return self

    def __abs__(self):
        return ite_float(self >= 0, self, -self)

    # -- to int
    def _floor_term(self):
        "exact floor of num/den+off as int-like."
        p, q = self.off.numerator, self.off.denominator
        g = self.den * q // math.gcd(self.den, q)
        n = self.num * (g // self.den) + p * (g // q)
        return n // g

    def _tie_gap(self, shift=Fraction(0)):
        """Lattice distance: smallest nonzero |v - (k+shift)| over integers k, and whether v can hit k+shift."""
        f = ((self.off - shift) * self.den) % 1
        if f == 0:
            return Fraction(1, self.den), True
        return min(f, 1 - f) / self.den, False

    def floor(self):
        if self.err:
            gap, hit = self._tie_gap()
            if gap <= self.err:
                unsupported("float floor too close to call")
            if hit and self.nround > 1:
                fl = self._floor_term()
                exact = SymFloat(self.num - 0, self.den, self.off)
                is_tie = f_cmp('==', exact, SymFloat.of(fl) if not isinstance(fl, int) else SymFloat(0, 1, Fraction(fl)))
                if is_tie and ctx().fresh_bool("tie"):
                    return fl - 1
                return fl
        return self._floor_term()

    def __floor__(self):
        return self.floor()

    def __ceil__(self):
        return -((-self).floor())

    def __trunc__(self):
        if self >= 0:
            return self.floor()
        return self.__ceil__()

    def __int__(self):
        return realize(self.__trunc__())

    def __float__(self):
        v = self.const()
        if v is None:
            num = realize(self.num)
            if self.err:
                unsupported("float() of inexact")
            return float(Fraction(num, self.den) + self.off)
        return float(v)

    def is_integer(self):
        if self.err:
            unsupported("is_integer of inexact")
        return f_cmp('==', self, SymFloat.of(self._floor_term()))

    def __round__(self, n=None):
        if n is not None and n != 0:
            unsupported("round to digits")
        # any integer within 1/2; ties (after possible rounding error) may go either way unless exact
        half = SymFloat(self.num, self.den, self.off + Fraction(1, 2))
        up = half._floor_term()            # round half up
        gap, hit = self._tie_gap(Fraction(1, 2))
        if self.err and gap <= self.err:
            unsupported("float round too close to call")
        if hit:
            is_tie = f_cmp('==', SymFloat(self.num, self.den, self.off + Fraction(1, 2)), SymFloat.of(up))
            if self.err and self.nround > 1:
                if is_tie and ctx().fresh_bool("rtie"):
                    return up - 1
                return up
            # half to even
            odd = (up % 2) == 1
            r = ite(b_and(is_tie, odd), up - 1, up)
        else:
            r = up
        if n is not None:
            return SymFloat.of(r)
        return r

    def __floordiv__(self, o):
        return SymFloat.of((self / o).floor() if not isinstance(self / o, float) else math.floor(self / o))

    def __mod__(self, o):
        o = SymFloat.of(o)
        c = o.const() if o is not None else None
        if c is None or self.err:
            unsupported("float modulo")
        k = self._scale(1 / c)._floor_term()
        return (self._addsub(SymFloat.of(k)._scale(c), -1))._round()

    def __divmod__(self, o):
        r = self % o
        q = SymFloat.of(o).const()
        k = self._scale(1 / q)._floor_term()
        return SymFloat.of(k), r

    def _c(op, swap=False, neg=False):  # noqa
        def f(self, o):
            if isinstance(o, float) and (o != o or o in (math.inf, -math.inf)):
                return _INFCMP[(op, swap, neg)](o)
            b = SymFloat.of(o)
            if b is None:
                if op == '==':
                    return neg
                return NotImplemented
            r = f_cmp(op, b, self) if swap else f_cmp(op, self, b)
            return b_not(r) if neg else r
        return f
    __eq__ = _c('==')
    __ne__ = _c('==', neg=True)
    __lt__ = _c('<')
    __le__ = _c('<=')
    __gt__ = _c('<', swap=True)
    __ge__ = _c('<=', swap=True)
    del _c

    def __bool__(self):
        r = b_not(f_cmp('==', self, SymFloat.of(0)))
        return r if isinstance(r, bool) else bool(r)

    def __hash__(self):
        return hash(float(self))

    def __str__(self):
        return ctx().token('rf', self, 'r')

    def __repr__(self):
        return self.__str__()

    def __format__(self, spec):
        return format_value(self, spec)

    def __deepcopy__(self, memo):
        return self


def ite_float(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    return a if c else b


def _tie_choice(a, b):
    "-1/0/1 outcome of a comparison that rounding decides; the same for the same two values."
    store = ctx().fties
    ka = id(a) if a.const() is None else a.const()
    kb = id(b) if b.const() is None else b.const()
    if (ka, kb) in store:
        return store[ka, kb][0]
    if (kb, ka) in store:
        return -store[kb, ka][0]
    k = ctx().fresh_choice("ftie", 3) - 1
    store[ka, kb] = (k, a, b)
    return k


def f_cmp(op, a, b):
    if a is b:
        return op != '<'
    d = a._addsub(b, -1)
    # compare num/den + off with 0  <=>  num vs -off*den
    t = -d.off * d.den
    if d.err:
        f = t % 1
        gap = (Fraction(1) if f == 0 else min(f, 1 - f)) / d.den
        if isinstance(d.num, int):
            gap = abs(Fraction(d.num, d.den) + d.off)
            f = 0 if gap == 0 else 1
        if gap != 0 and gap <= d.err:
            unsupported("float comparison too close to call")
        if f == 0 and (a.nround > 1 or b.nround > 1):
            is_tie = d.num == int(t) if gap else True
            if is_tie is not False:
                if bool(is_tie):
                    k = _tie_choice(a, b)
                    return {'==': k == 0, '<': k < 0, '<=': k <= 0}[op]
    n = d.num
    if op == '==':
        if t.denominator != 1:
            return False
        return n == int(t)
    if op == '<':
        return n < math.ceil(t)     # n < t  <=> n < ceil(t) for integers
    if op == '<=':
        return n <= math.floor(t)
    raise AssertionError


_FLOATOPS = {i_add: lambda a, b: a + b, i_sub: lambda a, b: a - b, i_mul: lambda a, b: a * b,
             i_floordiv: lambda a, b: a // b, i_mod: lambda a, b: a % b}


# ----------------------------------------------------------------------------- text tokens

TOK0 = 0x1D7D8
TOKW = 4
TOKCHARS = ''.join(chr(TOK0 + i) for i in range(10))
TOK_RE = _re.compile('[%s]{%d}' % (TOKCHARS, TOKW))
_TR = {c: str(i) for i, c in enumerate(TOKCHARS)}


def tok_text(i):
    return ''.join(chr(TOK0 + int(d)) for d in '%0*d' % (TOKW, i))


def tok_id(s):
    return int(''.join(_TR[c] for c in s))


def has_tok(s):
    # cheap test: non-BMP chars only ever come from tokens here
    return isinstance(s, str) and not s.isascii() and TOK_RE.search(s) is not None


def tok_split(s):
    "list of str literals and Token objects."
    out = []
    pos = 0
    for m in TOK_RE.finditer(s):
        if m.start() > pos:
            out.append(s[pos:m.start()])
        out.append(ctx().tokens[tok_id(m.group())])
        pos = m.end()
    if pos < len(s):
        out.append(s[pos:])
    if len(out) > 10:
        out = _join_timestamps(out)
    return out


def _join_timestamps(parts):
    "calendar fields of one instant written as a timestamp are one timestamp"
    i = 0
    while i + 11 < len(parts):
        p = parts[i]
        if isinstance(p, Token) and type(p.val) is CalInt and p.val.cal[1] == 0:
            t = p.val.cal[0]
            ok = parts[i + 11][0] == 'Z' if isinstance(parts[i + 11], str) else False
            for k, sep in enumerate('--T::'):
                ok = ok and parts[i + 1 + 2 * k] == sep
            for k in range(6):
                q = parts[i + 2 * k]
                ok = ok and isinstance(q, Token) and type(q.val) is CalInt and q.val.cal[1] == k and \
                    q.val.cal[0].e.eq(t.e) and q.kind == 'd' and q.spec in ((4, '') if k == 0 else (2,))
            if ok:
                rest = parts[i + 11][1:]
                parts[i:i + 12] = [ctx().tokens[tok_id(ctx().token('ts', t, 20))]] + ([rest] if rest else [])
        i += 1
    return parts


class Token:
    __slots__ = ('kind', 'val', 'spec', 'id', 'len')

    def __init__(self, kind, val, spec, tid):
        self.kind, self.val, self.spec, self.id = kind, val, spec, tid
        self.len = None


def render_int(x):
    if not isinstance(x, SymInt):
        return str(x)
    v = ctx().unique(x.e)
    if v is not None:
        return str(v)
    if x.lo is not None and x.lo >= 0:
        return ctx().token('d', x, '')
    if x < 0:
        return '-' + ctx().token('d', -x, '')
    return ctx().token('d', x, '')


def format_value(x, spec):
    m = _re.fullmatch(r'(?:([<>=^ 0])?)([ +-]?)(0?)(\d*)(?:\.(\d+))?([a-zA-Z%]?)', spec)
    t = m.group(6) if m else None
    if isinstance(x, SymInt) and t in ('', 'd') and m and not m.group(5):
        if m.group(4) and (m.group(3) or m.group(1) == '0'):
            return render_padded(x, int(m.group(4)))
        if m.group(4) or m.group(2):
            return ctx().token('opq', x, spec)
        return render_int(x)
    if isinstance(x, SymInt) and t in ('f', 'F', 'e', 'g'):
        x = SymFloat.of(x)
    if isinstance(x, SymInt) and t == 'x' and not m.group(4) and not m.group(2) and x.lo is not None and x.lo >= 0:
        return ctx().token('x', x, '')
    if isinstance(x, SymFloat) and t == 'f' and not m.group(4):
        return render_fixed(x, int(m.group(5)) if m.group(5) else 6)
    return ctx().token('opq', x, spec)


def render_padded(x, width):
    if isinstance(x, int):
        return '%0*d' % (width, x)
    if x < 0:
        y = -x
        # '-' counts in the width
        return '-' + render_padded(y, width - 1)
    if isinstance(x, int):
        return '%0*d' % (width, x)
    return ctx().token('d', x, width)


def render_fixed(x, prec):
    "%.<prec>f of a SymFloat."
    if isinstance(x, float):
        return '%.*f' % (prec, x)
    exact = x.err == 0 and (10 ** prec) % x.den == 0 and (x.off * 10 ** prec).denominator == 1
    neg = bool(x < 0)
    if neg:
        x = -x
    return ('-' if neg else '') + ctx().token('f' if exact else 'opqf', x, prec)


def tok_number(s):
    """Value (int-like / Fraction-like SymFloat) of a numeric string with tokens, or None."""
    t = s.strip().replace('_', '') if not has_tok(s) else s.strip()
    neg = False
    if t[:1] in '+-':
        neg = t[:1] == '-'
        t = t[1:]
    parts = tok_split(t)
    if len(parts) == 1 and isinstance(parts[0], Token):
        tk = parts[0]
        if tk.kind == 'd':
            return (-tk.val if neg else tk.val), 'd'
        if tk.kind in ('f', 'dec'):
            return (-tk.val if neg else tk.val), 'f'
        if tk.kind == 'rf':
            return (-tk.val if neg else tk.val), 'f'
        if tk.kind in ('opqf', 'opq'):
            unsupported("number from opaque text")
        return None
    # concatenation of digits and tokens: fork on the digit counts
    val = 0
    for p in parts:
        if isinstance(p, Token):
            if p.kind != 'd':
                return None
            n = tok_len(p)
            val = val * 10 ** n + p.val
        else:
            if not p.isdigit():
                return None
            val = val * 10 ** len(p) + int(p)
    return (-val if neg else val), 'd'


def hex_number(s):
    "Value of a hexadecimal text with one token, or None."
    t = s.strip()
    neg = t[:1] == '-'
    t = t.lstrip('+-')
    if t[:2] in ('0x', '0X'):
        t = t[2:]
    parts = tok_split(t)
    if len(parts) == 1 and parts[0].kind == 'x':
        return -parts[0].val if neg else parts[0].val
    return None


def ndigits(x, minw=1):
    "Concrete digit count of a nonnegative int-like (forks)."
    n = max(1, minw)
    if isinstance(x, int):
        return max(n, len(str(x)))
    if x.hi is not None:
        mx = max(n, len(str(x.hi)))
    else:
        mx = 40
    while n < mx:
        if x < 10 ** n:
            return n
        n += 1
    return n


def tok_len(tk):
    "Length of a token's text; an int, or a SymInt for opaque text."
    if tk.len is None:
        if tk.kind == 'd':
            tk.len = ndigits(tk.val, tk.spec or 1)
        elif tk.kind == 'f':
            ip = tk.val.floor() if isinstance(tk.val, SymFloat) else int(tk.val)
            tk.len = ndigits(ip) + (1 + tk.spec if tk.spec else 0)
        elif tk.kind == 'ts':
            tk.len = tk.spec
        else:
            tk.len = ctx().fresh_int('len', 1, 40)
    return tk.len


def sx_len(x):
    if isinstance(x, str):
        if has_tok(x):
            n = 0
            for p in tok_split(x):
                n = n + (len(p) if isinstance(p, str) else tok_len(p))
            return n
        return len(x)
    if isinstance(x, SymBytes):
        return x.symlen()
    return len(x)


def str_eq(a, b):
    "Equality of two strs that may hold tokens: bool or SymBool."
    if not (has_tok(a) or has_tok(b)):
        return str.__eq__(a, b)
    if str.__eq__(a, b):
        return True
    pa, pb = tok_split(a), tok_split(b)
    r = _parts_eq(pa, pb)
    if r is not None:
        return r
    # align by digit counts
    return chars_eq(explode(a), explode(b))


def _same_value(x, y):
    "x and y are the same machine value (forks)"
    if type(x) is not type(y):
        return False
    if isinstance(x, SymFloat):
        if (x.den, x.off, x.err, x.nround) != (y.den, y.off, y.err, y.nround):
            return False
        x, y = x.num, y.num
    elif not isinstance(x, (int, SymInt)):
        return False
    return bool(x == y)


def _parts_eq(pa, pb):
    if not any(isinstance(p, Token) for p in pa):
        pa, pb = pb, pa
    if all(isinstance(p, str) for p in pb):
        # tokens vs plain text
        text = ''.join(pb)
        rx, toks, prev = '', [], False
        for p in pa:
            if isinstance(p, Token):
                if prev:
                    return None
                if p.kind == 'd':
                    w = p.spec or 1
                    rx += r'(\d{%d}|[1-9]\d{%d,})' % (w, w) if w > 1 else r'(0|[1-9]\d*)'
                elif p.kind == 'ts':
                    return False if not _re.search(r'T\d\d:', text) else None
                elif p.kind in ('f', 'dec'):
                    if _re.fullmatch(r'[^0-9.]+', text):
                        return False
                    rx += r'(\d+(?:\.\d+)?)'
                else:
                    return None
                toks.append(p)
                prev = True
            else:
                if prev and p[0].isdigit():
                    return None
                rx += _re.escape(p)
                prev = False
        if rx and rx.count('(') and _re.search(r'\\?\d\(', rx):
            return None
        m = _re.fullmatch(rx, text)
        if not m:
            return False
        cs = []
        for tk, g in zip(toks, m.groups()):
            if tk.kind == 'd':
                cs.append(tk.val == int(g))
            else:
                if tk.kind == 'f' and len(g.partition('.')[2]) != tk.spec:
                    return False
                cs.append(tk.val == SymFloat(0, 1, Fraction(g)))
        return b_and(*cs)
    # token vs token with the same skeleton
    if len(pa) == len(pb) and all((isinstance(x, str) and isinstance(y, str) and x == y) or
                                  (isinstance(x, Token) and isinstance(y, Token) and
                                   (x is y or x.id == y.id or x.kind == y.kind and
                                    x.spec == y.spec and x.kind in ('d', 'f', 'ts', 'dec', 'opq', 'opqf')))
                                  for x, y in zip(pa, pb)):
        for i in range(len(pa) - 1):
            if isinstance(pa[i], Token) and pa[i].id != pb[i].id and \
                    (isinstance(pa[i + 1], Token) or pa[i + 1][0] in '0123456789.eE'):
                return None
        cs = []
        for x, y in zip(pa, pb):
            if isinstance(x, Token) and x.id != y.id:
                if x.kind in ('opq', 'opqf'):
                    # text that is only known to be a function of its value
                    if not _same_value(x.val, y.val):
                        return None
                else:
                    cs.append(x.val == y.val)
        return b_and(*cs)
    # same number of tokens but other literal text, with no digits in the literals: different
    return None


def explode(s):
    "list of char items: 1-char str or SymInt digit codes."
    out = []
    for p in (tok_split(s) if isinstance(s, str) else s):
        if isinstance(p, str):
            out.extend(p)
        else:
            out.extend(tok_chars(p))
    return out


def tok_chars(tk):
    if tk.kind == 'd':
        n = tok_len(tk)
        return [Digit(tk, i, n) for i in range(n)]
    if tk.kind == 'f':
        v = tk.val
        scaled = v._scale(Fraction(10 ** tk.spec))._floor_term() if isinstance(v, SymFloat) else int(v * 10 ** tk.spec)
        ip = scaled // 10 ** tk.spec
        fr = scaled % 10 ** tk.spec
        t1 = Token('d', ip, '', -1)
        t2 = Token('d', fr, tk.spec, -1)
        t2.len = tk.spec
        out = tok_chars(t1) if not isinstance(ip, int) else list(str(ip))
        if tk.spec:
            out += ['.'] + (tok_chars(t2) if not isinstance(fr, int) else list('%0*d' % (tk.spec, fr)))
        return out
    if tk.kind == 'ts':
        return [Opaque(tk, i, tk.spec) for i in range(tk.spec)]
    return [Opaque(tk, 0, None)]


class Digit:
    "i-th character (from the left) of token's n-digit text."
    __slots__ = ('tk', 'i', 'n')

    def __init__(self, tk, i, n):
        self.tk, self.i, self.n = tk, i, n

    def code(self):
        return i_add_any(i_mod_any(i_div_any(self.tk.val, 10 ** (self.n - 1 - self.i)), 10), 48)

    def same(self, o):
        return isinstance(o, Digit) and o.i == self.i and o.n == self.n and (
            o.tk is self.tk or (isinstance(o.tk.val, SymInt) and isinstance(self.tk.val, SymInt) and
                                o.tk.val.e.eq(self.tk.val.e)))


def i_add_any(a, b):
    return a + b


def i_mod_any(a, b):
    return a % b


def i_div_any(a, b):
    return a // b


class Opaque:
    "Character i of n (or all, n None) of text whose characters are not modelled."
    __slots__ = ('tk', 'i', 'n')

    def __init__(self, tk, i, n):
        self.tk, self.i, self.n = tk, i, n

    def same(self, o):
        return isinstance(o, Opaque) and o.tk is self.tk and o.i == self.i


def chars_eq(a, b):
    if len(a) != len(b):
        if any(isinstance(x, Opaque) and x.n is None for x in a + b):
            unsupported("comparison of opaque text")
        return False
    cs = []
    for x, y in zip(a, b):
        if isinstance(x, str) and isinstance(y, str):
            if x != y:
                return False
            continue
        if isinstance(x, Digit) and x.same(y):
            continue
        if isinstance(x, Opaque) or isinstance(y, Opaque):
            if isinstance(x, Opaque) and x.same(y):
                continue
            unsupported("comparison of opaque text")
        cx = ord(x) if isinstance(x, str) else x.code()
        cy = ord(y) if isinstance(y, str) else y.code()
        r = cx == cy
        if r is False:
            return False
        cs.append(r)
    return b_and(*cs)


# ----------------------------------------------------------------------------- bytes

class ByteOf:
    "byte k (0 = least significant) of the nonnegative int-like v."
    __slots__ = ('v', 'k')

    def __init__(self, v, k):
        self.v, self.k = v, k

    def code(self):
        return (self.v // (256 ** self.k)) % 256


def item_code(it):
    if isinstance(it, (int, SymInt)):
        return it
    if isinstance(it, (ByteOf, Digit)):
        return it.code()
    unsupported("value of opaque text")


def pack_int(x, n, byteorder, signed, exc, msg="int too big to convert"):
    if isinstance(x, SymBool):
        x = as_int(x)
    lim = 256 ** n
    if signed:
        if not b_true(b_and(x >= -(lim // 2), x < lim // 2)):
            raise exc(msg)
        if b_true(x < 0):
            x = x + lim
    else:
        if not b_true(b_and(x >= 0, x < lim)):
            raise exc(msg)
    if isinstance(x, int):
        return x.to_bytes(n, byteorder)
    items = []
    for k in range(n - 1, -1, -1):
        if x.hi is not None and x.hi < 256 ** k:
            items.append(0)
        elif x.lo is not None and x.lo >= 0 and x.hi is not None and x.lo // 256 ** k == x.hi // 256 ** k:
            items.append((x.lo // 256 ** k) % 256)
        elif n == 1 or (x.hi is not None and x.hi < 256):
            items.append(x)
        else:
            items.append(ByteOf(x, k))
    if byteorder == 'little':
        items.reverse()
    return mkbytes(items)


def b_true(x):
    return x if isinstance(x, bool) else bool(x)


def unpack_int(items, byteorder='big', signed=False):
    items = list(items)
    if byteorder == 'little':
        items = items[::-1]
    n = len(items)
    val = 0
    i = 0
    while i < n:
        it = items[i]
        if isinstance(it, ByteOf):
            j = i
            while j + 1 < n and isinstance(items[j + 1], ByteOf) and items[j + 1].k == items[j].k - 1 and \
                    _same(items[j + 1].v, it.v):
                j += 1
            lowk = items[j].k
            w = j - i + 1
            part = it.v // (256 ** lowk) if lowk else it.v
            hi = it.v.hi
            if not (hi is not None and hi < 256 ** (it.k + 1)):
                part = part % (256 ** w)
            sh = n - 1 - j
            val = val + part * 256 ** sh
            i = j + 1
        else:
            c = item_code(it)
            val = val + c * 256 ** (n - 1 - i)
            i += 1
    if isinstance(val, SymInt):
        lo, hi = 0, 256 ** n - 1
        nlo = lo if val.lo is None else max(lo, val.lo)
        nhi = hi if val.hi is None else min(hi, val.hi)
        val = mk(val.e, nlo, nhi, val.tz)
    if signed:
        half = 256 ** n // 2
        if isinstance(val, int):
            return val - 256 ** n if val >= half else val
        if val >= half:
            return val - 256 ** n
    return val


def _same(a, b):
    return a is b or (isinstance(a, SymInt) and isinstance(b, SymInt) and a.e.eq(b.e))


def mkbytes(items):
    "bytes when all items are concrete else SymBytes."
    out = []
    for it in items:
        if type(it) is str:
            it = ord(it)
        if isinstance(it, SymInt):
            pass
        out.append(it)
    if all(type(i) is int for i in out):
        return bytes(out)
    return SymBytes(out)


def items_of(x):
    if isinstance(x, SymBytes):
        return x.items
    if isinstance(x, (bytes, bytearray, memoryview)):
        return list(bytes(x))
    return None


class Whole:
    "The text of a number token whose digits have not been split up yet."
    __slots__ = ('tk',)

    def __init__(self, tk):
        self.tk = tk


def raw_items(x):
    if isinstance(x, SymBytes):
        return x.raw
    if isinstance(x, SymByteArray):
        return x.items
    return items_of(x)


def tok_symlen(tk):
    "Length of a token's text without forking."
    if tk.len is not None:
        return tk.len
    if tk.kind == 'd':
        v, n = tk.val, max(1, tk.spec or 1)
    elif tk.kind == 'f':
        v = tk.val.floor() if isinstance(tk.val, SymFloat) else int(tk.val)
        n = 1
    else:
        return tok_len(tk)
    extra = (1 + tk.spec if tk.spec else 0) if tk.kind == 'f' else 0
    if isinstance(v, int):
        return max(n, len(str(v))) + extra
    mx = max(n, len(str(v.hi))) if v.hi is not None else 40
    r = n
    for k in range(n, mx):
        r = ite(v >= 10 ** k, k + 1, r)
    return r + extra


class SymBytes:
    __slots__ = ('raw',)

    def __init__(self, items):
        self.raw = list(items)

    @property
    def items(self):
        if any(type(it) is Whole for it in self.raw):
            out = []
            for it in self.raw:
                if type(it) is Whole:
                    out.extend(ord(c) if isinstance(c, str) else c for c in tok_chars(it.tk))
                else:
                    out.append(it)
            self.raw = out
        return self.raw

    def symlen(self):
        n = 0
        for it in self.raw:
            if type(it) is Whole:
                n = n + tok_symlen(it.tk)
            elif isinstance(it, Opaque) and it.n is None:
                n = n + tok_len(it.tk)
            else:
                n = n + 1
        return n

    def __len__(self):
        if any(isinstance(it, Opaque) and it.n is None for it in self.items):
            unsupported("len of opaque bytes")
        return len(self.items)

    def _noopq(self):
        for it in self.items:
            if isinstance(it, Opaque) and it.n is None:
                unsupported("indexing opaque bytes")

    def __getitem__(self, k):
        if isinstance(k, slice):
            st, sp, sg = k.start, k.stop, k.step
            if st in (None, 0) and sp is None and sg in (None, 1):
                return self
            n = len(self.items)
            st = realize_idx(st, n)
            sp = realize_idx(sp, n)
            if any(isinstance(it, Opaque) and it.n is None for it in self.items):
                if (st in (None, 0)) and sp is None:
                    return self
                self._noopq()
            return mkbytes(self.items[slice(st, sp, sg)])
        k = realize(k) if isinstance(k, SymInt) else k.__index__()
        self._noopq()
        return item_code(self.items[k])

    def __iter__(self):
        self._noopq()
        return iter([item_code(i) for i in self.items])

    def __bool__(self):
        return len(self.raw) > 0

    def __add__(self, o):
        it = raw_items(o)
        if it is None:
            return NotImplemented
        return mkbytes(self.raw + it)

    def __radd__(self, o):
        it = raw_items(o)
        if it is None:
            return NotImplemented
        return mkbytes(it + self.raw)

    def __mul__(self, n):
        return mkbytes(self.items * (realize(n) if isinstance(n, SymInt) else n))
    __rmul__ = __mul__

    def __mod__(self, args):
        unsupported("format with symbolic template")

    def __eq__(self, o):
        it = raw_items(o)
        if it is None:
            return False
        return bytes_eq(self.raw, it)

    def __ne__(self, o):
        return b_not(self.__eq__(o))

    def __hash__(self):
        return hash(self.concrete())

    def __contains__(self, x):
        if isinstance(x, (int, SymInt)):
            for c in self:
                if c == x:
                    return True
            return False
        return self.find(x) >= 0

    def concrete(self):
        "realise every byte."
        self._noopq()
        return bytes([realize(item_code(i)) for i in self.items])

    def __bytes__(self):
        return self.concrete()

    def __repr__(self):
        return "b'<sym %d>'" % len(self.items)
    __str__ = __repr__

    # -- methods
    def find(self, sub, start=0, end=None):
        if isinstance(sub, (int, SymInt)):
            sub = mkbytes([sub])
        s = items_of(sub)
        n = len(self.items) if end is None else min(realize(end), len(self.items))
        start = realize(start)
        for i in range(start, n - len(s) + 1):
            if b_true(bytes_eq(self.items[i:i + len(s)], s)):
                return i
        return -1

    def rfind(self, sub, start=0, end=None):
        s = items_of(sub)
        n = len(self.items) if end is None else min(realize(end), len(self.items))
        for i in range(n - len(s), realize(start) - 1, -1):
            if b_true(bytes_eq(self.items[i:i + len(s)], s)):
                return i
        return -1

    def index(self, sub, start=0, end=None):
        r = self.find(sub, start, end)
        if r < 0:
            raise ValueError("subsection not found")
        return r

    def count(self, sub):
        n, i = 0, 0
        while True:
            i = self.find(sub, i)
            if i < 0:
                return n
            n += 1
            i += len(sub)

    def startswith(self, p, start=0):
        if isinstance(p, tuple):
            return any(self.startswith(q) for q in p)
        s = items_of(p)
        return b_true(bytes_eq(self.items[start:start + len(s)], s)) if len(s) <= len(self.items) - start else False

    def endswith(self, p):
        s = items_of(p)
        return b_true(bytes_eq(self.items[-len(s):], s)) if 0 < len(s) <= len(self.items) else not s

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            unsupported("bytes split on whitespace")
        out, pos = [], 0
        while maxsplit != 0:
            i = self.find(sep, pos)
            if i < 0:
                break
            out.append(mkbytes(self.items[pos:i]))
            pos = i + len(sep)
            maxsplit -= 1
        out.append(mkbytes(self.items[pos:]))
        return out

    def replace(self, a, b, count=-1):
        parts = self.split(a, count)
        return bytes_join(b, parts)

    def join(self, seq):
        return bytes_join(self, seq)

    def decode(self, encoding='utf-8', errors='strict'):
        return bytes_decode(self)

    def tobytes(self):
        return self

    def hex(self, *a):
        return ctx().token('opq', self, 'hex')

    def lower(self):
        return bytes_map(self, bytes.lower)

    def upper(self):
        return bytes_map(self, bytes.upper)

    def strip(self, chars=None):
        unsupported("strip on symbolic bytes")

    def isdigit(self):
        return bool(self.items) and all(b_true(b_and(c >= 48, c <= 57)) for c in self)

    def __deepcopy__(self, memo):
        return self


def bytes_map(x, f):
    out = []
    for it in x.items:
        if isinstance(it, int):
            out.append(f(bytes([it]))[0])
        elif isinstance(it, (Digit, Opaque)):
            out.append(it)
        else:
            unsupported("case mapping of symbolic byte")
    return mkbytes(out)


def realize_idx(v, n):
    "slice index (symbolic indexes are clamped before being enumerated)."
    if v is None or isinstance(v, int):
        return v
    if isinstance(v, SymInt):
        if v >= n:
            return n
        if v < 0:
            if v <= -n:
                return -n
        return realize(v)
    return v.__index__()


def _texty(it):
    return all(type(x) in (int, Whole, Digit) or type(x) is Opaque for x in it)


def bytes_eq(a, b):
    if any(type(x) in (Whole, Opaque) for x in a) or any(type(x) in (Whole, Opaque) for x in b):
        if _texty(a) and _texty(b):
            try:
                ta, tb = bytes_decode(SymBytes(a)), bytes_decode(SymBytes(b))
            except UnicodeDecodeError:
                pass
            else:
                return str_eq(ta, tb)
        a, b = SymBytes(a).items, SymBytes(b).items
    if len(a) != len(b):
        if any(isinstance(x, Opaque) and x.n is None for x in list(a) + list(b)):
            unsupported("comparison of opaque bytes")
        return False
    cs = []
    n = len(a)
    i = 0
    while i < n:
        x, y = a[i], b[i]
        if type(x) is int and type(y) is int:
            if x != y:
                return False
            i += 1
            continue
        if isinstance(x, ByteOf) or isinstance(y, ByteOf):
            # merge a run of bytes of one value
            j = i
            s = x if isinstance(x, ByteOf) else y
            side = a if isinstance(x, ByteOf) else b
            while j + 1 < n and isinstance(side[j + 1], ByteOf) and side[j + 1].k == side[j].k - 1 and \
                    _same(side[j + 1].v, s.v) and not isinstance((b if side is a else a)[j + 1], Opaque):
                j += 1
            other = b if side is a else a
            if isinstance(other[i], Opaque):
                unsupported("comparison of opaque bytes")
            r = unpack_int(a[i:j + 1]) == unpack_int(b[i:j + 1])
            if r is False:
                return False
            cs.append(r)
            i = j + 1
            continue
        if isinstance(x, Digit) and x.same(y):
            i += 1
            continue
        if isinstance(x, Opaque) or isinstance(y, Opaque):
            if isinstance(x, Opaque) and x.same(y):
                i += 1
                continue
            unsupported("comparison of opaque bytes")
        r = item_code(x) == item_code(y)
        if r is False:
            return False
        cs.append(r)
        i += 1
    return b_and(*cs)


def bytes_join(sep, seq):
    s = items_of(sep)
    out = []
    first = True
    for p in seq:
        it = raw_items(p)
        if it is None:
            if isinstance(p, SymByteArray):
                it = p.items
            else:
                raise TypeError("sequence item: expected a bytes-like object, %s found" % type(p).__name__)
        if not first:
            out.extend(s)
        out.extend(it)
        first = False
    return mkbytes(out)


def bytes_decode(x):
    out = []
    items = x.raw
    i = 0
    buf = bytearray()

    def flush():
        if buf:
            out.append(bytes(buf).decode('utf-8'))
            buf.clear()
    while i < len(items):
        it = items[i]
        if type(it) is int:
            buf.append(it)
            i += 1
            continue
        flush()
        if type(it) is Whole:
            out.append(tok_text(it.tk.id))
            i += 1
            continue
        if isinstance(it, Digit):
            run = items[i:i + it.n]
            if it.i == 0 and len(run) == it.n and all(isinstance(d, Digit) and d.tk is it.tk and d.i == k
                                                      for k, d in enumerate(run)):
                if it.tk.id >= 0:
                    out.append(tok_text(it.tk.id))
                else:
                    out.append(ctx().token('d', it.tk.val, it.tk.spec))
                i += it.n
                continue
            c = it.code()
            out.append(ctx().token('d', c - 48, ''))
            i += 1
            continue
        if isinstance(it, Opaque):
            run = items[i:i + (it.n or 1)]
            if it.i == 0:
                out.append(tok_text(it.tk.id))
                i += it.n or 1
                continue
            unsupported("decode of partial opaque text")
        c = item_code(it)
        if isinstance(c, SymInt):
            if c.lo is not None and c.lo >= 48 and c.hi is not None and c.hi <= 57:
                # a run of digit bytes is one number token when delimited; keep digit by digit
                out.append(ctx().token('d', c - 48, 1))
            else:
                if c >= 128:
                    raise UnicodeDecodeError('utf-8', b'?', 0, 1, 'symbolic non-ascii byte')
                out.append(chr(realize(c)))
        else:
            buf.append(c)
        i += 1
    flush()
    return ''.join(out)


def str_encode(s):
    if not has_tok(s):
        return s.encode('utf-8')
    out = []
    for p in tok_split(s):
        if isinstance(p, str):
            out.extend(p.encode('utf-8'))
        elif p.kind in ('d', 'f') and p.id >= 0:
            out.append(Whole(p))
        else:
            out.extend(ord(c) if isinstance(c, str) else c for c in tok_chars(p))
    return mkbytes(out)


class SymByteArray:
    "Mutable byte string (stands for bytearray in instrumented code)."

    def __init__(self, src=b'', *a):
        if isinstance(src, (int, SymInt)):
            self.items = [0] * realize(src)
        elif isinstance(src, SymByteArray):
            self.items = list(src.items)
        else:
            it = items_of(src)
            if it is None:
                it = [c for c in (src.encode(*a) if isinstance(src, str) else src)]
            self.items = list(it)

    def _val(self, v):
        if isinstance(v, SymInt):
            if not b_true(b_and(v >= 0, v <= 255)):
                raise ValueError("byte must be in range(0, 256)")
            return v
        if not 0 <= v <= 255:
            raise ValueError("byte must be in range(0, 256)")
        return v

    def append(self, v):
        self.items.append(self._val(v))

    def extend(self, seq):
        it = items_of(seq) if not isinstance(seq, SymByteArray) else seq.items
        if it is None:
            it = [self._val(v) for v in seq]
        self.items.extend(it)

    def __len__(self):
        return len(self.items)

    def __getitem__(self, k):
        if isinstance(k, slice):
            r = SymByteArray()
            n = len(self.items)
            r.items = self.items[slice(realize_idx(k.start, n), realize_idx(k.stop, n), k.step)]
            return r
        return item_code(self.items[k.__index__()])

    def __setitem__(self, k, v):
        if isinstance(k, slice):
            it = items_of(v) if not isinstance(v, SymByteArray) else v.items
            self.items[k] = it if it is not None else list(v)
        else:
            self.items[k.__index__()] = self._val(v)

    def __iter__(self):
        return iter([item_code(i) for i in self.items])

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __add__(self, o):
        r = SymByteArray(self)
        r.extend(o)
        return r

    def __radd__(self, o):
        return mkbytes(items_of(o) + self.items)

    def __eq__(self, o):
        it = o.items if isinstance(o, SymByteArray) else items_of(o)
        return False if it is None else bytes_eq(self.items, it)

    def __ne__(self, o):
        return b_not(self.__eq__(o))

    __hash__ = None

    def insert(self, i, v):
        self.items.insert(i, self._val(v))

    def pop(self, i=-1):
        return item_code(self.items.pop(i))

    def clear(self):
        self.items.clear()

    def find(self, *a):
        return SymBytes(self.items).find(*a)

    def tobytes(self):
        return mkbytes(self.items)

    def __bytes__(self):
        return bytes(mkbytes(self.items))

    def __bool__(self):
        return bool(self.items)

    def decode(self, *a):
        x = mkbytes(self.items)
        return x.decode('utf-8') if isinstance(x, bytes) else bytes_decode(x)

    def join(self, seq):
        return bytes_join(mkbytes(self.items), seq)
