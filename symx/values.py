"""Symbolic scalars: booleans, integers, floating-point numbers (as finite reals), complex numbers.

Numbers: a Python int is a mathematical integer (exact).  A float is modelled as the finite real it denotes;
arithmetic on it is exact, so assertions on computed floats carry a tolerance.  NaN and infinities only occur
as concrete values.
"""
import math
from fractions import Fraction
import numpy as _np
import z3
from . import engine as E


def zb(b):
    return b.z if isinstance(b, SBool) else z3.BoolVal(bool(b))


def is_sym(x):
    return isinstance(x, Sym)


class Sym:
    __slots__ = ()
    __array_ufunc__ = None


class SBool(Sym):
    __slots__ = ('z',)

    def __init__(self, z):
        self.z = z

    def __bool__(self):
        return E.eng().decide(self.z)

    def __and__(self, o):
        if isinstance(o, (SBool, bool, _np.bool_)):
            return mkbool(z3.And(self.z, zb(o)))
        return self.as_int() & o
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (SBool, bool, _np.bool_)):
            return mkbool(z3.Or(self.z, zb(o)))
        return self.as_int() | o
    __ror__ = __or__

    def __xor__(self, o):
        return mkbool(z3.Xor(self.z, zb(o)))
    __rxor__ = __xor__

    def __invert__(self):
        return mkbool(z3.Not(self.z))

    def as_int(self):
        return SInt(z3.If(self.z, z3.IntVal(1), z3.IntVal(0)), 0, 1)

    def __index__(self):
        return 1 if bool(self) else 0
    __int__ = __index__

    def __eq__(self, o):
        if isinstance(o, (SBool, bool, _np.bool_)):
            return mkbool(self.z == zb(o))
        return self.as_int() == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return ~r if isinstance(r, SBool) else not r

    def __hash__(self):
        return hash(bool(self))

    def __add__(self, o):
        return self.as_int() + o
    __radd__ = __add__

    def __sub__(self, o):
        return self.as_int() - o

    def __rsub__(self, o):
        return o - self.as_int()

    def __mul__(self, o):
        return self.as_int() * o
    __rmul__ = __mul__

    def __lt__(self, o):
        return self.as_int() < o

    def __gt__(self, o):
        return self.as_int() > o

    def __le__(self, o):
        return self.as_int() <= o

    def __ge__(self, o):
        return self.as_int() >= o

    def __float__(self):
        return float(bool(self))

    def __format__(self, spec):
        return format(bool(self), spec)

    def __str__(self):
        return str(bool(self))
    __repr__ = __str__


def mkbool(z):
    z = z3.simplify(z)
    if z3.is_true(z):
        return True
    if z3.is_false(z):
        return False
    return SBool(z)


def _is_int(x):
    return isinstance(x, (int, _np.integer)) or isinstance(x, (bool, _np.bool_))


def _is_float(x):
    return isinstance(x, (float, _np.floating))


def real_of(x):
    """A z3 Real for a concrete or symbolic real number."""
    if isinstance(x, SFloat):
        return x.z
    if isinstance(x, SInt):
        return z3.ToReal(x.z)
    if isinstance(x, SBool):
        return z3.ToReal(x.as_int().z)
    if _is_int(x):
        return z3.RealVal(int(x))
    f = Fraction(float(x))
    return z3.RealVal(str(f))


def int_of(x):
    if isinstance(x, SInt):
        return x.z
    if isinstance(x, SBool):
        return x.as_int().z
    return z3.IntVal(int(x))


def _b(x, k):
    """Static bounds of an integer operand."""
    if isinstance(x, SInt):
        return x.lo if k == 0 else x.hi
    if isinstance(x, SBool):
        return k
    return int(x)


def _add(a, b):
    return None if a is None or b is None else a + b


def _finite(x):
    return math.isfinite(float(x))


class SInt(Sym):
    __slots__ = ('z', 'lo', 'hi')

    def __init__(self, z, lo=None, hi=None):
        self.z = z
        self.lo = lo
        self.hi = hi

    # arithmetic
    def _arith(self, o, fi, ff, bounds):
        if isinstance(o, (SInt, SBool)) or _is_int(o):
            lo, hi = bounds(o) if bounds else (None, None)
            return mkint(fi(self.z, int_of(o)), lo, hi)
        if isinstance(o, SFloat) or _is_float(o):
            return ff(SFloat.of_int(self), o)
        if isinstance(o, (SComplex, complex, _np.complexfloating)):
            return ff(SComplex(self, 0), o)
        return NotImplemented

    def __add__(self, o):
        return self._arith(o, lambda a, b: a + b, lambda a, b: a + b,
                           lambda o: (_add(self.lo, _b(o, 0)), _add(self.hi, _b(o, 1))))
    __radd__ = __add__

    def __sub__(self, o):
        def bnd(o):
            l, h = _b(o, 0), _b(o, 1)
            return (_add(self.lo, None if h is None else -h), _add(self.hi, None if l is None else -l))
        return self._arith(o, lambda a, b: a - b, lambda a, b: a - b, bnd)

    def __rsub__(self, o):
        return (-self) + o

    def __neg__(self):
        return SInt(-self.z, None if self.hi is None else -self.hi, None if self.lo is None else -self.lo)

    def __pos__(self):
        return self

    def __abs__(self):
        if self.lo is not None and self.lo >= 0:
            return self
        m = None
        if self.lo is not None and self.hi is not None:
            m = max(abs(self.lo), abs(self.hi))
        return SInt(z3.If(self.z < 0, -self.z, self.z), 0, m)

    def __mul__(self, o):
        def bnd(o):
            l, h = _b(o, 0), _b(o, 1)
            if None in (l, h, self.lo, self.hi):
                return None, None
            c = [self.lo * l, self.lo * h, self.hi * l, self.hi * h]
            return min(c), max(c)
        if isinstance(o, (str, bytes, list, tuple)):
            return o * self.__index__()
        return self._arith(o, lambda a, b: a * b, lambda a, b: a * b, bnd)
    __rmul__ = __mul__

    def _divcheck(self, o):
        if isinstance(o, (SInt, SBool)):
            if E.eng().decide(int_of(o) == 0):
                raise ZeroDivisionError('integer division or modulo by zero')
        elif int(o) == 0:
            raise ZeroDivisionError('integer division or modulo by zero')

    def __floordiv__(self, o):
        if isinstance(o, (SInt, SBool)) or _is_int(o):
            self._divcheck(o)
            return mkint(floordiv(self.z, int_of(o)))
        return NotImplemented

    def __rfloordiv__(self, o):
        self_o = SInt(int_of(o))
        return self_o // self

    def __mod__(self, o):
        if isinstance(o, (SInt, SBool)) or _is_int(o):
            self._divcheck(o)
            b = int_of(o)
            hi = int(o) - 1 if _is_int(o) and int(o) > 0 else None
            return mkint(self.z - b * floordiv(self.z, b), 0 if hi is not None else None, hi)
        return NotImplemented

    def __rmod__(self, o):
        return SInt(int_of(o)) % self

    def __divmod__(self, o):
        return self // o, self % o

    def __truediv__(self, o):
        return SFloat.of_int(self) / o

    def __rtruediv__(self, o):
        return o / SFloat.of_int(self)

    def __pow__(self, o):
        if _is_int(o) and 0 <= o <= 4:
            r = 1
            for _ in range(int(o)):
                r = self * r
            return r
        return self.__index__() ** o

    # comparison
    def _cmp(self, o, f, swap=False):
        if isinstance(o, (SInt, SBool)) or _is_int(o):
            return mkbool(f(self.z, int_of(o)))
        if _is_float(o) and not _finite(o):
            return f(0.0, float(o))
        if isinstance(o, SFloat) or _is_float(o):
            return mkbool(f(z3.ToReal(self.z), real_of(o)))
        return NotImplemented

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        if isinstance(o, SComplex) or isinstance(o, (complex, _np.complexfloating)):
            return SComplex(self, 0) == o
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self.__eq__(o)
        return ~r if isinstance(r, SBool) else not r

    def __bool__(self):
        return E.eng().decide(self.z != 0)

    def __hash__(self):
        return hash(self.__index__())

    def __index__(self):
        return conc_int(self)
    __int__ = __index__

    def __float__(self):
        return float(conc_int(self))

    def __complex__(self):
        return complex(conc_int(self))

    def __format__(self, spec):
        return format(conc_int(self), spec)

    def __str__(self):
        return str(conc_int(self))

    def __repr__(self):
        return '<SInt %s>' % self.z

    def __round__(self, n=None):
        return self

    def __trunc__(self):
        return self
    __floor__ = __ceil__ = __trunc__

    def __and__(self, o):
        return self.__index__() & (o.__index__() if isinstance(o, Sym) else o)
    __rand__ = __and__

    def __or__(self, o):
        return self.__index__() | (o.__index__() if isinstance(o, Sym) else o)
    __ror__ = __or__

    def __lshift__(self, o):
        return self.__index__() << o

    def __rshift__(self, o):
        return self.__index__() >> o

    def __invert__(self):
        return -self - 1

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    def conjugate(self):
        return self

    def item(self):
        return self

    def bit_length(self):
        return conc_int(self).bit_length()

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def floordiv(a, b):
    """Python floor division on z3 integers (z3 div rounds so that the remainder is non-negative)."""
    if z3.is_int_value(b):
        if b.as_long() > 0:
            return a / b
        return (-a) / (-b)
    return z3.If(b > 0, a / b, (-a) / (-b))


def mkint(z, lo=None, hi=None):
    z = z3.simplify(z)
    if z3.is_int_value(z):
        return z.as_long()
    return SInt(z, lo, hi)


MAXVALS = 64


def conc_int(x):
    """The concrete value of an integer on this path: forks over the values it can take (at most MAXVALS)."""
    e = E.eng()
    z = z3.simplify(x.z)
    if z3.is_int_value(z):
        return z.as_long()
    key = ('ci', e.keep(z))
    if key in e.memo:
        return e.memo[key]
    for _ in range(MAXVALS):
        v = model_value(z)
        if v is None:
            e.dead = E.Infeasible('no value')
            raise e.dead
        if e.decide(z == v):
            e.memo[key] = v
            return v
    e.dead = E.Budget('integer used as a concrete value takes more than %d values' % MAXVALS)
    raise e.dead


def model_value(z):
    """A value of z under the path condition, recorded in the path's trace."""
    e = E.eng()
    return e.value(lambda: _model_value(e, z))


def _model_value(e, z):
    s = z3.Solver()
    s.set('timeout', e.timeout_ms)
    s.add(*e.cone(E.vars_of(z)))
    if z.is_int():
        # prefer small non-negative values
        for pref in (z3.And(z >= 0, z <= 9), z3.And(z >= -9, z <= 999), z3.BoolVal(True)):
            s.push()
            s.add(pref)
            if s.check() == z3.sat:
                return s.model().eval(z, model_completion=True).as_long()
            s.pop()
        return None
    if s.check() != z3.sat:
        return None
    v = s.model().eval(z, model_completion=True)
    return v.as_fraction() if hasattr(v, 'as_fraction') else Fraction(str(v.approx(20).as_fraction()))


class SFloat(Sym):
    """A finite float.  nd: significant decimal digits known to represent it exactly (None: unknown).
    intof: the SInt it equals, if it is an integer read as a float.  small: |x| is 0 or within
    [1e-98, 9e98], so a two-digit exponent is enough."""
    __slots__ = ('z', 'nd', 'intof', 'small', 'single', 'nonneg', 'raw')

    def __init__(self, z, nd=None, intof=None, small=False, single=False, nonneg=False):
        self.z = z
        self.nd = nd
        self.intof = intof
        self.small = small
        self.single = single
        self.nonneg = nonneg

    @staticmethod
    def of_int(i):
        if isinstance(i, SBool):
            i = i.as_int()
        nd = None
        if i.lo is not None and i.hi is not None:
            nd = len(str(max(abs(i.lo), abs(i.hi))))
        return SFloat(z3.ToReal(i.z), nd=nd, intof=i, small=i.lo is not None and i.hi is not None,
                      nonneg=i.lo is not None and i.lo >= 0)

    def _arith(self, o, f):
        if isinstance(o, (SComplex, complex, _np.complexfloating)):
            return NotImplemented
        if _is_float(o) and not _finite(o):
            return NotImplemented
        if isinstance(o, (SInt, SBool, SFloat)) or _is_int(o) or _is_float(o):
            return mkfloat(f(self.z, real_of(o)))
        return NotImplemented

    def __add__(self, o):
        if is_zero(o):
            return self
        r = cplx_op(self, o, 'add')
        return self._arith(o, lambda a, b: a + b) if r is None else r
    __radd__ = __add__

    def __sub__(self, o):
        if is_zero(o):
            return self
        r = cplx_op(self, o, 'sub')
        return self._arith(o, lambda a, b: a - b) if r is None else r

    def __rsub__(self, o):
        r = cplx_op(o, self, 'sub')
        return self._arith(o, lambda a, b: b - a) if r is None else r

    def __mul__(self, o):
        r = cplx_op(self, o, 'mul')
        if r is not None:
            return r
        if is_zero(o):
            return 0.0
        if (_is_int(o) or _is_float(o)) and float(o) == 1.0:
            return self
        return self._arith(o, lambda a, b: a * b)
    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, (SFloat, SInt)):
            if E.eng().decide(real_of(o) == 0):
                raise ZeroDivisionError('float division by zero')
        elif (_is_int(o) or _is_float(o)) and float(o) == 0:
            raise ZeroDivisionError('float division by zero')
        return self._arith(o, lambda a, b: a / b)

    def __rtruediv__(self, o):
        if E.eng().decide(self.z == 0):
            raise ZeroDivisionError('float division by zero')
        return self._arith(o, lambda a, b: b / a)

    def __neg__(self):
        return SFloat(z3.simplify(-self.z), nd=self.nd, intof=None if self.intof is None else -self.intof,
                      small=self.small, single=self.single)

    def __pos__(self):
        return self

    def __abs__(self):
        if self.nonneg:
            return self
        return SFloat(z3.If(self.z < 0, -self.z, self.z), nd=self.nd, small=self.small, single=self.single, nonneg=True)

    def __pow__(self, o):
        if _is_int(o) and 1 <= o <= 3:
            r = self
            for _ in range(int(o) - 1):
                r = r * self
            return r
        return conc_float(self) ** o

    def __mod__(self, o):
        return conc_float(self) % o

    def __floordiv__(self, o):
        return conc_float(self) // o

    def _cmp(self, o, f):
        if _is_float(o) and not _finite(o):
            return f(0.0, float(o))
        if isinstance(o, (SInt, SBool, SFloat)) or _is_int(o) or _is_float(o):
            return mkbool(f(self.z, real_of(o)))
        return NotImplemented

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        if isinstance(o, (SComplex, complex, _np.complexfloating)):
            return SComplex(self, 0) == o
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self.__eq__(o)
        return ~r if isinstance(r, SBool) else not r

    def __bool__(self):
        return E.eng().decide(self.z != 0)

    def __hash__(self):
        return hash(conc_float(self))

    def __float__(self):
        return conc_float(self)

    def __int__(self):
        return int(conc_float(self))

    def __trunc__(self):
        return trunc(self)

    def __floor__(self):
        return mkint(z3.ToInt(self.z))

    def __ceil__(self):
        return mkint(-z3.ToInt(-self.z))

    def __round__(self, n=None):
        if n is None:
            return round_int(self)
        return round(conc_float(self), n)

    def __complex__(self):
        return complex(conc_float(self))

    def __format__(self, spec):
        return format(conc_float(self), spec)

    def __str__(self):
        return str(conc_float(self))

    def __repr__(self):
        return '<SFloat %s>' % self.z

    def is_integer(self):
        return mkbool(z3.ToReal(z3.ToInt(self.z)) == self.z)

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.0

    def conjugate(self):
        return self

    def item(self):
        return self

    def astype(self, t):
        return self

    def copy(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def mkfloat(z):
    z = z3.simplify(z)
    if z3.is_rational_value(z):
        fr = z.as_fraction()
        f = float(fr)
        if Fraction(f) == fr:
            return f
    return SFloat(z)


def is_zero(o):
    return (_is_int(o) or _is_float(o)) and float(o) == 0.0


def trunc(x):
    """int(x) for a symbolic float."""
    if x.intof is not None:
        return x.intof
    return mkint(z3.If(x.z >= 0, z3.ToInt(x.z), -z3.ToInt(-x.z)))


def round_int(x):
    """round-half-even to an integer."""
    if x.intof is not None:
        return x.intof
    e = E.eng()
    k = ('ri', e.keep(x.z))
    if k not in e.memo:
        v = z3.Int(e.fresh('ri'))
        d = z3.ToReal(v) - x.z
        h = z3.RealVal('1/2')
        e.add(z3.And(d <= h, -d <= h, z3.Implies(z3.Or(d == h, d == -h), v % 2 == 0)))
        e.memo[k] = SInt(v)
    return e.memo[k]


FULL = (-1.2345678901234567, 3.3333333333333335, -137.13713713713714, 0.012345678901234568)


def nice_float(z, digits=False):
    """A double satisfying the path condition for z: one that needs all its digits (if digits), a short decimal, or any near a model value."""
    e = E.eng()
    return e.value(lambda: _nice_float(e, z, digits))


def _nice_float(e, z, digits):
    cons = e.cone(E.vars_of(z))
    if digits:
        s = z3.Solver()
        s.set('timeout', 3000)
        s.add(*cons)
        for v in FULL:
            if s.check(z == z3.RealVal(str(Fraction(v)))) == z3.sat:
                return v
    k = z3.Int('nice!k')
    for den, lim in ((8, 800), (1, 10 ** 6), (1024, 10 ** 9)):
        s = z3.Solver()
        s.set('timeout', 3000)
        s.add(*cons)
        s.add(z * den == z3.ToReal(k), k >= -lim, k <= lim)
        if s.check() == z3.sat:
            return float(s.model().eval(k, model_completion=True).as_long()) / den
    v = _model_value(e, z)
    return None if v is None else float(v)


def _determined(e, z):
    q = exact_value(e, z)
    if q is None or e.sat(z3.simplify(z != z3.RealVal(str(q)))) != 'unsat':
        return None
    return float(q)


def exact_value(e, z):
    s = z3.Solver()
    s.set('timeout', 3000)
    s.add(*e.cone(E.vars_of(z)))
    if s.check() != z3.sat:
        return None
    v = s.model().eval(z, model_completion=True)
    return v.as_fraction() if z3.is_rational_value(v) else None


def known(c):
    """The truth of c if this path settles it (no fork), else None."""
    if isinstance(c, (bool, _np.bool_)):
        return bool(c)
    z = z3.simplify(c.z)
    if z3.is_true(z):
        return True
    if z3.is_false(z):
        return False
    e = E.eng()

    def f():
        if e.sat(z) == 'unsat':
            return False
        return True if e.sat(z3.simplify(z3.Not(z))) == 'unsat' else None
    return e.value(f)


def ite(c, a, b):
    """a if c else b for numbers, without a fork."""
    k = known(c)
    if k is not None:
        return a if k else b
    if a is b:
        return a
    if all(isinstance(x, (SInt, SBool)) or _is_int(x) for x in (a, b)):
        ia, ib = (x.as_int() if isinstance(x, SBool) else x for x in (a, b))
        lo = [x.lo if isinstance(x, SInt) else int(x) for x in (ia, ib)]
        hi = [x.hi if isinstance(x, SInt) else int(x) for x in (ia, ib)]
        return mkint(z3.If(c.z, int_of(ia), int_of(ib)), None if None in lo else min(lo), None if None in hi else max(hi))
    fs = []
    for x in (a, b):
        if isinstance(x, (SInt, SBool)):
            x = SFloat.of_int(x)
        elif not isinstance(x, SFloat):
            if not _finite(x):
                return a if bool(c) else b
            f = float(x)
            x = SFloat(real_of(f), nd=None, small=f == 0 or 1e-98 <= abs(f) <= 9e98, single=float(_np.float32(f)) == f,
                       nonneg=f >= 0)
        fs.append(x)
    p, q = fs
    nd = None if p.nd is None or q.nd is None else max(p.nd, q.nd)
    return SFloat(z3.If(c.z, p.z, q.z), nd=nd, small=p.small and q.small, single=p.single and q.single,
                  nonneg=p.nonneg and q.nonneg)


def conc_float(x):
    """Narrow a float to one concrete double on this path (the path is marked as narrowed)."""
    e = E.eng()
    if x.intof is not None:
        return float(conc_int(x.intof))
    z = z3.simplify(x.z)
    if z3.is_rational_value(z):
        return float(z.as_fraction())
    key = ('cf', e.keep(z))
    if key in e.memo:
        return e.memo[key]
    v = nice_float(z, digits=x.nd is None and not x.single)
    if v is None:
        e.dead = E.Infeasible('no value')
        raise e.dead
    c = z == z3.RealVal(str(Fraction(v)))
    for r, f, p in e.rnds:
        if r.eq(z):
            c = z3.And(c, f == rounded(v, p))
    if e.sat(z3.simplify(c)) == 'unsat':
        # the path may determine the value already; its double then stands for it
        w = e.value(lambda: _determined(e, z))
        if w is None:
            e.dead = E.Budget('no double found for a float')
            raise e.dead
        e.flag('float determined as %r' % w)
        e.memo[key] = w
        return w
    e.add(c)
    e.flag('float narrowed to %r' % v)
    e.memo[key] = v
    return v


class SComplex(Sym):
    __slots__ = ('real', 'imag')

    def __init__(self, re, im):
        self.real = re
        self.imag = im

    def __add__(self, o):
        r = cplx_op(self, o, 'add')
        return NotImplemented if r is None else r
    __radd__ = __add__

    def __sub__(self, o):
        r = cplx_op(self, o, 'sub')
        return NotImplemented if r is None else r

    def __rsub__(self, o):
        r = cplx_op(o, self, 'sub')
        return NotImplemented if r is None else r

    def __mul__(self, o):
        r = cplx_op(self, o, 'mul')
        return NotImplemented if r is None else r
    __rmul__ = __mul__

    def __truediv__(self, o):
        if _is_int(o) or _is_float(o) or isinstance(o, (SFloat, SInt)):
            return SComplex(self.real / o, self.imag / o)
        return complex(self) / complex(o)

    def __neg__(self):
        return SComplex(-self.real, -self.imag)

    def __eq__(self, o):
        p = parts(o)
        if p is None:
            return False
        a = self.real == p[0]
        b = self.imag == p[1]
        return mkbool(z3.And(zb(a), zb(b)))

    def __ne__(self, o):
        r = self.__eq__(o)
        return ~r if isinstance(r, SBool) else not r

    def __bool__(self):
        return bool(self != 0)

    def __hash__(self):
        return hash(complex(self))

    def __complex__(self):
        return complex(float(self.real), float(self.imag))

    def __abs__(self):
        return abs(complex(self))

    def conjugate(self):
        return SComplex(self.real, -self.imag)

    def item(self):
        return self

    def __format__(self, spec):
        return format(complex(self), spec)

    def __str__(self):
        return str(complex(self))

    def __repr__(self):
        return '<SComplex %r %r>' % (self.real, self.imag)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def parts(o):
    if isinstance(o, SComplex):
        return o.real, o.imag
    if isinstance(o, (complex, _np.complexfloating)):
        return float(o.real), float(o.imag)
    if isinstance(o, (SFloat, SInt, SBool)) or _is_int(o) or _is_float(o):
        return o, 0.0
    return None


def _mul0(a, b):
    if is_zero(a) or is_zero(b):
        return 0.0
    if not is_sym(a) and float(a) == 1.0:
        return b
    if not is_sym(b) and float(b) == 1.0:
        return a
    return a * b


def _add0(a, b):
    if is_zero(a):
        return b
    if is_zero(b):
        return a
    return a + b


def cplx_op(a, b, op):
    """a op b when one of them is complex; None when neither is."""
    ca = isinstance(a, (SComplex, complex, _np.complexfloating))
    cb = isinstance(b, (SComplex, complex, _np.complexfloating))
    if not (ca or cb):
        return None
    pa, pb = parts(a), parts(b)
    if pa is None or pb is None:
        return None
    if op == 'add':
        return SComplex(_add0(pa[0], pb[0]), _add0(pa[1], pb[1]))
    if op == 'sub':
        return SComplex(pa[0] if is_zero(pb[0]) else pa[0] - pb[0], pa[1] if is_zero(pb[1]) else pa[1] - pb[1])
    return SComplex(_add0(_mul0(pa[0], pb[0]), -1.0 * _mul0(pa[1], pb[1]) if not is_zero(_mul0(pa[1], pb[1])) else 0.0),
                    _add0(_mul0(pa[0], pb[1]), _mul0(pa[1], pb[0])))


# ---- decimal rounding ---------------------------------------------------------------------------

def rounded(v, p):
    y = Fraction(float(_np.float32(v))) if p == 's' else Fraction('%.*e' % (p, v))
    return z3.RealVal(str(y))


def rnd(x, p):
    """The value of the text '%.<p>e' % x, as a SFloat: x rounded to p+1 significant digits.
    Axioms: sign and zero are kept and |f - x| <= 0.5e-p |x|; x itself if it has at most p+1 digits."""
    if p >= 16 or (x.nd is not None and x.nd <= p + 1):
        return x                    # 17 significant digits identify every double
    e = E.eng()
    key = ('rnd', e.keep(x.z), p)
    if key in e.memo:
        return e.memo[key]
    v = e.memo.get(('cf', e.keep(z3.simplify(x.z))))
    if v is not None:
        return SFloat(rounded(v, p), nd=p + 1, small=x.small, nonneg=x.nonneg)
    f = z3.Real(e.fresh('rnd%d' % p))
    r = x.z
    c = z3.RealVal('1/%d' % (2 * 10 ** p))
    e.add(z3.If(r >= 0, z3.And(f - r <= c * r, r - f <= c * r), z3.And(f - r <= -c * r, r - f <= -c * r)))
    out = SFloat(f, nd=p + 1, small=x.small, nonneg=x.nonneg)
    e.memo[key] = out
    e.rnds.append((r, f, p))
    return out


def rnd_single(x):
    """x rounded to IEEE single precision."""
    if x.single:
        return x
    e = E.eng()
    key = ('rnds', e.keep(x.z))
    if key in e.memo:
        return e.memo[key]
    f = z3.Real(e.fresh('rnds'))
    r = x.z
    c = z3.RealVal('1/%d' % (2 ** 24))
    e.add(z3.If(r >= 0, z3.And(f - r <= c * r, r - f <= c * r), z3.And(f - r <= -c * r, r - f <= -c * r)))
    out = SFloat(f, single=True, small=x.small, nonneg=x.nonneg)
    e.memo[key] = out
    e.rnds.append((r, f, 's'))
    return out
