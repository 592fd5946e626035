"""Symbolic values and the path explorer.

Numbers are ``SymFloat`` (double), ``SymInt`` (integer) and ``SymBool``.  Two encodings of doubles:

* rank mode  -- a z3 Int holding the index of the double in the total order of all doubles.  Order,
  equality, negation and nextafter are exact at the bit level; any other arithmetic yields a fresh
  value constrained only by sign / betweenness facts (over-approximation, weeded out by replay).
* real mode  -- a z3 Real plus a first-order infinitesimal coefficient ``k`` (multiples of one ulp);
  comparison is lexicographic, nextafter adds +-1 to ``k``.  Exact for ideal arithmetic; rounding is
  outside the claim.

inf and nan stay ordinary Python floats; a SymFloat is always finite.
"""
import math
import numbers
import os
import struct
import sys
import time
from fractions import Fraction

sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3  # noqa: E402
sys.path.pop()

import numpy as np  # noqa: E402
from numpy import ndarray  # noqa: E402

INF = float('inf')


class PathEnd(BaseException):
    """assumption failed / path infeasible"""


class Unsupported(BaseException):
    """the encoding does not cover what the code does on this path"""


class Inconclusive(BaseException):
    """the solver gave up on this path"""


class BudgetEnd(BaseException):
    pass


# ---------------------------------------------------------------------------------------- ranks
def rank(f):
    b = struct.unpack('<q', struct.pack('<d', f))[0]
    return b if b >= 0 else -(b & 0x7fffffffffffffff)


def unrank(r):
    r = int(r)
    if r >= 0:
        return struct.unpack('<d', struct.pack('<q', r))[0]
    return -struct.unpack('<d', struct.pack('<q', -r))[0]


class _State:
    ex = None          # active Explorer path
    mode = 'real'


S = _State()


def cur():
    if S.ex is None:
        raise RuntimeError('no symbolic execution active')
    return S.ex


# ---------------------------------------------------------------------------------------- bools
class SymBool:
    __slots__ = ('e',)
    __array_ufunc__ = None

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return cur().branch(self.e)

    def __and__(self, o):
        if isinstance(o, SymBool):
            return mkbool(z3.And(self.e, o.e))
        return self if o else False

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, SymBool):
            return mkbool(z3.Or(self.e, o.e))
        return True if o else self

    __ror__ = __or__

    def __invert__(self):
        return mkbool(z3.Not(self.e))

    def __eq__(self, o):
        if isinstance(o, SymBool):
            return mkbool(self.e == o.e)
        if isinstance(o, bool):
            return self if o else mkbool(z3.Not(self.e))
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else (mkbool(z3.Not(r.e)) if isinstance(r, SymBool) else not r)

    def __hash__(self):
        return 0

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __float__(self):
        return float(bool(self))

    def __add__(self, o):
        return int(bool(self)) + o

    __radd__ = __add__

    def __mul__(self, o):
        return int(bool(self)) * o

    __rmul__ = __mul__

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return 'SymBool(%s)' % self.e


TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)
_TP, _FP = TRUE.ast.value, FALSE.ast.value
_simp = {}          # pointer -> (expr, simplified); the stored references keep the pointers valid
_memo = {}          # (operation, operand keys) -> (operands, result)
LIMIT = 150000


def simp(e):
    p = e.ast.value
    r = _simp.get(p)
    if r is None:
        if len(_simp) > LIMIT:
            _simp.clear()
        s = z3.simplify(e)
        r = _simp[p] = (e, s)
        _simp[s.ast.value] = (s, s)
    return r[1]


def ptr(x):
    return ('e', x.ast.value) if isinstance(x, z3.ExprRef) else x


def memo(key, operands, f):
    r = _memo.get(key)
    if r is None:
        if len(_memo) > LIMIT:
            _memo.clear()
        r = _memo[key] = (operands, f())
    return r[1]


def mkbool(e):
    p = e.ast.value
    if p == _TP:
        return True
    if p == _FP:
        return False
    return SymBool(e)


def bexpr(b):
    if isinstance(b, SymBool):
        return b.e
    if isinstance(b, z3.ExprRef):
        return b
    return z3.BoolVal(bool(b))


# ---------------------------------------------------------------------------------------- helpers
def isconc(x):
    return isinstance(x, (int, float, Fraction))


def zr(x):
    """z3 Real from python number / z3 expr"""
    if isinstance(x, z3.ExprRef):
        return x
    f = Fraction(x)
    return z3.RealVal(f)


def _num(e):
    """python Fraction if the z3 expr is a numeral"""
    if z3.is_rational_value(e):
        return Fraction(e.numerator_as_long(), e.denominator_as_long())
    if z3.is_int_value(e):
        return Fraction(e.as_long())
    return None


def _fold(e):
    """cheap folding: simplify; return Fraction for numerals"""
    e = z3.simplify(e)
    n = _num(e)
    return e if n is None else n


def tofloat(fr):
    """a concrete Fraction back to a python float if that is exact, else keep symbolic"""
    f = float(fr)
    return f


# linear forms would be overkill; r is z3 Real expr or Fraction
class SymFloat:
    __slots__ = ('r', 'k', 'tag')
    __array_ufunc__ = None

    def __init__(self, r, k=0, tag=None):
        self.r, self.k, self.tag = r, k, tag

    # -- conversions ---------------------------------------------------------------------
    def __float__(self):
        raise Unsupported('float() of a symbolic double at a C boundary')

    def __hash__(self):
        return 0

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        return (_identity, (self,))

    def __repr__(self):
        return '<%s%s>' % (str(self.r)[:60].replace('\n', ' '), '' if isinstance(self.k, (int, Fraction)) and self.k == 0 else '%+se' % self.k)

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __bool__(self):
        return bool(self != 0)

    def __trunc__(self):
        return sym_trunc(self)

    def __int__(self):
        raise Unsupported('int() of a symbolic double at a C boundary')

    def __round__(self, n=None):
        raise Unsupported('round')

    def __floor__(self):
        return sym_floor(self)

    def __ceil__(self):
        return -sym_floor(-self)

    def is_integer(self):
        raise Unsupported('is_integer')

    def item(self):
        return self

    def astype(self, *a, **k):
        return self

    def copy(self):
        return self

    @property
    def dtype(self):
        import numpy
        return numpy.dtype('float64')

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.0

    def conjugate(self):
        return self

    # numpy's object loops call these methods
    def sqrt(self):
        return sym_sqrt(self)

    def log(self):
        return sym_log(self)

    def exp(self):
        raise Unsupported('exp')

    # -- comparisons ---------------------------------------------------------------------
    def _cmp(self, o, op):
        if type(o) is ndarray:
            return elementwise(lambda x: self._cmp(x, op), o, bool)
        o = coerce(o)
        if o is None:
            return NotImplemented
        if isinstance(o, float):
            if o != o:
                return op == '!='
            if o in (INF, -INF):
                less = o > 0
                return {'<': less, '<=': less, '>': not less, '>=': not less, '==': False, '!=': True}[op]
        a, b = self, lift(o)
        if S.mode == 'rank':
            return mkbool(_fastcmp(a.r, b.r, op))
        ka, kb = a.k, b.k
        if isconc(ka) and isconc(kb):
            d = ka - kb
            if op == '==':
                return False if d != 0 else mkbool(_fastcmp(a.r, b.r, op))
            if op == '!=':
                return True if d != 0 else mkbool(_fastcmp(a.r, b.r, op))
            if op in ('<', '<='):
                lexeq = d < 0 or (d == 0 and op == '<=')
                return mkbool(_fastcmp(a.r, b.r, '<=' if lexeq else '<'))
            lexeq = d > 0 or (d == 0 and op == '>=')
            return mkbool(_fastcmp(a.r, b.r, '>=' if lexeq else '>'))
        ra, rb, ka, kb = zr(a.r), zr(b.r), zr(ka), zr(kb)
        if op == '==':
            return mkbool(z3.simplify(z3.And(ra == rb, ka == kb)))
        if op == '!=':
            return mkbool(z3.simplify(z3.Or(ra != rb, ka != kb)))
        if op in ('>', '>='):
            ra, rb, ka, kb = rb, ra, kb, ka
            op = '<' if op == '>' else '<='
        return mkbool(z3.simplify(z3.Or(ra < rb, z3.And(ra == rb, ka < kb if op == '<' else ka <= kb))))

    def __lt__(self, o):
        return self._cmp(o, '<')

    def __le__(self, o):
        return self._cmp(o, '<=')

    def __gt__(self, o):
        return self._cmp(o, '>')

    def __ge__(self, o):
        return self._cmp(o, '>=')

    def __eq__(self, o):
        return self._cmp(o, '==')

    def __ne__(self, o):
        return self._cmp(o, '!=')

    # -- arithmetic ----------------------------------------------------------------------
    def __add__(self, o):
        return arith('+', self, o)

    def __radd__(self, o):
        return arith('+', o, self)

    def __sub__(self, o):
        return arith('-', self, o)

    def __rsub__(self, o):
        return arith('-', o, self)

    def __mul__(self, o):
        return arith('*', self, o)

    def __rmul__(self, o):
        return arith('*', o, self)

    def __truediv__(self, o):
        return arith('/', self, o)

    def __rtruediv__(self, o):
        return arith('/', o, self)

    def __floordiv__(self, o):
        q = arith('/', self, o)
        return sym_floor(q) if isinstance(q, SymFloat) else math.floor(q)

    def __mod__(self, o):
        raise Unsupported('float %')

    __rmod__ = __mod__
    __rfloordiv__ = __mod__

    def __neg__(self):
        if S.mode == 'rank':
            return SymFloat(-self.r)
        return SymFloat(-self.r, -self.k)

    def __pos__(self):
        return self

    def __abs__(self):
        if self < 0:
            return -self
        return self

    def __pow__(self, n):
        if isinstance(n, SymInt):
            n = n.__index__()
        if isinstance(n, float) and n == int(n):
            n = int(n)
        if isinstance(n, int) and not isinstance(n, bool):
            if n == 0:
                return 1.0
            if n > 0:
                r = self
                for _ in range(n - 1):
                    r = r * self
                return r
            return 1.0 / (self ** (-n))
        if n == .5:
            return sym_sqrt(self)
        raise Unsupported('pow')

    def __rpow__(self, b):
        raise Unsupported('pow')


def _identity(x):
    return x


numbers.Real.register(SymFloat)


def _fastcmp(a, b, op):
    if isconc(a) and isconc(b):
        return z3.BoolVal({'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b, '==': a == b, '!=': a != b}[op])
    return memo((op, S.mode, ptr(a), ptr(b)), (a, b), lambda: _slowcmp(a, b, op))


def _slowcmp(a, b, op):
    if S.mode == 'rank':
        a = a if isinstance(a, z3.ExprRef) else z3.IntVal(int(a))
        b = b if isinstance(b, z3.ExprRef) else z3.IntVal(int(b))
    else:
        a, b = zr(a), zr(b)
    e = {'<': lambda: a < b, '<=': lambda: a <= b, '>': lambda: a > b, '>=': lambda: a >= b,
         '==': lambda: a == b, '!=': lambda: a != b}[op]()
    if a.eq(b):
        return z3.BoolVal(op in ('<=', '>=', '=='))
    return z3.simplify(e)


def coerce(o):
    """-> float | SymFloat | None(not a number)"""
    if isinstance(o, SymFloat):
        return o
    if isinstance(o, SymInt):
        return o.tofloat()
    if isinstance(o, SymBool):
        return float(bool(o))
    if isinstance(o, float):
        return o if type(o) is float else float(o)
    if isinstance(o, int):
        return float(o)
    if isinstance(o, Fraction):
        return SymFloat(o)
    t = type(o)
    if t.__module__ == 'numpy' and hasattr(o, 'dtype') and getattr(o, 'ndim', 1) == 0:
        if o.dtype.kind in 'fiub':
            return float(o)
    return None


def lift(o):
    if isinstance(o, SymFloat):
        return o
    if S.mode == 'rank':
        return SymFloat(rank(o))
    return SymFloat(Fraction(o))


def mk(r, k=0, tag=None):
    """SymFloat, or a python float when everything is concrete and exactly representable"""
    if isinstance(r, Fraction) and isconc(k) and k == 0:
        f = float(r)
        if Fraction(f) == r or True:
            # constants: ideal arithmetic folded to the nearest double (rounding is outside the claim)
            return f if Fraction(f) == r else SymFloat(r, 0)
    return SymFloat(r, k, tag)


def zadd(a, b, sub=False):
    if isconc(a) and isconc(b):
        return Fraction(a) - Fraction(b) if sub else Fraction(a) + Fraction(b)
    if isconc(b) and b == 0:
        return a
    if isconc(a) and a == 0:
        return _neg(b) if sub else b
    return memo(('-' if sub else '+', ptr(a), ptr(b)), (a, b), lambda: _fold(zr(a) - zr(b) if sub else zr(a) + zr(b)))


def _neg(a):
    return -a if isconc(a) else _fold(-a)


def zmul(a, b):
    if isconc(a) and isconc(b):
        return Fraction(a) * Fraction(b)
    for x, y in ((a, b), (b, a)):
        if isconc(x):
            if x == 0:
                return Fraction(0)
            if x == 1:
                return y
    return memo(('*', ptr(a), ptr(b)), (a, b), lambda: _fold(zr(a) * zr(b)))


def zdiv(a, b):
    if isconc(a) and isconc(b):
        return Fraction(a) / Fraction(b)
    if isconc(a) and a == 0:
        return Fraction(0)
    if isconc(b):
        return zmul(a, 1 / Fraction(b))
    if not isconc(a) and a.ast.value == b.ast.value:
        return Fraction(1)
    return memo(('/', ptr(a), ptr(b)), (a, b), lambda: _fold(zr(a) / b))


def arith(op, a, b):
    if type(a) is ndarray:
        return elementwise(lambda x: arith(op, x, b), a)
    if type(b) is ndarray:
        return elementwise(lambda x: arith(op, a, x), b)
    a, b = coerce(a), coerce(b)
    if a is None or b is None:
        return NotImplemented
    # infinities / nan
    fa, fb = isinstance(a, float), isinstance(b, float)
    if fa and (a != a) or fb and (b != b):
        return float('nan')
    if fa and a in (INF, -INF) or fb and b in (INF, -INF):
        if op in '+-':
            if fa and a in (INF, -INF):
                return a                       # inf +- finite
            return b if op == '+' else -b
        if op == '*':
            i, x = (a, b) if fa and a in (INF, -INF) else (b, a)
            if x == 0:
                return float('nan')
            return i if x > 0 else -i
        if fb and b in (INF, -INF):
            return 0.0
        # inf / x
        if b == 0:
            raise ZeroDivisionError('float division by zero')
        return a if b > 0 else -a
    if S.mode == 'rank':
        return _rank_arith(op, a, b)
    a, b = lift(a), lift(b)
    ka, kb = a.k, b.k
    zk = isconc(ka) and ka == 0 and isconc(kb) and kb == 0
    if op == '+':
        return mk(zadd(a.r, b.r), 0 if zk else zadd(ka, kb))
    if op == '-':
        return mk(zadd(a.r, b.r, True), 0 if zk else zadd(ka, kb, True))
    if op == '*':
        return mk(zmul(a.r, b.r), 0 if zk else zadd(zmul(a.r, kb), zmul(ka, b.r)))
    # division
    if isconc(b.r):
        z = b.r == 0
    else:
        z = cur().branch(b.r == 0)
    if z:
        if isconc(kb) and kb == 0:
            raise ZeroDivisionError('float division by zero')
        raise Unsupported('division by an infinitesimal')
    if zk:
        return mk(zdiv(a.r, b.r))
    return mk(zdiv(a.r, b.r), zdiv(zadd(zmul(ka, b.r), zmul(a.r, kb), True), zmul(b.r, b.r)))


def cdiv(a, b):
    """C double division"""
    try:
        return a / b
    except ZeroDivisionError:
        if a != a or a == 0:
            return float('nan')
        return INF if a > 0 else -INF


# ---- rank arithmetic -----------------------------------------------------------------------
def _rank_arith(op, a, b):
    ex = cur()
    fa, fb = isinstance(a, float), isinstance(b, float)
    if op in '+-':
        if fb and b == 0:
            return a
        if fa and a == 0:
            return b if op == '+' else -b
        if fb:                                  # x +- const
            up = (b > 0) == (op == '+')
            v = ex.fresh('s')
            ex.fact(v > a.r if up else v < a.r)
            return SymFloat(v, 0, ('off', a, b if op == '+' else -b))
        if fa:
            v = ex.fresh('s')
            if op == '+':
                ex.fact(v > b.r if a > 0 else v < b.r)
            else:
                ex.fact(v > -b.r if a > 0 else v < -b.r)
            return SymFloat(v)
        v = ex.fresh('s')
        if op == '-':
            ex.fact(z3.And((v > 0) == (a.r > b.r), (v < 0) == (a.r < b.r)))
            return SymFloat(v)
        ex.fact(z3.And(z3.Implies(z3.And(a.r >= 0, b.r >= 0), z3.And(v >= a.r, v >= b.r)),
                       z3.Implies(z3.And(a.r <= 0, b.r <= 0), z3.And(v <= a.r, v <= b.r)),
                       (v == 0) == (a.r == -b.r)))
        return SymFloat(v, 0, ('sum', a, b))
    if op == '*' and (fa or fb):
        x, c = (b, a) if fa else (a, b)
        if c == 1:
            return x
        if c == -1:
            return -x
        if c == 0:
            return 0.0
        if c == .5 and x.tag and x.tag[0] == 'sum':
            return _between(x.tag[1], x.tag[2])
    if op == '/' and fb:
        if b == 0:
            raise ZeroDivisionError('float division by zero')
        if b == 1:
            return a
        if b == 2 and a.tag and a.tag[0] == 'sum':
            return _between(a.tag[1], a.tag[2])
    a, b = lift(a), lift(b)
    if op == '/':
        if isconc(b.r):
            z = b.r == 0
        else:
            z = ex.branch(b.r == 0)
        if z:
            raise ZeroDivisionError('float division by zero')
    v = ex.fresh('p')
    za, zb = zi(a.r), zi(b.r)
    pos = z3.Or(z3.And(za > 0, zb > 0), z3.And(za < 0, zb < 0))
    neg = z3.Or(z3.And(za > 0, zb < 0), z3.And(za < 0, zb > 0))
    ex.fact(z3.And(z3.Implies(pos, v >= 0), z3.Implies(neg, v <= 0), z3.Implies(z3.Or(za == 0, zb == 0) if op == '*' else za == 0, v == 0)))
    return SymFloat(v)


def _between(a, b):
    ex = cur()
    v = ex.fresh('m')
    ex.fact(z3.Or(z3.And(a.r <= v, v <= b.r), z3.And(b.r <= v, v <= a.r)))
    return SymFloat(v)


def zi(x):
    return x if isinstance(x, z3.ExprRef) else z3.IntVal(int(x))


def nextafter(x, y):
    """numpy.nextafter"""
    if isinstance(x, SymInt):
        x = x.tofloat()
    if isinstance(y, SymInt):
        y = y.tofloat()
    if not isinstance(x, SymFloat) and not isinstance(y, SymFloat):
        return float(_np().nextafter(x, y)) if S.ex is None or S.mode == 'rank' else _conc_next(x, y)
    if isinstance(x, float) and (x != x) or isinstance(y, float) and y != y:
        return float('nan')
    if isinstance(y, SymFloat) and y.tag is not None and y.tag[0] == 'off' and y.tag[1] is x:
        up = y.tag[2] > 0
    else:
        if x == y:
            return y
        up = bool(y > x)
    if isinstance(x, float) and x in (INF, -INF):
        raise Unsupported('nextafter of inf towards a symbol')
    x = lift(x)
    if S.mode == 'rank':
        return SymFloat(x.r + (1 if up else -1))
    return SymFloat(x.r, zadd(x.k, 1 if up else -1) if not isconc(x.k) else x.k + (1 if up else -1))


def _conc_next(x, y):
    """real mode: neighbours of concrete doubles are infinitesimal neighbours too"""
    x, y = float(x), float(y)
    if x == y or x != x or y != y or abs(x) == INF:
        return float(_np().nextafter(x, y))
    return SymFloat(Fraction(x), 1 if y > x else -1)


def _np():
    import numpy
    return numpy


def std(x):
    """standard part"""
    if isinstance(x, SymFloat) and not (isconc(x.k) and x.k == 0):
        return mk(x.r)
    return x


def sym_floor(x):
    if S.mode == 'rank':
        raise Unsupported('floor')
    i = z3.simplify(z3.ToInt(zr(x.r)))
    if not (isconc(x.k) and x.k == 0):
        raise Unsupported('floor of a perturbed value')
    return SymInt(i)


def sym_trunc(x):
    if isinstance(x, SymFloat):
        if x >= 0:
            return sym_floor(x)
        return -sym_floor(-x)
    return int(x)


def sym_sqrt(x):
    if isinstance(x, SymFloat):
        if S.mode == 'rank':
            raise Unsupported('sqrt')
        if x < 0:
            return float('nan')
        ex = cur()
        v = ex.fresh('q')
        ex.fact(z3.And(v >= 0, v * v == zr(x.r)))
        return SymFloat(v)
    return math.sqrt(x) if x >= 0 else float('nan')


class LogVal:
    """natural logarithm of a positive value, exact: sums multiply the arguments, comparisons compare them"""
    __slots__ = ('v',)
    __array_ufunc__ = None
    __hash__ = object.__hash__

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return 'ln(%r)' % (self.v,)

    def __deepcopy__(self, memo):
        return self

    @staticmethod
    def arg(o):
        if isinstance(o, LogVal):
            return o.v
        o = coerce(o)
        if isinstance(o, float):
            if o == 0:
                return 1.
            if o in (INF, -INF):
                return o
            raise Unsupported('logarithms and numbers')
        return None

    def _op(self, o, f, sign=1):
        a = LogVal.arg(o)
        if a is None:
            return NotImplemented if not isinstance(o, SymFloat) else (_ for _ in ()).throw(Unsupported('logarithms and numbers'))
        return a if isinstance(a, float) and a in (INF, -INF) else LogVal(f(self.v, a))

    def __neg__(self):
        return LogVal(1. / self.v)

    def __add__(self, o):
        return self._op(o, lambda a, b: a * b)

    __radd__ = __add__

    def __sub__(self, o):
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def _cmp(self, o, f, name):
        if isinstance(o, float) and o in (INF, -INF):
            return getattr(0., name)(o)
        a = LogVal.arg(o)
        return NotImplemented if a is None else f(self.v, a)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, '__lt__')

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, '__le__')

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, '__gt__')

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, '__ge__')

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b, '__eq__')

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b, '__ne__')


def sym_log(x):
    """natural logarithm (of symbolic and of plain numbers)"""
    if isinstance(x, SymInt):
        x = x.tofloat()
    if S.mode == 'rank':
        raise Unsupported('log')
    if isinstance(x, SymFloat):
        if not (isconc(x.k) and x.k == 0):
            raise Unsupported('log of a perturbed value')
        if x < 0:
            return float('nan')
        if x == 0:
            return -INF
        return LogVal(x)
    x = float(x)
    if x != x or x < 0:
        return float('nan')
    return -INF if x == 0 else INF if x == INF else 0. if x == 1 else LogVal(x)


# ---------------------------------------------------------------------------------------- ints
class SymInt:
    __slots__ = ('e',)
    __array_ufunc__ = None

    def __init__(self, e):
        self.e = e

    def tofloat(self):
        if S.mode == 'rank':
            raise Unsupported('int to float in rank mode')
        return SymFloat(z3.ToReal(self.e))

    def __index__(self):
        return cur().concretize(self.e)

    __int__ = __index__

    def __float__(self):
        return float(self.__index__())

    def __hash__(self):
        return hash(self.__index__())

    def __deepcopy__(self, memo):
        return self

    def __bool__(self):
        return bool(self != 0)

    def __repr__(self):
        return '<int %s>' % self.e

    def item(self):
        return self

    def _o(self, o):
        if isinstance(o, SymInt):
            return o.e
        if isinstance(o, bool):
            return z3.IntVal(int(o))
        if isinstance(o, int):
            return z3.IntVal(o)
        t = type(o)
        if t.__module__ == 'numpy' and hasattr(o, 'dtype') and getattr(o, 'ndim', 1) == 0 and o.dtype.kind in 'iub':
            return z3.IntVal(int(o))
        return None

    def _cmp(self, o, f, name):
        e = self._o(o)
        if e is None:
            if coerce(o) is None:
                return NotImplemented
            return getattr(self.tofloat(), name)(o)
        return mkbool(simp(f(self.e, e)))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, '__lt__')

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, '__le__')

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, '__gt__')

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, '__ge__')

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b, '__eq__')

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b, '__ne__')

    def _ar(self, o, f, name):
        e = self._o(o)
        if e is None:
            if coerce(o) is None:
                return NotImplemented
            return getattr(self.tofloat(), name)(o)
        r = z3.simplify(f(self.e, e))
        if z3.is_int_value(r):
            return r.as_long()
        return SymInt(r)

    def __add__(self, o):
        return self._ar(o, lambda a, b: a + b, '__add__')

    def __radd__(self, o):
        return self._ar(o, lambda a, b: b + a, '__radd__')

    def __sub__(self, o):
        return self._ar(o, lambda a, b: a - b, '__sub__')

    def __rsub__(self, o):
        return self._ar(o, lambda a, b: b - a, '__rsub__')

    def __mul__(self, o):
        return self._ar(o, lambda a, b: a * b, '__mul__')

    def __rmul__(self, o):
        return self._ar(o, lambda a, b: b * a, '__rmul__')

    def __truediv__(self, o):
        return self.tofloat() / o

    def __rtruediv__(self, o):
        return o / self.tofloat()

    def __neg__(self):
        return SymInt(z3.simplify(-self.e))

    def __pos__(self):
        return self

    def __abs__(self):
        return -self if self < 0 else self

    def __pow__(self, n):
        r = 1
        for _ in range(n):
            r = r * self
        return r

    def __floordiv__(self, o):
        e = self._o(o)
        if e is None or not z3.is_int_value(e) or e.as_long() <= 0:
            raise Unsupported('int //')
        return SymInt(z3.simplify(self.e / e))

    def __mod__(self, o):
        e = self._o(o)
        if e is None or not z3.is_int_value(e) or e.as_long() <= 0:
            raise Unsupported('int %')
        return SymInt(z3.simplify(self.e % e))

    def __format__(self, spec):
        return repr(self)


numbers.Integral.register(SymInt)


def elementwise(f, arr, dtype=object):
    out = np.empty(arr.shape, dtype=dtype)
    for i in np.ndindex(*arr.shape):
        v = f(arr[i])
        out[i] = bool(v) if dtype is bool else v
    return out


def is_sym(x):
    return isinstance(x, (SymFloat, SymInt, SymBool))


# ---------------------------------------------------------------------------------------- hash model
class HashVal(int):
    """result of the builtin hash() inside the code under test: remembers what was hashed"""

    def __new__(cls, payload):
        v = int.__new__(cls, 0)
        v.payload = payload
        return v

    def _op(self, o, name):
        return HashVal(('op', name, self.payload, getattr(o, 'payload', o)))

    def __xor__(self, o):
        return self._op(o, '^')

    __rxor__ = __xor__

    def __add__(self, o):
        return self._op(o, '+')

    __radd__ = __add__

    def __mul__(self, o):
        return self._op(o, '*')

    __rmul__ = __mul__


def hashval(x):
    if isinstance(x, HashVal):
        return x
    if x is None or isinstance(x, (int, float, str, bytes, bool, SymFloat, SymInt, tuple, frozenset)):
        if isinstance(x, (tuple, frozenset)):
            payload = (type(x).__name__, tuple(hashval(y) for y in x))
            return HashVal(payload)
        return HashVal(('v', x))
    h = type(x).__hash__
    if h is None:
        raise TypeError('unhashable type: %r' % type(x).__name__)
    if h is object.__hash__:
        return HashVal(('id', id(x)))
    v = h(x)
    if isinstance(v, HashVal):
        return v
    if type(x).__module__.startswith(('jpt', 'builtins')) or isinstance(x, type):
        return HashVal(('h', type(x).__name__, int(v)))
    return HashVal(('h', type(x).__name__, int(v)))


def hash_equal(a, b):
    """symbolic equality of two recorded hashes"""
    pa, pb = getattr(a, 'payload', a), getattr(b, 'payload', b)
    return _peq(pa, pb)


def _peq(a, b):
    a, b = getattr(a, 'payload', a), getattr(b, 'payload', b)
    if isinstance(a, tuple) and isinstance(b, tuple) and a and b and isinstance(a[0], str):
        if a[0] != b[0]:
            return False
        if a[0] == 'v':
            if isinstance(a[1], str) != isinstance(b[1], str) or (a[1] is None) != (b[1] is None):
                return False
            return bool(a[1] == b[1])
        if a[0] == 'frozenset':
            x, y = list(a[1]), list(b[1])
            return len(x) == len(y) and all(any(_peq(i, j) for j in y) for i in x)
        if a[0] == 'tuple':
            return len(a[1]) == len(b[1]) and all(_peq(i, j) for i, j in zip(a[1], b[1]))
        if a[0] == 'op':
            if a[1] != b[1]:
                return False
            if _peq(a[2], b[2]) and _peq(a[3], b[3]):
                return True
            return _peq(a[2], b[3]) and _peq(a[3], b[2])
    return bool(a == b)


# ---------------------------------------------------------------------------------------- explorer
class Explorer:
    """DFS by re-execution over one harness.  ``run`` explores from a list of prefixes."""

    def __init__(self, harness, mode, deadline, query_ms=3000, max_paths=None, max_steps=4000, logic=None):
        self.harness, self.mode = harness, mode
        self.deadline = deadline
        self.query_ms = query_ms
        self.max_paths = max_paths
        self.max_steps = max_steps
        self.logic = logic
        self.stat = dict(paths=0, ended=0, unsupported=0, inconclusive=0, queries=0, solver_s=0.0, discharged=0,
                         branches=0, violations=0, skipped=0)
        self.labels = {}
        self.violations = []
        self.unsupported = {}
        self.witness = []          # complete paths: (inputs, observations)
        self.nviol = {}
        self.consts = {}

    # -- solver plumbing -------------------------------------------------------------------
    def new_solver(self):
        s = z3.Solver() if self.logic is None else z3.SolverFor(self.logic)
        s.set('timeout', self.query_ms)
        return s

    def check(self, extra):
        """-> 'sat'/'unsat'/'unknown'; model in self._m when sat"""
        self.stat['queries'] += 1
        t = time.time()
        self.solver.push()
        try:
            self.solver.add(extra)
            r = self.solver.check()
            if r == z3.sat:
                self._m = self.solver.model()
            elif r == z3.unknown and self.mode == 'real':
                s2 = z3.Tactic('qfnra-nlsat').solver() if not self.has_int else z3.Solver()
                s2.set('timeout', self.query_ms)
                s2.add(self.solver.assertions())
                r = s2.check()
                if r == z3.sat:
                    self._m = s2.model()
        except z3.Z3Exception:
            r = z3.unknown
        finally:
            self.solver.pop()
            self.stat['solver_s'] += time.time() - t
        return str(r)

    def true_in_model(self, e):
        if self.model is None:
            return None
        v = self.model.eval(e, model_completion=True)
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        v = z3.simplify(v)
        return True if z3.is_true(v) else (False if z3.is_false(v) else None)

    def fact(self, e):
        """a definitional constraint on fresh variables (always satisfiable in context)"""
        self.add(e)
        if self.model is not None and self.true_in_model(e) is not True:
            self.model = None

    def add(self, e):
        """append to the path condition, reusing the solver stack of the previous run"""
        i = self.depth
        self.depth += 1
        if i < len(self.stack):
            if self.stack[i].ast.value == e.ast.value:
                return
            n = len(self.stack) - i
            self.solver.pop(n)
            del self.stack[i:]
        self.solver.push()
        self.solver.add(e)
        self.stack.append(e)

    def sync(self):
        if self.depth < len(self.stack):
            self.solver.pop(len(self.stack) - self.depth)
            del self.stack[self.depth:]

    def fresh(self, p, sort=None):
        self.nfresh += 1
        n = '%s!%d' % (p, self.nfresh)
        if sort == 'int' or self.mode == 'rank':
            return z3.Int(n)
        return z3.Real(n)

    def branch(self, e):
        """decide a condition: returns bool, forks"""
        if isinstance(e, bool):
            return e
        e = simp(e)
        p = e.ast.value
        if p == _TP:
            return True
        if p == _FP:
            return False
        d = self.known.get(p)
        if d is not None:
            return d
        self.keep.append(e)
        d = self.known[p] = self._branch(e)
        n = simp(z3.Not(e))
        self.keep.append(n)
        self.known[n.ast.value] = not d
        return d

    def _branch(self, e):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Unsupported('path too long')
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            if isinstance(d, tuple):
                raise Unsupported('non-deterministic re-execution')
            self.pos += 1
            self.trace.append(d)
            if d < 2:           # 2, 3: implied by the path condition
                self.add(e if d else z3.Not(e))
            if self.pos == len(self.prefix):
                self.model = self.prefix_model
            return bool(d & 1)
        self.stat['branches'] += 1
        self.sync()
        if time.time() > self.deadline:
            raise BudgetEnd()
        tm = self.true_in_model(e)
        if tm is None:
            r = self.check(e)
            if r == 'sat':
                self.model, tm = self._m, True
            elif r == 'unsat':
                tm = None
            else:
                raise Inconclusive('branch')
            if tm is None:
                self.trace.append(2)
                self.pos += 1
                # the negation must be feasible, as the path is
                return False
        other = z3.Not(e) if tm else e
        r = self.check(other)
        self.pos += 1
        if r == 'unsat':
            self.trace.append(3 if tm else 2)
            return bool(tm)
        if r == 'sat':
            self.frontier.append((self.trace + [0 if tm else 1], self._m))
        elif r == 'unknown':
            self.stat['inconclusive'] += 1
        self.trace.append(1 if tm else 0)
        self.add(e if tm else z3.Not(e))
        return bool(tm)

    def choice(self, n):
        """pure nondeterministic choice among n alternatives"""
        if n == 1:
            return 0
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
        else:
            d = 0
            for j in range(n - 1, 0, -1):
                self.frontier.append((self.trace + [j], None))
        self.pos += 1
        self.trace.append(d)
        return d

    def concretize(self, e):
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        for _ in range(64):
            if self.pos < len(self.prefix):
                # decisions recorded as (value)
                v = self.prefix[self.pos]
                if isinstance(v, tuple) and v[0] != 'p':
                    self.pos += 1
                    self.trace.append(v)
                    val, yes = v
                    self.add(e == val if yes else e != val)
                    if self.pos == len(self.prefix):
                        self.model = self.prefix_model
                    if yes:
                        return val
                    continue
                raise Unsupported('non-deterministic re-execution')
            self.sync()
            if self.model is None:
                r = self.check(z3.BoolVal(True))
                if r != 'sat':
                    raise Inconclusive('concretize')
                self.model = self._m
            val = self.model.eval(e, model_completion=True).as_long()
            r = self.check(e != val)
            if r == 'sat':
                self.frontier.append((self.trace + [(val, 0)], self._m))
            elif r == 'unknown':
                self.stat['inconclusive'] += 1
            self.trace.append((val, 1))
            self.pos += 1
            self.add(e == val)
            return val
        raise Unsupported('integer with too many values')

    def assume(self, e):
        e = simp(bexpr(e))
        if e.ast.value == _TP:
            return
        if e.ast.value == _FP:
            raise PathEnd()
        self.add(e)
        self.nassume += 1
        if self.pos < len(self.prefix):
            return
        self.sync()
        tm = self.true_in_model(e)
        if tm is True:
            return
        r = self.check(z3.BoolVal(True))
        if r == 'unsat':
            raise PathEnd()
        if r == 'unknown':
            raise Inconclusive('assume')
        self.model = self._m

    def prove(self, e, label, info=None):
        """assert e on this path; record a counterexample otherwise, then continue under e"""
        st = self.labels.setdefault(label, [0, 0, 0])      # reached, discharged, violated
        st[0] += 1
        e = simp(bexpr(e))
        if e.ast.value == _TP:
            st[1] += 1
            self.stat['discharged'] += 1
            return
        if self.pos < len(self.prefix):
            # decided on an earlier execution of this prefix
            d = self.prefix[self.pos]
            if not (isinstance(d, tuple) and d[0] == 'p'):
                raise Unsupported('non-deterministic re-execution')
            st[0] -= 1
            self.pos += 1
            self.trace.append(d)
            if d[1]:
                self.add(e)
            if self.pos == len(self.prefix):
                self.model = self.prefix_model
            return
        self.sync()
        if time.time() > self.deadline:
            raise BudgetEnd()
        if z3.is_false(e):
            if self.model is None:
                r = self.check(z3.BoolVal(True))
                if r == 'unsat':
                    raise PathEnd()
                if r == 'unknown':
                    raise Inconclusive('prove')
                self.model = self._m
            self.report(label, self.model, z3.BoolVal(True), info)
            st[2] += 1
            raise PathEnd()
        tm = self.true_in_model(e)
        if tm is False:
            self.report(label, self.model, z3.Not(e), info)
            st[2] += 1
        else:
            r = self.check(z3.Not(e))
            if r == 'sat':
                self.report(label, self._m, z3.Not(e), info)
                st[2] += 1
            elif r == 'unsat':
                st[1] += 1
                self.stat['discharged'] += 1
                self.trace.append(('p', 0))
                self.pos += 1
                return
            else:
                self.stat['inconclusive'] += 1
        # continue on the good side (only if feasible)
        self.trace.append(('p', 1))
        self.pos += 1
        self.add(e)
        if self.true_in_model(e) is not True:
            self.sync()
            r = self.check(z3.BoolVal(True))
            if r != 'sat':
                raise PathEnd()
            self.model = self._m

    # -- counterexamples -------------------------------------------------------------------
    MAXV = 6

    def report(self, label, model, neg, info=None):
        self.stat['violations'] += 1
        n = self.nviol.get(label, 0)
        self.nviol[label] = n + 1
        if n >= self.MAXV:
            return
        models = []
        if self.inputs:
            nice = self.nice_model(neg, model)
            if nice is not None:
                models.append(self.values(nice))
        models.append(self.values(model))
        self.violations.append(dict(label=label, info=str(info) if info is not None else None,
                                    trace=list(self.trace), models=models))

    def nice_model(self, neg, model):
        """prefer short dyadic input values (exactly representable, no rounding in the replay)"""
        s = z3.Solver()
        s.set('timeout', 400)
        try:
            s.add(self.solver.assertions())
            s.add(neg)
            m = model
            t0 = time.time()
            for (name, kind, e) in self.inputs:
                if time.time() - t0 > 4:
                    break
                v = self.val(m, e, kind)
                cands = []
                if kind == 'real':
                    if Fraction(v).denominator in (1, 2, 4, 8) and abs(v) < 64:
                        s.add(e == zr(Fraction(v)))
                        continue
                    f = float(v)
                    for c in (round(f), round(f * 2) / 2, round(f * 4) / 4, round(f * 8) / 8, round(f * 64) / 64,
                              round(f * 1024) / 1024, f):
                        if c not in cands:
                            cands.append(c)
                elif kind == 'rank':
                    f = unrank(v)
                    cands = [rank(c) for c in (0., 1., 2., 3., -1., -2., .5, 4., 5.)]
                    if not any(self.near(v, self.val(m, e2, k2)) for (n2, k2, e2) in self.inputs if k2 == 'rank' and n2 != name):
                        pass
                else:
                    s.add(e == v)
                    continue
                ok = False
                for c in cands:
                    s.push()
                    s.add(e == (zr(Fraction(c)) if kind == 'real' else c))
                    if s.check() == z3.sat:
                        m = s.model()
                        ok = True
                        break
                    s.pop()
                if not ok:
                    if s.check() != z3.sat:
                        return None
                    m = s.model()
            if s.check() != z3.sat:
                return None
            return s.model()
        except z3.Z3Exception:
            return None

    @staticmethod
    def near(a, b):
        return abs(a - b) < 8

    def val(self, m, e, kind):
        v = m.eval(e, model_completion=True)
        if z3.is_algebraic_value(v):
            v = v.approx(20)
        if kind == 'real':
            return Fraction(v.numerator_as_long(), v.denominator_as_long())
        return v.as_long()

    def values(self, m):
        out = {}
        for (name, kind, e) in self.inputs:
            v = self.val(m, e, kind)
            out[name] = float(v) if kind == 'real' else (unrank(v) if kind == 'rank' else int(v))
        return dict(inputs=out, choices=list(self.choices))

    # -- one path --------------------------------------------------------------------------
    def run_path(self, prefix, model=None):
        self.prefix_model = model
        self.prefix, self.pos, self.trace = prefix, 0, []
        self.depth = 0
        self.nfresh = 0
        self.known, self.keep = {}, []
        self.nassume = 0
        self.steps = 0
        self.inputs, self.choices = [], []
        self.model = None
        self.observed = []
        S.ex, S.mode = self, self.mode
        try:
            self.harness(self)
            self.sync()
            self.stat['paths'] += 1
            return 'done'
        except PathEnd:
            self.stat['ended'] += 1
            return 'ended'
        except Unsupported as e:
            self.stat['unsupported'] += 1
            self.unsupported[str(e)] = self.unsupported.get(str(e), 0) + 1
            return 'unsupported'
        except Inconclusive as e:
            self.stat['inconclusive'] += 1
            return 'inconclusive'
        except z3.Z3Exception as e:
            self.stat['inconclusive'] += 1
            self.unsupported['z3: %s' % e] = self.unsupported.get('z3: %s' % e, 0) + 1
            return 'inconclusive'
        except RecursionError:
            self.stat['unsupported'] += 1
            self.unsupported['recursion'] = self.unsupported.get('recursion', 0) + 1
            return 'unsupported'
        finally:
            S.ex = None

    def run(self, prefixes, keep_witness=2):
        """explore; returns the unexplored frontier"""
        self.frontier = [(p, None) for p in reversed(prefixes)]
        self.solver = self.new_solver()
        self.stack = []
        self.has_int = False
        n = 0
        while self.frontier:
            if time.time() > self.deadline or (self.max_paths is not None and n >= self.max_paths):
                break
            prefix, pm = self.frontier.pop()
            n += 1
            k = len(self.frontier)
            try:
                r = self.run_path(prefix, pm)
            except BudgetEnd:
                # put it back, whatever sibling prefixes it had produced are re-derived
                del self.frontier[k:]
                self.frontier.append((prefix, pm))
                break
            if r == 'done' and len(self.witness) < keep_witness and self.inputs:
                m = self.model
                if m is None or not self._model_ok(m):
                    m = self._m if self.check(z3.BoolVal(True)) == 'sat' else None
                if m is not None:
                    nice = self.nice_model(z3.BoolVal(True), m) if len(self.witness) < 1 else None
                    m = nice if nice is not None else m
                    self.witness.append(dict(self.values(m), observed=[(l, self.obs_val(m, v)) for l, v in self.observed]))
        return [list(p[0]) for p in self.frontier]

    def _model_ok(self, m):
        return all(z3.is_true(m.eval(a, model_completion=True)) for a in self.stack)

    def obs_val(self, m, v):
        if isinstance(v, SymFloat):
            if self.mode == 'rank':
                if v.tag is not None or not isinstance(v.r, z3.ExprRef):
                    return None
                x = self.val(m, v.r, 'rank')
                return unrank(x)
            return float(self.val(m, zr(v.r), 'real'))
        if isinstance(v, SymInt):
            return m.eval(v.e, model_completion=True).as_long()
        if isinstance(v, SymBool):
            return z3.is_true(m.eval(v.e, model_completion=True))
        if isinstance(v, (bool, int, float, str)) or v is None:
            return v
        return repr(v)
