"""C runtime model used by translated Cython code."""
import functools
import heapq
import math
import operator
import collections

import numpy

import sym
from sym import SymFloat, SymInt, SymBool, Unsupported, INF

_Unsupported = Unsupported

__all__ = ['_pymod', '_format', 'cython']


def _cf(x):
    if type(x) is float or isinstance(x, SymFloat):
        return x
    if isinstance(x, SymInt):
        return x.tofloat()
    if isinstance(x, SymBool):
        return float(bool(x))
    if x is None or isinstance(x, str):
        raise TypeError('must be real number, not %s' % type(x).__name__)
    return float(x)


def _ci(x):
    if type(x) is int or isinstance(x, SymInt):
        return x
    if isinstance(x, SymBool):
        return 1 if x else 0
    if isinstance(x, (bool, numpy.bool_)):
        return int(x)
    if isinstance(x, (float, SymFloat)):
        raise TypeError('an integer is required (C conversion of float)')
    if isinstance(x, str) and len(x) == 1:
        return ord(x)
    if hasattr(x, '__index__'):
        return x.__index__()
    return int(x)


def _mv(x):
    if x is None:
        return None
    import numpy as np
    if isinstance(x, np.ndarray):
        return x
    if hasattr(x, '__array__'):
        return np.asarray(x)
    if hasattr(x, '__iter__') and hasattr(x, '__getitem__') and not isinstance(x, (str, list, tuple)):
        return np.asarray(x)
    raise TypeError('a bytes-like object is required, not %r' % type(x).__name__)


def _chk(x, cls):
    if x is None or isinstance(x, cls):
        return x
    raise TypeError('Cannot convert %s to %s' % (type(x).__name__, cls.__name__))


def _ctup(x, types):
    x = tuple(x)
    if len(x) != len(types):
        raise ValueError('ctuple')
    return tuple(_cf(v) if t == 'f' else _ci(v) if t == 'i' else v for v, t in zip(x, types))


def _trunc(x):
    if isinstance(x, SymFloat):
        return sym.sym_trunc(x)
    if isinstance(x, SymInt):
        return x
    if isinstance(x, SymBool):
        return 1 if x else 0
    if isinstance(x, float) and (x != x or x in (INF, -INF)):
        return -2 ** 63
    return int(x)


def _cdivf(a, b):
    a, b = _cf(a), _cf(b)
    return sym.cdiv(a, b)


def _cdivi(a, b):
    a, b = _ci(a), _ci(b)
    if isinstance(a, SymInt) or isinstance(b, SymInt):
        if isinstance(b, SymInt):
            b = b.__index__()
        if isinstance(a, SymInt):
            if b <= 0:
                raise Unsupported('C int division')
            return a // b if a >= 0 else -((-a) // b)
    if b == 0:
        raise Unsupported('C integer division by zero')
    q = abs(a) // abs(b)
    return q if (a >= 0) == (b > 0) else -q


def _cmod(a, b):
    return a - b * _cdivi(a, b)


def _pymod(a, b):
    if isinstance(a, str):
        return _fmt(a, b)
    return a % b


def _hassym(x):
    if isinstance(x, (SymFloat, SymInt, SymBool)):
        return True
    if isinstance(x, (list, tuple, set)):
        return any(_hassym(v) for v in x)
    return False


def _fmt(s, args):
    if sym.S.ex is None:
        return s % args
    try:
        return s % args
    except Exception:
        return s
    except Unsupported:
        return s


def _format(v, spec=''):
    try:
        return format(v, spec)
    except Exception:
        if sym.S.ex is None:
            raise
        return repr(v)


_DEFAULTS = {'f': 0.0, 'i': 0, 'mv': None, 'obj': None}


class _CAttr:
    """typed attribute of an extension type (a data descriptor)"""

    def __init__(self, name, type_):
        self.name, self.type = name, type_
        self.conv = {'f': _cf, 'i': _ci, 'mv': _mv}.get(type_)
        self.cpp = type_[4:] if type_.startswith('cpp:') else None

    def __get__(self, obj, owner):
        if obj is None:
            return self
        d = obj.__dict__
        try:
            return d[self.name]
        except KeyError:
            if self.cpp:
                v = d[self.name] = globals()['c_' + self.cpp]()
                return v
            return _DEFAULTS.get(self.type)

    def __set__(self, obj, v):
        if self.conv is not None:
            v = self.conv(v)
        obj.__dict__[self.name] = v

    def __delete__(self, obj):
        obj.__dict__[self.name] = None


def _cret(kind, propagate):
    conv = {'f': _cf, 'i': _ci}.get(kind)
    zero = {'f': 0.0, 'i': 0}.get(kind)
    swallow = kind != 'ext' and not propagate

    def deco(f):
        @functools.wraps(f)
        def w(*a, **k):
            if swallow:
                try:
                    r = f(*a, **k)
                    if conv is None:
                        return None
                    return zero if r is None else conv(r)
                except Exception:
                    return zero
            r = f(*a, **k)
            if conv is None:
                return r
            return zero if r is None else conv(r)
        return w
    return deco


class _Ptr:
    def __init__(self, arr, *idx):
        if len(idx) == 1 and isinstance(idx[0], tuple):
            idx = idx[0]
        if isinstance(arr, _Ptr):
            arr, idx = arr.arr, (arr.off + int(idx[0]),)
        while len(idx) > 1:
            arr, idx = arr[idx[0]], idx[1:]
        self.arr, self.off = arr, int(idx[0])

    def __getitem__(self, i):
        return self.arr[self._i(i)]

    def _i(self, i):
        if isinstance(i, SymInt):
            i = i.__index__()
        k = self.off + i
        if k < 0 or k >= len(self.arr):
            raise Unsupported('pointer out of bounds')
        return k

    def __setitem__(self, i, v):
        self.arr[self._i(i)] = v

    def __add__(self, k):
        return _Ptr(self.arr, self.off + k)

    def __sub__(self, k):
        return _Ptr(self.arr, self.off - k)


class _Ref:
    def __init__(self, get, set):
        self.get, self.set = get, set

    def __getitem__(self, i):
        return self.get()

    def __setitem__(self, i, v):
        self.set(v)


_BIN = ['add', 'sub', 'mul', 'truediv', 'and', 'or', 'xor', 'mod', 'floordiv']


def _fix_binops(cls):
    """Cython 0.29: the single nb slot function is called for both operand orders"""
    for n in _BIN:
        op = '__%s__' % n
        rop = '__r%s__' % n
        f = cls.__dict__.get(op)
        if rop in cls.__dict__:         # not a special method of extension types
            delattr(cls, rop)
        if f is not None:
            def r(self, other, f=f):
                return f(other, self)
            setattr(cls, rop, r)
    if '__eq__' in cls.__dict__ and cls.__dict__.get('__hash__') is None:
        try:
            for b in cls.__mro__[1:]:
                if b.__dict__.get('__hash__') is not None:
                    break
        except AttributeError:
            pass


class _Cython:
    """directives are no-ops"""

    def __getattr__(self, name):
        def deco(*a, **k):
            if len(a) == 1 and callable(a[0]) and not k:
                return a[0]
            return lambda x: x
        return deco


cython = _Cython()


# -- libc -------------------------------------------------------------------------------------
def c_isnan(x):
    if isinstance(x, SymFloat):
        return False
    return _cf(x) != _cf(x)


def c_isinf(x):
    if isinstance(x, SymFloat):
        return 0
    return int(_cf(x) in (INF, -INF))


def c_isfinite(x):
    if isinstance(x, SymFloat):
        return 1
    return int(math.isfinite(_cf(x)))


def c_fabs(x):
    return abs(_cf(x))


def c_sqrt(x):
    return sym.sym_sqrt(_cf(x))


def c_log(x):
    if isinstance(x, SymFloat):
        raise Unsupported('log')
    x = _cf(x)
    if x > 0:
        return math.log(x)
    return -INF if x == 0 else float('nan')


def c_log2(x):
    if isinstance(x, SymFloat):
        raise Unsupported('log')
    return math.log2(x)


def c_exp(x):
    if isinstance(x, SymFloat):
        raise Unsupported('exp')
    return math.exp(x)


def c_pow(x, y):
    return _cf(x) ** y


def c_floor(x):
    return math.floor(x)


def c_ceil(x):
    return math.ceil(x)


def c_printf(*a):
    pass


def c_fmin(x, y):
    x, y = _cf(x), _cf(y)
    if x != x:
        return y
    return y if y != y or x <= y else y if y < x else x


def c_fmax(x, y):
    x, y = _cf(x), _cf(y)
    if x != x:
        return y
    return x if y != y or x >= y else y


def c_abs(x):
    return abs(_ci(x))


c_labs = c_llabs = c_abs


def c_signbit(x):
    x = _cf(x)
    if isinstance(x, SymFloat):
        return 1 if x < 0 else 0
    return 1 if math.copysign(1., x) < 0 else 0


def c_copysign(x, y):
    return -abs(_cf(x)) if c_signbit(y) else abs(_cf(x))


def _libm(name):
    f = getattr(math, name)

    def g(*a):
        a = [_cf(x) for x in a]
        if any(isinstance(x, SymFloat) for x in a):
            raise Unsupported('libm %s' % name)
        try:
            return float(f(*a))
        except (ValueError, OverflowError):
            raise Unsupported('libm %s domain' % name)
    return g


for _n in ('sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'atan2', 'sinh', 'cosh', 'tanh', 'log10', 'log1p', 'expm1', 'erf', 'erfc',
           'lgamma', 'hypot', 'fmod', 'cbrt', 'exp2', 'nextafter'):
    globals()['c_' + _n] = _libm(_n)
c_M_PI, c_M_E, c_HUGE_VAL = math.pi, math.e, INF
c_DBL_MAX, c_DBL_MIN, c_DBL_EPSILON = 1.7976931348623157e308, 2.2250738585072014e-308, 2.220446049250313e-16
c_INT_MAX, c_INT_MIN, c_LONG_MAX = 2 ** 31 - 1, -2 ** 31, 2 ** 63 - 1


def __getattr__(name):
    if name.startswith('c_'):
        def unsupported(*a, **k):
            raise Unsupported('C library function %s' % name[2:])
        return unsupported
    raise AttributeError(name)




def c_trunc(x):
    x = _cf(x)
    return float(math.floor(x)) if x >= 0 else -float(math.floor(-x))


c_NULL = None
c_NAN = float('nan')
c_INFINITY = INF


class c_deque(collections.deque):
    def push_back(self, x):
        self.append(x)

    def push_front(self, x):
        self.appendleft(x)

    def pop_back(self):
        if not self:
            raise Unsupported('pop_back of an empty deque')
        collections.deque.pop(self)

    def pop_front(self):
        if not self:
            raise Unsupported('pop_front of an empty deque')
        self.popleft()

    def front(self):
        return self[0]

    def back(self):
        return self[-1]

    def empty(self):
        return not len(self)

    def size(self):
        return len(self)

    def at(self, i):
        return self[i]


class c_vector(c_deque):
    pass


class c_queue(c_deque):
    def push(self, x):
        self.append(x)

    def pop(self):
        self.popleft()


class c_stack(c_deque):
    def push(self, x):
        self.append(x)

    def pop(self):
        collections.deque.pop(self)

    def top(self):
        return self[-1]


class c_priority_queue:
    """max-heap by < ; kept as a list, comparisons may fork"""

    def __init__(self):
        self.a = []

    def push(self, x):
        i = 0
        while i < len(self.a) and not (self.a[i] < x):
            i += 1
        self.a.insert(i, x)

    def top(self):
        return self.a[0]

    def pop(self):
        self.a.pop(0)

    def empty(self):
        return not self.a

    def size(self):
        return len(self.a)


_IOP = dict(Add=(operator.iadd, operator.add), Sub=(operator.isub, operator.sub), Mult=(operator.imul, operator.mul),
            Div=(operator.itruediv, operator.truediv), Pow=(operator.ipow, operator.pow),
            FloorDiv=(operator.ifloordiv, operator.floordiv), Mod=(operator.imod, operator.mod),
            BitAnd=(operator.iand, operator.and_), BitOr=(operator.ior, operator.or_), BitXor=(operator.ixor, operator.xor),
            LShift=(operator.ilshift, operator.lshift), RShift=(operator.irshift, operator.rshift),
            MatMult=(operator.imatmul, operator.matmul))


def _aug(a, b, op):
    if type(a) is numpy.ndarray and (isinstance(b, (sym.SymFloat, sym.SymInt)) or a.dtype == object):
        a[...] = _IOP[op][1](a, b)
        return a
    return _IOP[op][0](a, b)


def _augattr(o, name, b, op):
    setattr(o, name, _aug(getattr(o, name), b, op))


def _augitem(o, i, b, op):
    o[i] = _aug(o[i], b, op)


def _forfrom(lo, r1, r2, hi, step):
    i = lo + (step if r1 == '<' else 0) if r1 in ('<', '<=') else lo - (step if r1 == '>' else 0)
    up = r1 in ('<', '<=')
    while (i < hi if r2 == '<' else i <= hi if r2 == '<=' else i > hi if r2 == '>' else i >= hi):
        yield i
        i = i + step if up else i - step
