"""numpy / math / cmath / builtins as seen by the code under test: float arrays hold Python objects
so that they can hold symbolic doubles; element-wise predicates understand symbolic values."""
import builtins
import math as _math
import types

import numpy as np

import sym
from sym import SymFloat, SymInt, SymBool, LogVal, Unsupported, INF, HashVal


# ------------------------------------------------------------------------------------- scalars
class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (SymFloat, float))

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.float) or c is SymFloat


class sfloat(float, metaclass=_FloatMeta):
    dtype = np.dtype('float64')

    def __new__(cls, x=0.0):
        if isinstance(x, SymFloat):
            return x
        if isinstance(x, SymInt):
            return x.tofloat()
        return builtins.float(x)


class _F64Meta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (SymFloat, np.float64))


class float64(float, metaclass=_F64Meta):
    dtype = np.dtype('float64')

    def __new__(cls, x=0.0):
        if isinstance(x, SymFloat):
            return x
        if isinstance(x, SymInt):
            return x.tofloat()
        if isinstance(x, (list, tuple, np.ndarray)):
            return array(x, dtype=np.float64)
        return np.float64(x)


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (SymInt, int))

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.int) or c is SymInt


class sint(int, metaclass=_IntMeta):
    dtype = np.dtype('int64')

    def __new__(cls, x=0, *a):
        if isinstance(x, (SymFloat, SymInt)):
            return x if isinstance(x, SymInt) else sym.sym_trunc(x)
        if isinstance(x, SymBool):
            return 1 if x else 0
        return builtins.int(x, *a)


sint.from_bytes = builtins.int.from_bytes


def _round(x, n=None):
    if isinstance(x, SymFloat):
        raise Unsupported('round')
    return builtins.round(x) if n is None else builtins.round(x, n)


def _hash(x):
    if sym.S.ex is None:
        return builtins.hash(x)
    return sym.hashval(x)


def _isinstance(x, t):
    return builtins.isinstance(x, t)


# ------------------------------------------------------------------------------------- arrays
def _hassym(x):
    if isinstance(x, (SymFloat, SymInt, SymBool, LogVal)):
        return True
    if isinstance(x, (list, tuple)):
        return any(_hassym(v) for v in x)
    if isinstance(x, np.ndarray):
        return x.dtype == object and any(_hassym(v) for v in x.ravel())
    return False


def _fkind(dtype):
    if dtype is None:
        return None
    try:
        return np.dtype(dtype).kind
    except TypeError:
        return 'O'


def _cell(v):
    if isinstance(v, (SymFloat,)):
        return v
    if isinstance(v, SymInt):
        return v.tofloat()
    if isinstance(v, SymBool):
        return 1.0 if v else 0.0
    return float(v)


def _toobj(a):
    """float array -> object array of python floats"""
    if isinstance(a, np.ndarray) and a.dtype.kind == 'f':
        o = np.empty(a.shape, dtype=object)
        for i in np.ndindex(*a.shape):
            o[i] = float(a[i])
        return o
    return a


def array(x, dtype=None, **kw):
    kw.pop('order', None)
    k = _fkind(dtype)
    if sym.S.ex is None:
        return np.array(x, dtype=dtype, **kw)
    if isinstance(x, types.GeneratorType):
        x = list(x)
    if k == 'f':
        a = np.array(x, dtype=object, **kw)
        o = np.empty(a.shape, dtype=object)
        for i in np.ndindex(*a.shape):
            o[i] = _cell(a[i])
        return o
    if k in ('i', 'u', 'b') and _hassym(x):
        a = np.array(x, dtype=object, **kw)
        o = np.empty(a.shape, dtype=object if k != 'b' else bool)
        for i in np.ndindex(*a.shape):
            v = a[i]
            o[i] = bool(v) if k == 'b' else (sym.sym_trunc(v) if isinstance(v, SymFloat) else v)
        if k != 'b' and not _hassym(o):
            return o.astype(np.int64)
        return o
    if isinstance(x, np.ndarray) and x.dtype == object and k in ('i', 'u', 'b'):
        return x.astype(dtype)
    return _toobj(np.array(x, dtype=dtype, **kw))


def astype(a, dtype, *args, **kw):
    if sym.S.ex is None or not isinstance(a, np.ndarray) or a.dtype != object:
        return a.astype(dtype, *args, **kw)
    k = _fkind(dtype)
    if k in ('f', 'i', 'u', 'b'):
        return array(a, dtype=dtype)
    return a.astype(dtype, *args, **kw)


def asarray(x, dtype=None, **kw):
    if isinstance(x, np.ndarray) and (dtype is None or (x.dtype == object and _fkind(dtype) == 'f')):
        return x
    return array(x, dtype=dtype)


def ascontiguousarray(x, dtype=None):
    if isinstance(x, np.ndarray) and (dtype is None or (x.dtype == object and _fkind(dtype) == 'f')):
        return x if x.flags['C_CONTIGUOUS'] else np.ascontiguousarray(x)
    return array(x, dtype=dtype)


def _maker(f, fill):
    def g(shape, *a, dtype=float, **kw):
        kw.pop('order', None)
        if a:
            dtype = a[0]
        if sym.S.ex is None:
            return f(shape, dtype=dtype)
        if isinstance(shape, tuple):
            shape = tuple(int(s) if isinstance(s, SymInt) else s for s in shape)
        elif isinstance(shape, SymInt):
            shape = shape.__index__()
        if _fkind(dtype) == 'f':
            o = np.empty(shape, dtype=object)
            o[...] = fill
            return o
        return f(shape, dtype=dtype)
    return g


zeros = _maker(np.zeros, 0.0)
ones = _maker(np.ones, 1.0)
empty = _maker(np.empty, float('nan'))


def full(shape, fill_value, dtype=None, **kw):
    if sym.S.ex is None:
        return np.full(shape, fill_value, dtype=dtype)
    if dtype is None:
        dtype = float if isinstance(fill_value, (float, SymFloat)) else int
    if _fkind(dtype) == 'f':
        o = np.empty(shape, dtype=object)
        o[...] = fill_value
        return o
    return np.full(shape, fill_value, dtype=dtype)


def zeros_like(a, dtype=None, **k):
    return zeros(np.shape(a), dtype=float if (dtype is None and np.asarray(a).dtype.kind in 'fO') else (dtype or np.asarray(a).dtype))


def ones_like(a, dtype=None, **k):
    return ones(np.shape(a), dtype=float if (dtype is None and np.asarray(a).dtype.kind in 'fO') else (dtype or np.asarray(a).dtype))


def empty_like(a, dtype=None, **k):
    return zeros_like(a, dtype)


def full_like(a, v, dtype=None, **k):
    return full(np.shape(a), v, dtype)


def _pred(f, scalar, symval):
    def g(x, *a, **k):
        if isinstance(x, (SymFloat, SymInt, LogVal)):
            return symval
        if isinstance(x, (list, tuple)) and _hassym(x):
            x = np.array(x, dtype=object)
        if isinstance(x, np.ndarray) and x.dtype == object:
            out = np.empty(x.shape, dtype=bool)
            for i in np.ndindex(*x.shape):
                v = x[i]
                out[i] = symval if isinstance(v, (SymFloat, SymInt, LogVal)) else bool(scalar(v))
            return out
        return f(x, *a, **k)
    return g


isnan = _pred(np.isnan, np.isnan, False)
isinf = _pred(np.isinf, np.isinf, False)
isfinite = _pred(np.isfinite, np.isfinite, True)
isposinf = _pred(np.isposinf, np.isposinf, False)
isneginf = _pred(np.isneginf, np.isneginf, False)


def nextafter(x, y, **kw):
    if isinstance(x, np.ndarray):
        r = np.empty(x.shape, dtype=object)
        for i in np.ndindex(*x.shape):
            r[i] = sym.nextafter(x[i], y[i] if isinstance(y, np.ndarray) else y)
        return r
    if sym.S.ex is None:
        return np.nextafter(x, y)
    return sym.nextafter(sym.coerce(x), sym.coerce(y))


def sort(a, axis=-1, **k):
    if isinstance(a, (list, tuple)):
        a = array(a)
    if a.dtype == object and a.ndim == 1:
        o = np.empty(a.shape, dtype=object)
        for i, v in enumerate(sorted(a)):
            o[i] = v
        return o
    return np.sort(a, axis=axis, **k)


def _unary(f, fs):
    def g(x, *a, **k):
        if isinstance(x, (SymFloat, SymInt)):
            return fs(x)
        if isinstance(x, (list, tuple)) and _hassym(x):
            x = np.array(x, dtype=object)
        if isinstance(x, np.ndarray) and x.dtype == object:
            out = np.empty(x.shape, dtype=object)
            for i in np.ndindex(*x.shape):
                v = x[i]
                out[i] = fs(v) if isinstance(v, (SymFloat, SymInt)) else f(v)
            return out
        return f(x, *a, **k)
    return g


def _unsup(name):
    def f(x):
        raise Unsupported(name)
    return f


abs = _unary(np.abs, lambda x: builtins.abs(x))
absolute = fabs = abs
sqrt = _unary(np.sqrt, lambda x: sym.sym_sqrt(x if isinstance(x, SymFloat) else x.tofloat()))
def log(x, *a, **k):
    if sym.S.ex is None:
        return np.log(x, *a, **k)
    if isinstance(x, (list, tuple, np.ndarray)):
        x = np.array(x, dtype=object)
        o = np.empty(x.shape, dtype=object)
        for i in np.ndindex(*x.shape):
            o[i] = sym.sym_log(x[i])
        return o
    return sym.sym_log(x)



exp = _unary(np.exp, _unsup('exp'))
round = round_ = _unary(np.round, _unsup('round'))
floor = _unary(np.floor, lambda x: sym.sym_floor(x) if isinstance(x, SymFloat) else x)
ceil = _unary(np.ceil, lambda x: -sym.sym_floor(-x) if isinstance(x, SymFloat) else x)


def _sg(x):
    return 1.0 if x > 0 else (-1.0 if x < 0 else 0.0)


sign = _unary(np.sign, _sg)


def _symlist(a):
    return isinstance(a, np.ndarray) and a.dtype == object or isinstance(a, (list, tuple)) and _hassym(a)


def mean(a, axis=None, **k):
    if _symlist(a):
        a = np.array(a, dtype=object)
        if axis is None:
            s = builtins.sum(a.ravel()[1:], a.ravel()[0])
            return s / a.size
        return np.sum(a, axis=axis) / a.shape[axis]
    return np.mean(a, axis=axis, **k)


def var(a, axis=None, ddof=0, **k):
    if _symlist(a):
        a = np.array(a, dtype=object)
        if axis is not None:
            raise Unsupported('np.var axis')
        m = mean(a)
        return builtins.sum([(x - m) * (x - m) for x in a.ravel()]) / (a.size - ddof)
    return np.var(a, axis=axis, ddof=ddof, **k)


def std(a, axis=None, ddof=0, **k):
    if _symlist(a):
        v = var(a, axis, ddof)
        return sym.sym_sqrt(v)
    return np.std(a, axis=axis, ddof=ddof, **k)


def linspace(start, stop, num=50, **k):
    if _hassym([start, stop]):
        if num == 1:
            return array([start])
        step = (stop - start) / (num - 1)
        return array([start + step * i for i in range(num - 1)] + [stop])
    return np.linspace(start, stop, num=num, **k)


def unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None):
    a = np.asarray(a) if not _symlist(a) else np.array(a, dtype=object)
    if a.dtype != object:
        return np.unique(a, return_index=return_index, return_inverse=return_inverse, return_counts=return_counts, axis=axis)
    if axis is not None or return_index or return_inverse:
        raise Unsupported('np.unique options')
    vals = []
    cnt = []
    for v in sorted(a.ravel()):
        if vals and vals[-1] == v:
            cnt[-1] += 1
        else:
            vals.append(v)
            cnt.append(1)
    o = np.empty(len(vals), dtype=object)
    for i, v in enumerate(vals):
        o[i] = v
    return (o, np.array(cnt)) if return_counts else o


def isclose(a, b, rtol=1e-5, atol=1e-8, **k):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray) or isinstance(a, (list, tuple)):
        a = np.asarray(a, dtype=object)
        b = np.broadcast_to(np.asarray(b, dtype=object), a.shape)
        out = np.empty(a.shape, dtype=bool)
        for i in np.ndindex(*a.shape):
            out[i] = bool(isclose(a[i], b[i], rtol, atol))
        return out
    if _hassym([a, b]):
        if a in (INF, -INF) or b in (INF, -INF):
            return a == b
        if a != a or b != b:
            return False
        return builtins.abs(a - b) <= atol + rtol * builtins.abs(b)
    return np.isclose(a, b, rtol=rtol, atol=atol, **k)


def allclose(a, b, rtol=1e-5, atol=1e-8, **k):
    return bool(np.all(isclose(a, b, rtol, atol)))


def where(c, *a):
    if not a:
        return np.where(c)
    if _hassym(list(a)) or any(isinstance(x, np.ndarray) and x.dtype == object for x in a):
        x, y = a
        c = np.asarray(c)
        o = np.empty(c.shape, dtype=object)
        for i in np.ndindex(*c.shape):
            pick = x if c[i] else y
            o[i] = pick[i] if isinstance(pick, np.ndarray) else pick
        return o
    return np.where(c, *a)


class SNumpy(types.ModuleType):
    def __getattr__(self, name):
        return getattr(np, name)


class _NdMeta(type):
    def __instancecheck__(cls, x):
        return builtins.isinstance(x, np.ndarray)

    def __subclasscheck__(cls, t):
        return issubclass(t, np.ndarray)

    def __call__(cls, shape, dtype=builtins.float, **kw):
        if sym.S.ex is None:
            return np.ndarray(shape, dtype=dtype, **kw)
        return empty(shape, dtype=dtype)

    def __getattr__(cls, name):
        return getattr(np.ndarray, name)


class ndarray(metaclass=_NdMeta):
    pass


_over = dict(ndarray=ndarray, array=array, asarray=asarray, ascontiguousarray=ascontiguousarray, zeros=zeros, ones=ones, empty=empty,
             full=full, zeros_like=zeros_like, ones_like=ones_like, empty_like=empty_like, full_like=full_like,
             isnan=isnan, isinf=isinf, isfinite=isfinite, isposinf=isposinf, isneginf=isneginf,
             nextafter=nextafter, sort=sort, abs=abs, absolute=abs, fabs=abs, sqrt=sqrt, log=log, exp=exp, round=round,
             floor=floor, ceil=ceil, sign=sign, mean=mean, var=var, std=std, linspace=linspace, unique=unique,
             isclose=isclose, allclose=allclose, where=where, float64=float64)
snumpy = SNumpy('numpy')
snumpy.__dict__.update(_over)
snumpy.__path__ = np.__path__


class SMath(types.ModuleType):
    def __init__(self, name, base):
        super().__init__(name)
        self.__dict__['_base'] = base

    def __getattr__(self, name):
        return getattr(self._base, name)


def _m(f, fs):
    def g(x):
        if isinstance(x, (SymFloat, SymInt)):
            return fs(x)
        return f(x)
    return g


def _prod(xs, *, start=1):
    r = start
    for x in xs:
        r = r * x
    return r


def _fsum(xs):
    r = 0.0
    for x in xs:
        r = r + x
    return r


import cmath as _cmath  # noqa: E402

smath = SMath('math', _math)
smath.__dict__.update(isnan=_m(_math.isnan, lambda x: False), isinf=_m(_math.isinf, lambda x: False),
                      isfinite=_m(_math.isfinite, lambda x: True),
                      floor=_m(_math.floor, lambda x: sym.sym_floor(x) if isinstance(x, SymFloat) else x),
                      ceil=_m(_math.ceil, lambda x: -sym.sym_floor(-x) if isinstance(x, SymFloat) else x),
                      sqrt=_m(_math.sqrt, sym.sym_sqrt), exp=_m(_math.exp, _unsup('exp')),
                      fabs=_m(_math.fabs, builtins.abs), prod=_prod, fsum=_fsum, isclose=lambda a, b, rel_tol=1e-9, abs_tol=0.0:
                      isclose(a, b, rel_tol, abs_tol) if _hassym([a, b]) else _math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol))
smath.log = lambda x, *b: sym.sym_log(x) if sym.S.ex is not None and not b else _math.log(x, *b)
scmath = SMath('cmath', _cmath)
scmath.__dict__.update(isnan=smath.__dict__['isnan'], isinf=smath.__dict__['isinf'])
