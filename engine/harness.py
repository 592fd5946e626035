"""The harness API.  The same harness function runs symbolically (inputs are solver variables, checks are
proof obligations) and concretely (inputs come from a solver model; the code is the real compiled build)."""
import copy
import json
import math
import numbers
import os
import pickle
import sys

CASES = []


class Case:
    def __init__(self, fn, prop, name, mode, weight, bound, query_ms, max_steps):
        self.fn, self.prop, self.name, self.mode = fn, prop, name, mode
        self.weight, self.bound, self.query_ms, self.max_steps = weight, bound, query_ms, max_steps

    @property
    def key(self):
        return '%s/%s' % (self.prop, self.name)


def case(prop, name, mode='rank', weight=1.0, bound='', query_ms=2000, max_steps=4000):
    def deco(fn):
        CASES.append(Case(fn, prop, name, mode, weight, bound, query_ms, max_steps))
        return fn
    return deco


class Violated(Exception):
    def __init__(self, label, msg=''):
        super().__init__(label, msg)
        self.label, self.msg = label, msg


class Invalid(BaseException):
    """concrete inputs do not satisfy the assumptions"""


TOL = 1e-4          # symbolic obligations ask for a difference of at least this much
ATOL = 1e-7         # the concrete replay calls this equal
MAXF = float(2 ** 50)
RMAX = None


def listed(prop, key):
    """is a known finding (key=...) of the property listed in known_findings.txt"""
    p = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'known_findings.txt')
    return any(l.startswith('finding: property=%s key=%s ' % (prop, key)) for l in open(p)) if os.path.exists(p) else False


def exc_label(e):
    return 'exception'


class SymH:
    """symbolic side"""
    sym = True

    def __init__(self, ex):
        import sym
        import z3
        self.ex, self.S, self.z3 = ex, sym, z3
        self.nan, self.inf = float('nan'), float('inf')

    # inputs
    def float(self, name, lo=None, hi=None):
        S, z3 = self.S, self.z3
        self._new(name)
        if self.ex.mode == 'rank':
            v = z3.Int(name)
            self.ex.inputs.append((name, 'rank', v))
            lo = -MAXF if lo is None else lo
            hi = MAXF if hi is None else hi
            self.ex.assume(z3.And(v >= S.rank(float(lo)), v <= S.rank(float(hi))))
            return S.SymFloat(v)
        v = z3.Real(name)
        self.ex.inputs.append((name, 'real', v))
        lo = -64. if lo is None else lo
        hi = 64. if hi is None else hi
        self.ex.assume(z3.And(v >= S.zr(lo), v <= S.zr(hi)))
        return S.SymFloat(v)

    def _new(self, name):
        if any(i[0] == name for i in self.ex.inputs):
            raise SystemError('two inputs named ' + name)

    def int(self, name, lo, hi):
        self._new(name)
        v = self.z3.Int(name)
        self.ex.has_int = True
        self.ex.inputs.append((name, 'int', v))
        self.ex.assume(self.z3.And(v >= lo, v <= hi))
        return self.S.SymInt(v)

    def choice(self, options):
        options = list(options)
        k = self.ex.choice(len(options))
        self.ex.choices.append(k)
        return options[k]

    def flag(self):
        return self.choice((False, True))

    # logic
    def assume(self, c):
        self.ex.assume(c)

    def check(self, c, label, info=None):
        self.ex.prove(c, label, info)

    def fail(self, label, info=None):
        self.ex.prove(False, label, info)

    def observe(self, label, v):
        self.ex.observed.append((label, v))

    def is_nan(self, x):
        return isinstance(x, float) and x != x

    def close(self, a, b, label, tol=None, info=None):
        S = self.S
        tol = TOL if tol is None else tol
        a, b = S.coerce(a), S.coerce(b)
        if a is None or b is None:
            return self.fail(label, info)
        na, nb = self.is_nan(a), self.is_nan(b)
        if na or nb:
            return self.ex.prove(na and nb, label, info)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, float) and abs(x) == math.inf:
                return self.ex.prove(isinstance(y, float) and x == y, label, info)
        d = S.std(a) - S.std(b)
        if isinstance(d, float):
            return self.ex.prove(abs(d) <= tol, label, info)
        if self.ex.mode == 'rank':
            return self.ex.prove(a == b, label, info)
        r = S.zr(d.r)
        self.ex.prove(self.z3.And(r <= S.zr(tol), r >= S.zr(-tol)), label, info)

    def le(self, a, b, label, tol=None, info=None):
        """a <= b up to tolerance"""
        tol = TOL if tol is None else tol
        S = self.S
        self.ex.prove(S.std(S.coerce(a)) <= S.std(S.coerce(b)) + tol, label, info)

    def same(self, a, b, label, info=None):
        """identical numbers (nan == nan)"""
        na, nb = self.is_nan(a), self.is_nan(b)
        if na or nb:
            return self.ex.prove(na and nb, label, info)
        self.ex.prove(a == b, label, info)

    def iff(self, a, b, label, info=None):
        S, z3 = self.S, self.z3
        if isinstance(a, S.SymBool) or isinstance(b, S.SymBool):
            self.ex.prove(S.bexpr(a) == S.bexpr(b), label, info)
        else:
            self.ex.prove(bool(a) == bool(b), label, info)

    def all(self, *cs):
        r = True
        for c in cs:
            r = r & c if isinstance(r, self.S.SymBool) else (c if r else False)
        return r

    def any(self, *cs):
        r = False
        for c in cs:
            r = r | c if isinstance(r, self.S.SymBool) else (True if r else c)
        return r

    def neg(self, c):
        return ~c if isinstance(c, self.S.SymBool) else (not c)

    def implies(self, a, b, label, info=None):
        S, z3 = self.S, self.z3
        self.ex.prove(S.mkbool(z3.Implies(S.bexpr(a), S.bexpr(b))), label, info)

    # stubs
    def json(self, x):
        return _jsonify(x, self.S)

    def pickle(self, x):
        return copy.deepcopy(x)

    def deepcopy(self, x):
        return copy.deepcopy(x)

    def hash_equal(self, a, b):
        return self.S.hash_equal(self.S.hashval(a), self.S.hashval(b))

    def succ(self, x):
        return self.S.nextafter(self.S.coerce(x), math.inf)

    def pred(self, x):
        return self.S.nextafter(self.S.coerce(x), -math.inf)

    def array(self, xs, dtype=None):
        import snp
        return snp.array(xs, dtype=dtype if dtype is not None else float)

    def intarray(self, xs):
        import numpy as np
        return np.array(xs, dtype=np.int64)

    def boolarray(self, xs):
        import numpy as np
        return np.array(xs, dtype=bool)

    def objarray(self, rows):
        """table of labels"""
        import numpy as np
        a = np.empty((len(rows), len(rows[0])), dtype=object)
        for i, r in enumerate(rows):
            for j, x in enumerate(r):
                a[i, j] = x
        return a

    def frame(self, names, rows):
        import pandas as pd
        return pd.DataFrame({n: [r[i] for r in rows] for i, n in enumerate(names)})


def _jsonify(x, S, key=False):
    """what json.loads(json.dumps(x)) yields, keeping symbolic numbers"""
    if x is None or isinstance(x, (bool, str)):
        return x
    if isinstance(x, (S.SymFloat, S.SymInt)):
        return x
    if isinstance(x, float):
        return float(x)
    if type(x) is int:
        return x
    if isinstance(x, int):
        return int(x)
    if isinstance(x, dict):
        out = {}
        for k, v in x.items():
            if not isinstance(k, (str, int, float, bool)) and k is not None:
                raise TypeError('keys must be str, int, float, bool or None')
            if isinstance(k, bool):
                k = 'true' if k else 'false'
            elif k is None:
                k = 'null'
            elif not isinstance(k, str):
                k = json.dumps(k)
            out[k] = _jsonify(v, S)
        return out
    if isinstance(x, (list, tuple)):
        return [_jsonify(v, S) for v in x]
    if isinstance(x, S.SymBool):
        return bool(x)
    raise TypeError('Object of type %s is not JSON serializable' % type(x).__name__)


class RealH:
    """concrete side: replays a solver model on the real build"""
    sym = False

    def __init__(self, inputs, choices):
        self.inputs, self.choices, self.k = inputs, choices, 0
        self.observed = []
        self.nan, self.inf = float('nan'), float('inf')
        self.labels = set()

    def _get(self, name):
        if name not in self.inputs:
            raise Invalid('missing input ' + name)
        return self.inputs[name]

    def float(self, name, lo=None, hi=None):
        v = float(self._get(name))
        if lo is not None and v < lo or hi is not None and v > hi:
            raise Invalid()
        return v

    def int(self, name, lo, hi):
        return int(self._get(name))

    def choice(self, options):
        options = list(options)
        if self.k >= len(self.choices):
            raise Invalid('choices exhausted')
        r = options[self.choices[self.k]]
        self.k += 1
        return r

    def flag(self):
        return self.choice((False, True))

    def assume(self, c):
        if not c:
            raise Invalid()

    def check(self, c, label, info=None):
        self.labels.add(label)
        if not c:
            raise Violated(label, str(info) if info is not None else '')

    def fail(self, label, info=None):
        raise Violated(label, str(info) if info is not None else '')

    def observe(self, label, v):
        try:
            if v is None or isinstance(v, (bool, str)):
                pass
            elif isinstance(v, numbers.Integral):
                v = int(v)
            elif isinstance(v, numbers.Real):
                v = float(v)
            else:
                v = repr(v)
        except Exception:
            v = repr(v)
        self.observed.append((label, v))

    def is_nan(self, x):
        return isinstance(x, float) and x != x

    def close(self, a, b, label, tol=None, info=None):
        self.labels.add(label)
        a, b = float(a), float(b)
        if a != a or b != b:
            ok = a != a and b != b
        elif math.isinf(a) or math.isinf(b):
            ok = a == b
        else:
            ok = abs(a - b) <= (ATOL if tol is None else tol * .9) * (1 + abs(a) + abs(b))
        if not ok:
            raise Violated(label, '%r vs %r %s' % (a, b, info if info is not None else ''))

    def le(self, a, b, label, tol=None, info=None):
        self.labels.add(label)
        if not a <= b + (ATOL if tol is None else tol * .9) * (1 + abs(a) + abs(b)):
            raise Violated(label, '%r > %r' % (a, b))

    def same(self, a, b, label, info=None):
        self.labels.add(label)
        if not (a == b or a != a and b != b):
            raise Violated(label, '%r != %r %s' % (a, b, info if info is not None else ''))

    def iff(self, a, b, label, info=None):
        self.labels.add(label)
        if bool(a) != bool(b):
            raise Violated(label, '%r vs %r %s' % (bool(a), bool(b), info if info is not None else ''))

    def all(self, *cs):
        return all(cs)

    def any(self, *cs):
        return any(cs)

    def neg(self, c):
        return not c

    def implies(self, a, b, label, info=None):
        self.labels.add(label)
        if a and not b:
            raise Violated(label, str(info) if info is not None else '')

    def json(self, x):
        return json.loads(json.dumps(x))

    def pickle(self, x):
        return pickle.loads(pickle.dumps(x))

    def deepcopy(self, x):
        return copy.deepcopy(x)

    def hash_equal(self, a, b):
        return hash(a) == hash(b)

    def succ(self, x):
        import numpy as np
        return float(np.nextafter(x, np.inf))

    def pred(self, x):
        import numpy as np
        return float(np.nextafter(x, -np.inf))

    def array(self, xs, dtype=None):
        import numpy as np
        return np.array(xs, dtype=dtype if dtype is not None else np.float64)

    def intarray(self, xs):
        import numpy as np
        return np.array(xs, dtype=np.int64)

    def boolarray(self, xs):
        import numpy as np
        return np.array(xs, dtype=bool)

    def objarray(self, rows):
        """table of labels"""
        import numpy as np
        a = np.empty((len(rows), len(rows[0])), dtype=object)
        for i, r in enumerate(rows):
            for j, x in enumerate(r):
                a[i, j] = x
        return a

    def frame(self, names, rows):
        import pandas as pd
        return pd.DataFrame({n: [r[i] for r in rows] for i, n in enumerate(names)})


def run_concrete(c, inputs, choices):
    """-> dict(status=ok|violated|invalid|error, label, msg, observed)"""
    h = RealH(inputs, choices)
    try:
        c.fn(h)
        return dict(status='ok', observed=h.observed)
    except Violated as e:
        return dict(status='violated', label=e.label, msg=e.msg, observed=h.observed)
    except Invalid as e:
        return dict(status='invalid', msg=str(e))
    except Exception as e:
        import traceback
        tb = traceback.format_exc().splitlines()[-6:]
        return dict(status='violated', label=exc_label(e), msg='%s: %s' % (type(e).__name__, e), tb=tb, observed=h.observed)


def sym_wrapper(c):
    def f(ex):
        h = SymH(ex)
        try:
            c.fn(h)
        except Exception as e:
            import traceback
            tb = traceback.extract_tb(e.__traceback__)
            where = ' <- '.join('%s:%s' % (os.path.basename(t.filename), t.lineno) for t in reversed(tb[-5:]))
            ex.prove(False, exc_label(e), '%s: %s @ %s' % (type(e).__name__, e, where))
    return f
