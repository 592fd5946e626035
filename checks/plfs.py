"""helpers for piecewise functions"""
from jpt.base.intervals import ContinuousSet, RealSet, INC, EXC
from jpt.base.functions import (PiecewiseFunction, ConstantFunction, LinearFunction, QuadraticFunction, Undefined,
                                Impulse)

XMAX, YMAX = 16., 8.
GAP = 2. ** -6      # smallest distance of neighbouring symbolic knots (keeps replays away from rounding noise)


class Seg:
    """lo, hi, left, right, m, c (m is None: undefined)"""
    def __init__(self, lo, hi, l, r, m, c):
        self.lo, self.hi, self.l, self.r, self.m, self.c = lo, hi, l, r, m, c

    def holds(self, x):
        """x inside (branches)"""
        if x < self.lo or x == self.lo and self.l == EXC:
            return False
        if x > self.hi or x == self.hi and self.r == EXC:
            return False
        return True

    def at(self, x):
        return self.m * x + self.c

    def fct(self):
        if self.m is None:
            return Undefined()
        if isinstance(self.m, float) and self.m == 0:
            return ConstantFunction(self.c)
        return LinearFunction(self.m, self.c)


def knots(H, name, n, lo=-XMAX, hi=XMAX, gap=GAP):
    xs = [H.float('%s.x%d' % (name, i), lo, hi) for i in range(n)]
    for a, b in zip(xs, xs[1:]):
        H.assume(b - a >= gap)
    return xs


def segments(H, name, kinds, left=False, right=False, ends=None, slope=None):
    """contiguous [x_i, x_i+1) segments; kinds: c(onstant) l(inear) u(ndefined) _(gap)"""
    n = len(kinds)
    xs = knots(H, name, n + 1 - left - right)
    bounds = ([-H.inf] if left else []) + xs + ([H.inf] if right else [])
    out = []
    for i, k in enumerate(kinds):
        if k == '_':
            continue
        lo, hi = bounds[i], bounds[i + 1]
        l = EXC if i == 0 and left else INC
        r = EXC
        if i == n - 1 and not right and ends == 'closed':
            r = INC
        m = c = None
        if k == 'c':
            m, c = 0., H.float('%s.c%d' % (name, i), -YMAX, YMAX)
        elif k == '0':
            m, c = 0., 0.
        elif k == '1':
            m, c = 0., 1.
        elif k == 'l':
            m, c = (H.float('%s.m%d' % (name, i), -YMAX, YMAX) if slope is None else slope), H.float('%s.c%d' % (name, i), -YMAX, YMAX)
            if slope is None:
                H.assume(H.any(m >= GAP, m <= -GAP))
        out.append(Seg(lo, hi, l, r, m, c))
    return out


def build(segs):
    f = PiecewiseFunction()
    for s in segs:
        f.append(ContinuousSet(s.lo, s.hi, s.l, s.r), s.fct())
    return f


def find(segs, x):
    for s in segs:
        if s.holds(x):
            return s
    return None


def value(segs, x):
    """None: outside the domain, nan: undefined"""
    s = find(segs, x)
    if s is None:
        return None
    if s.m is None:
        return float('nan')
    return s.at(x)


def has(f, x):
    """whether the function has a segment at x (never evaluates outside)"""
    return f.idx_at(x) != -1


def evaluate(f, x):
    if not has(f, x):
        return None
    return f.eval(x)


def agree(H, f, x, v, label, tol=None):
    """f at x is v, where v None means: no defined value there"""
    y = evaluate(f, x)
    if v is None:
        H.check(y is None or H.is_nan(y), label + ': defined outside the domain')
        return
    if y is None:
        H.check(H.is_nan(v), label + ': undefined inside the domain')
        return
    H.close(y, v, label, tol=tol)


def snapf(f):
    out = []
    for i, g in f.iter():
        if isinstance(g, ConstantFunction):
            p = (0., g.value)
        elif isinstance(g, LinearFunction):
            p = (g.m, g.c)
        else:
            p = ()
        out.append((i.lower, i.upper, i.left, i.right) + p)
    return out


def unchanged(H, f, sn, label):
    now = snapf(f)
    H.check(len(now) == len(sn), label)
    for a, b in zip(now, sn):
        H.check(len(a) == len(b), label)
        for p, q in zip(a, b):
            H.check(p == q, label)


def wellformed(H, f, label):
    """as many functions as pieces, pieces disjoint and ascending"""
    H.check(len(f.intervals) == len(f.functions), label + ': lengths')
    for a, b in zip(f.intervals, f.intervals[1:]):
        H.check(H.any(a.upper < b.lower, H.all(a.upper == b.lower, H.any(a.right == EXC, b.left == EXC)),
                      H.all(a.right == EXC, b.left == EXC, H.pred(a.upper) <= b.lower)), label + ': overlapping pieces')
