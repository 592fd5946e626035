"""helpers for numeric distributions"""
from jpt.base.intervals import ContinuousSet, RealSet, INC, EXC, R
from jpt.base.functions import PiecewiseFunction, ConstantFunction, LinearFunction
from jpt.distributions.quantile.quantiles import QuantileDistribution
from jpt.distributions.univariate.numeric import Numeric, NumericType, ScaledNumeric
from jpt.base.errors import Unsatisfiability

from plfs import knots

W = 1. / 32


class Spec:
    """a distribution: density pieces (lo, hi, mass) and atoms (x, mass); knots ascending"""
    def __init__(self, pieces, atoms=()):
        self.pieces, self.atoms = list(pieces), list(atoms)

    def knots(self):
        return [p[0] for p in self.pieces] + [p[1] for p in self.pieces] + [a[0] for a in self.atoms]

    def below(self, x):
        """P(X < x)"""
        return self._cdf(x, False)

    def cdf(self, x):
        """P(X <= x)"""
        return self._cdf(x, True)

    def _cdf(self, x, inc):
        r = 0.
        for lo, hi, w in self.pieces:
            if x >= hi:
                r = r + w
            elif x > lo:
                r = r + w * ((x - lo) / (hi - lo))
        for a, w in self.atoms:
            if a < x or inc and a == x:
                r = r + w
        return r

    def p(self, lo, hi, l=INC, r=INC):
        if lo > hi or lo == hi and (l == EXC or r == EXC):
            return 0.
        return (self.cdf(hi) if r == INC else self.below(hi)) - (self.below(lo) if l == INC else self.cdf(lo))

    def density(self, x):
        for lo, hi, w in self.pieces:
            if x >= lo and x < hi:
                return w / (hi - lo)
        return 0.

    def last(self):
        r = None
        for lo, hi, w in self.pieces:
            r = hi
        for a, w in self.atoms:
            if r is None or a > r:
                r = a
        return r

    def mean(self):
        r = 0.
        for lo, hi, w in self.pieces:
            r = r + w * (lo + hi) * .5
        for a, w in self.atoms:
            r = r + w * a
        return r


def quantile(H, spec, eps=False):
    """the distribution of a Spec with contiguous pieces (and atoms only on knots)"""
    cdf = PiecewiseFunction()
    x0 = spec.pieces[0][0] if spec.pieces else spec.atoms[0][0]
    cdf.append(ContinuousSet(-H.inf, x0, EXC, EXC), ConstantFunction(0.))
    y = 0.
    todo = list(spec.atoms)
    n = len(spec.pieces)
    for i, (lo, hi, w) in enumerate(spec.pieces):
        for a in list(todo):
            if a[2] == i:
                y = y + a[1]
                todo.remove(a)
        end = H.succ(hi) if eps and i == n - 1 else hi
        if isinstance(w, float) and w == 0:
            cdf.append(ContinuousSet(lo, end, INC, EXC), ConstantFunction(y))
        else:
            cdf.append(ContinuousSet(lo, end, INC, EXC), LinearFunction.from_points((lo, y), (hi, y + w)))
        y = y + w
    if not spec.pieces:
        end = x0
    cdf.append(ContinuousSet(end, H.inf, INC, EXC), ConstantFunction(1.))
    return QuantileDistribution.from_cdf(cdf)


def value_at(H, f, x, label):
    i = f.idx_at(x)
    if i == -1:
        H.fail(label + ': undefined')
    return f.functions[i].eval(x)


def valid(H, d, label='valid distribution'):
    """the CDF covers the line without gaps, starts at 0, never falls and ends at 1"""
    cdf = d.cdf
    H.check(len(cdf.intervals) == len(cdf.functions) and len(cdf.intervals) >= 2, label)
    H.check(cdf.intervals[0].lower == -H.inf and cdf.intervals[-1].upper == H.inf, label)
    for a, b in zip(cdf.intervals, cdf.intervals[1:]):
        H.check(H.all(a.upper == b.lower, a.right == EXC, b.left == INC), label + ': gap')
        H.check(a.lower < a.upper, label + ': empty piece')
    H.check(cdf.functions[0].m == 0 and cdf.functions[-1].m == 0, label + ': tails')
    H.close(cdf.functions[0].c, 0., label + ': starts at 0')
    H.close(cdf.functions[-1].c, 1., label + ': ends at 1')
    prev = 0.
    for i, f in cdf.iter():
        if i.lower == -H.inf:
            continue
        H.le(prev, f.eval(i.lower), label + ': falls')
        H.le(0., f.m, label + ': falls')
        if i.upper < H.inf:
            prev = f.eval(i.upper)


def snapq(d):
    return [(i.lower, i.upper, i.left, i.right, f.m, f.c) for i, f in d.cdf.iter()]


def same_cdf(H, d, sn, label):
    now = snapq(d)
    H.check(len(now) == len(sn), label)
    for a, b in zip(now, sn):
        for p, q in zip(a, b):
            H.check(p == q, label)


def event(H, name='e', lo=-5., hi=5., kinds=None):
    """an interval: (lower, upper, left, right)"""
    k = H.choice(kinds or ('[]', '[)', '(]', '()', '[inf', '-inf]'))
    if k == '[inf':
        a = H.float(name + 'a', lo, hi)
        return a, H.inf, INC, EXC
    if k == '-inf]':
        b = H.float(name + 'b', lo, hi)
        return -H.inf, b, EXC, INC
    a, b = H.float(name + 'a', lo, hi), H.float(name + 'b', lo, hi)
    H.assume(b - a >= W)
    return a, b, INC if k[0] == '[' else EXC, INC if k[1] == ']' else EXC
