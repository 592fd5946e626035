"""T09 random samples: numpy's and Python's generators are replaced by arbitrary numbers from their ranges"""
from harness import case
from trees import *
from c_trees import SHAPES, covers, label, region
import jpt.base.sampling as sampling
import jpt.base.intervals as ivs
import jpt.distributions.quantile.quantiles as qs
from jpt.base.sampling import RouletteWheelSampler, wsample, wchoice, wsamplei, wchoicei, wchoiced
from jpt.base.intervals import ContinuousSet, RealSet, INC, EXC, R


class Rng:
    """replaces the random numbers by arbitrary ones; log of the draws"""
    def __init__(self, H):
        self.H, self.log, self.n = H, [], 0

    def choice(self, a, size=None, replace=True, p=None):
        H = self.H
        a, p = list(a), list(p)
        H.check(len(a) == len(p), 'as many weights as options')
        H.close(psum(p), 1., 'weights sum to 1', tol=1e-6)
        out = []
        for _ in range(1 if size is None else size[0] if isinstance(size, tuple) else size):
            k = H.choice(range(len(p)))
            H.assume(p[k] > 0)
            self.log.append(('choice', k, p))
            out.append(a[k])
        return H.intarray(out)

    def one(self, lo, hi, closed):
        H = self.H
        H.check(lo <= hi, 'range of a random number')
        if lo == -H.inf or hi == H.inf:
            raise AssertionError('infinite range')
        u = H.float('u%d' % self.n, 0., 1.)
        self.n += 1
        H.assume(u < 1)
        v = lo + u * (hi - lo)
        self.log.append(('uniform', v, lo, hi))
        return v

    def __enter__(self):
        H = self.H

        class NP:
            choice = self.choice

            @staticmethod
            def uniform(lo=0., hi=1., size=None):
                if size is None:
                    return self.one(lo, hi, False)
                return H.array([self.one(lo, hi, False) for _ in range(size)])

        class PY:
            @staticmethod
            def uniform(a, b):
                return self.one(a, b, True)

            @staticmethod
            def random():
                return self.one(0., 1., False)
        mods = {id(m.np): m.np for m in (qs, ivs, T, sampling) if hasattr(m, 'np')}
        self.old = [(m, 'random', m.random) for m in mods.values()] + [(sampling, 'random', sampling.random)]
        for m in mods.values():
            m.random = NP
        sampling.random = PY
        return self

    def __exit__(self, *a):
        for m, n, o in self.old:
            setattr(m, n, o)


def weights(H, n):
    ws = [H.float('w%d' % i, 0., 4.) for i in range(n)]
    for w in ws:
        H.assume(H.any(w == 0, w >= 1. / 64))
    H.assume(psum(ws) > 0)
    return ws


def drawn(H, ws, k, v, label):
    """the k-th element was chosen for the number v in [0, sum]: it is possible, and every element gets
    numbers in proportion to its weight"""
    H.check(ws[k] > 0, label + ': possible')
    H.check(psum(ws[:k]) <= v, label + ': in proportion to the weights')
    H.check(v <= psum(ws[:k + 1]), label + ': in proportion to the weights')


@case('T09', 'wheel', 'real', bound='three or four elements with any weights, any random number')
def wheel(H):
    n = H.choice((3, 4))
    ws = weights(H, n)
    el = ['a', 'b', 'c', 'd'][:n]
    how = H.choice(('wsample', 'wsamplei', 'wchoice', 'wchoicei', 'wchoiced', 'normalize'))
    with Rng(H) as rng:
        if how == 'wsample':
            r = wsample(el, ws, 2)
            H.check(len(r) == 2, how)
        elif how == 'wsamplei':
            r = [(e, i)[0] for e, i in wsamplei(el, ws, 2)]
        elif how == 'wchoice':
            r = [wchoice(el, ws)]
        elif how == 'wchoicei':
            e, i = wchoicei(el, ws)
            H.check(el[i] == e, how)
            r = [e]
        elif how == 'wchoiced':
            r = [wchoiced(dict(zip(el, ws)))]
        else:
            r = RouletteWheelSampler(el, ws, normalize=True).sample(1)
            s = psum(ws)
            ws = [w / s for w in ws]
    H.check(len(rng.log) == len(r), how + ': one random number per sample')
    for x, (_, v, lo, hi) in zip(r, rng.log):
        H.check(lo == 0, how + ': range')
        H.close(hi, psum(ws), how + ': range')
        drawn(H, ws, el.index(x), v, how)


@case('T09', 'discrete', 'real', bound='symbolic and integer variables, any distribution, any random number')
def discrete(H):
    v = H.choice((A, I))
    p = probs(H, 'p', 3)
    d = v.domain().set(H.array(p))
    how = H.choice(('sample', '_sample', 'sample_one', '_sample_one'))
    with Rng(H) as rng:
        r = list(getattr(d, how)(2)) if how in ('sample', '_sample') else [getattr(d, how)()]
    H.check(len(r) == (2 if how in ('sample', '_sample') else 1), how)
    ls = LA if v is A else LI
    for x, (_, u, lo, hi) in zip(r, rng.log):
        k = x if how[0] == '_' else ls.index(x)
        drawn(H, p, int(k), u, how)


@case('T09', 'interval', 'real', bound='any interval, any random number')
def interval_(H):
    a, b, l, r = event(H, 'e', -4., 4., ('[]', '[)', '(]', '()'))
    s = ContinuousSet(a, b, l, r)
    how = H.choice(('two', 'into', 'point'))
    with Rng(H) as rng:
        if how == 'two':
            xs = list(s.sample(2))
            H.check(len(xs) == 2, how)
        elif how == 'into':
            o = H.array([9., 9.])
            s.sample(2, o)
            xs = list(o)
        else:
            s = ContinuousSet(a, a)
            xs = list(s.sample(1))
    for x in xs:
        H.check(x in s, 'sample of an interval')


@case('T09', 'set', 'real', bound='sets of two or three intervals (points and empty intervals included), any random numbers')
def set_(H):
    a, b = H.float('a', -4., 4.), H.float('b', -4., 4.)
    H.assume(b - a >= W)
    c = H.choice((0., W, 1.))
    ends = H.choice(((INC, INC), (INC, EXC), (EXC, INC)))
    parts = [ContinuousSet(a, b, *ends), ContinuousSet(b + 1., b + 1. + c, INC, INC)]
    if H.flag():
        parts.insert(H.choice((0, 1)), ContinuousSet(5., 5., EXC, EXC) if H.flag() else ContinuousSet(-6., -6.))
    s = RealSet(parts)
    with Rng(H) as rng:
        xs = list(s.sample(1))
    for x in xs:
        H.check(x in s, 'sample of a set')


def tree(H, m):
    sn = snap(m.jpt)
    n = H.choice((1, 2))
    with Rng(H) as rng:
        r = m.jpt.sample(n)
    unchanged(H, m.jpt, sn)
    H.check(tuple(r.shape) == (n, len(m.variables)), 'one row per sample')
    # the leaves are drawn first
    ks = [e for e in rng.log if e[0] == 'choice'][:n]
    for i in range(n):
        leaf = m.leaves[ks[i][1]]
        for k, s in enumerate(m.leaves):
            H.close(ks[i][2][k], s.prior, 'leaves in proportion to their probability')
        for j, v in enumerate(m.variables):
            x = r[i, j]
            d = leaf.d[v.name]
            if v.numeric:
                lo, hi = d.knots()[0], d.last()
                H.check(H.all(x >= lo, x <= hi), 'samples from the leaf')
            else:
                ls = LA if v is A else ['u', 'v'] if v is B else LI
                H.check(d[ls.index(x)] > 0, 'samples from the leaf')


for _n in ('one', 'num', 'sym', 'deep', 'int', 'wide2', 'dirac'):
    def _h(H, s=SHAPES[_n]):
        tree(H, s(H))
    case('T09', 'tree-' + _n, 'real', bound=SHAPES[_n].__doc__ + ', one or two samples')(_h)
