"""helpers for distributions"""
from jpt.distributions.univariate.multinomial import SymbolicType, Bool
from jpt.distributions.univariate.integer import IntegerType, Integer
from jpt.base.errors import Unsatisfiability

PMIN = 1. / 64


def probs(H, name, n, pmin=PMIN):
    """n probabilities that sum to 1, each 0 or >= pmin"""
    if n == 1:
        return [1.]
    ps = [H.float('%s%d' % (name, i), 0., 1.) for i in range(n - 1)]
    s = ps[0]
    for p in ps[1:]:
        s = s + p
    last = 1. - s
    for p in ps + [last]:
        H.assume(H.any(p == 0, p >= pmin))
    return ps + [last]


def ints(H, name, n, k, cols=1):
    """n x cols table of integers 0..k-1 as floats"""
    return [[H.int('%s%d_%d' % (name, i, j), 0, k - 1) * 1. for j in range(cols)] for i in range(n)]


def psum(xs):
    r = 0.
    for x in xs:
        r = r + x
    return r
