"""D09 densities, sums, approximations and extensions of numeric distributions"""
from harness import case
from nums import *
from dsts import probs, psum
from c_numeric import spec1, spec2, specgap, specmass, specdirac, SPECS, BNDS, make, reg


def density(H, spec, diracs=()):
    """the density as a piecewise constant function; diracs: points within the support (at knots of the pieces)"""
    pdf = PiecewiseFunction()
    xs = [p[0] for p in spec.pieces] + [spec.pieces[-1][1]] if spec.pieces else []
    left = spec.pieces[0][0] if spec.pieces else spec.atoms[0][0]
    pdf.append(ContinuousSet(-H.inf, left, EXC, EXC), ConstantFunction(0.))
    last = left

    def impulse(x):
        e = H.succ(x)
        pdf.append(ContinuousSet(x, e, INC, EXC), ConstantFunction(H.inf))
        return e

    todo = list(spec.atoms)
    for lo, hi, w in spec.pieces:
        a = lo
        if todo and todo[0][0] is lo:
            todo.pop(0)
            a = impulse(lo)
        pdf.append(ContinuousSet(a, hi, INC, EXC), ConstantFunction(w / (hi - lo) if not (isinstance(w, float) and w == 0) else 0.))
        last = hi
    while todo:
        x = todo.pop(0)[0]
        if not x is last:
            pdf.append(ContinuousSet(last, x, INC, EXC), ConstantFunction(0.))
        last = impulse(x)
    pdf.append(ContinuousSet(last, H.inf, INC, EXC), ConstantFunction(0.))
    return pdf


def agrees(H, d, spec, label, lo=-9., hi=9., tol=None):
    """the distribution has the CDF of the Spec at an arbitrary number"""
    z = H.float('z', lo, hi)
    for k in spec.knots():
        H.assume(H.any(z == k, z - k >= 1e-3, k - z >= 1e-3))
    H.close(value_at(H, d.cdf, z, label), spec.cdf(z), label, tol=tol)


# ---------------------------------------------------------------- densities
def from_density(H, s):
    d, spec = make(H, s, eps=False)
    r = Numeric().set(QuantileDistribution.from_pdf(density(H, spec) if H.flag() else d.pdf.copy()))
    valid(H, r)
    agrees(H, r, spec, 'cdf of a density')


reg('D09', 'from-density', from_density, ('1', '2', 'gap', 'mass'), 'from its density')


def a_dirac(H):
    x = H.float('x', -4., 4.)
    return Spec([], [(x, 1.)])


@case('D09', 'from-density-dirac', 'real', bound='an impulse anywhere, from its density')
def dens_dirac(H):
    spec = a_dirac(H)
    q = QuantileDistribution.dirac(spec.atoms[0][0])
    r = Numeric().set(QuantileDistribution.from_pdf(density(H, spec) if H.flag() else q.pdf.copy()))
    valid(H, r)
    H.check(r.is_dirac_impulse(), 'an impulse')
    agrees(H, r, spec, 'cdf of a density')


@case('D09', 'from-density-diracs', 'real', bound='two or three impulses with arbitrary weights, or without weights')
def dens_diracs(H):
    n = H.choice((2, 3))
    xs = knots(H, 'x', n, -4., 4., W)
    ws = [H.float('w%d' % i, 1. / 16, 1.) for i in range(n)]
    if H.flag():
        ws, arg = [1. / n] * n, None
    else:
        arg = list(ws)
        z = psum(ws)
        ws = [w / z for w in ws]
    spec = Spec([], list(zip(xs, ws)))
    cdf = QuantileDistribution.pdf_to_cdf(density(H, spec), arg)
    r = Numeric().set(QuantileDistribution.from_cdf(cdf))
    valid(H, r)
    agrees(H, r, spec, 'cdf of impulses', tol=1e-3)


@case('D09', 'from-density-mixed', 'real', bound='a density with impulses before, within or behind it, arbitrary weights')
def dens_mixed(H):
    a, b, c = knots(H, 'x', 3, -4., 4., W)
    p = H.float('p', 1. / 16, 15. / 16)
    how = H.choice(('before', 'within', 'behind', 'both'))
    if how == 'both':
        q = H.float('q', 1. / 16, 1.)
        spec = Spec([(a, b, p)], [(a, (1. - p) * q), (c, (1. - p) * (1. - q))])
        arg = [q, 1. - q]
        H.assume(q <= 15. / 16)
    else:
        x = dict(before=a, within=b, behind=c)[how]
        spec = Spec([(a, b, p * .25), (b, c, p * .75)], [(x, 1. - p)])
        arg = H.choice((None, [1.], [3.]))
    cdf = QuantileDistribution.pdf_to_cdf(density(H, spec), arg)
    r = Numeric().set(QuantileDistribution.from_cdf(cdf))
    valid(H, r)
    agrees(H, r, spec, 'cdf of a density with impulses', tol=1e-3)


@case('D09', 'not-normalised', 'real', bound='constant densities of any mass')
def unnormalised(H):
    a, b = knots(H, 'x', 2, -4., 4., W)
    m = H.float('m', 1. / 16, 3.)
    H.assume(H.any(m <= 1., m >= 1.001))
    pdf = density(H, Spec([(a, b, m)]))
    try:
        cdf = QuantileDistribution.pdf_to_cdf(pdf)
    except ValueError:
        H.check(m > 1., 'density is rejected')
        return
    H.check(m <= 1., 'density of too much mass is accepted')
    r = Numeric().set(QuantileDistribution.from_cdf(cdf))
    valid(H, r)
    agrees(H, r, Spec([(a, b, 1.)]), 'normalised density')


# ---------------------------------------------------------------- sums
def overlap(a, b, c, d, z):
    """P(X + Y <= z) for X uniform in [a, b], Y uniform in [c, d]"""
    r = 0.
    for s, x in ((1., a + c), (-1., a + d), (-1., b + c), (1., b + d)):
        if z > x:
            r = r + s * (z - x) * (z - x)
    return r * .5 / ((b - a) * (d - c))


def at_knots(H, r, s, t, label):
    """the distribution of the sum at every sum of knots"""
    xs = sorted(set(p[i] for p in s.pieces for i in (0, 1)), key=float) if False else None
    ks = [p[0] for p in s.pieces] + [s.pieces[-1][1]]
    js = [p[0] for p in t.pieces] + [t.pieces[-1][1]]
    z = H.choice(ks) + H.choice(js)
    want = 0.
    for a, b, p in s.pieces:
        for c, d, q in t.pieces:
            want = want + p * q * overlap(a, b, c, d, z)
    H.close(value_at(H, r.cdf, z, label), want, label, tol=1e-3)


def add(H, s, t):
    d, e = Numeric().set(quantile(H, s)), Numeric().set(quantile(H, t))
    sd, se = snapq(d), snapq(e)
    r = d + e if H.flag() else e + d
    valid(H, r)
    at_knots(H, r, s, t, 'sum of two distributions')
    same_cdf(H, d, sd, 'the first summand is modified')
    same_cdf(H, e, se, 'the second summand is modified')


@case('D09', 'add-boxes', 'real', bound='two uniform distributions', weight=2)
def add_boxes(H):
    a, w = H.float('a', -4., 4.), H.choice((1., 3.))
    b, v = H.float('b', -4., 4.), H.choice((.5, 1., 2.))
    add(H, Spec([(a, a + w, 1.)]), Spec([(b, b + v, 1.)]))


@case('D09', 'add-masses', 'real', bound='a distribution of two pieces of arbitrary masses and a uniform one', weight=2)
def add_masses(H):
    a, p = H.float('a', -4., 4.), H.float('p', 1. / 16, 15. / 16)
    gap = H.flag()
    s = Spec([(0., 1., p), (1., 3., 1. - p)]) if not gap else Spec([(0., 1., p), (1., 3., 0.), (3., 4., 1. - p)])
    add(H, s, Spec([(a, a + 1., 1.)]))


def add_dirac(H, s):
    d, spec = make(H, s, eps=False)
    x = H.float('shift', -4., 4.)
    e = Numeric().create_dirac_impulse(x)
    sd = snapq(d)
    r = d + e if H.flag() else e + d
    valid(H, r)
    same_cdf(H, d, sd, 'the first summand is modified')
    agrees(H, r, Spec([(a + x, b + x, w) for a, b, w in spec.pieces], [(a + x, w) for a, w in spec.atoms]), 'shifted distribution', tol=1e-3)


reg('D09', 'add-dirac', add_dirac, ('1', '2', 'gap', 'mass', 'dirac'), 'plus a constant')


@case('D09', 'cumsum', 'real', bound='two or three distributions: uniform ones of unit length and impulses')
def cumsum(H):
    kinds = H.choice((('u', 'd'), ('d', 'u'), ('u', 'u'), ('d', 'd'), ('u', 'd', 'd'), ('d', 'u', 'd')))
    ds, xs = [], []
    for i, k in enumerate(kinds):
        x = H.float('x%d' % i, -4., 4.)
        xs.append(x)
        ds.append(Numeric().create_dirac_impulse(x) if k == 'd' else Numeric().set(quantile(H, Spec([(x, x + 1., 1.)]))))
    rs = list(Numeric.cumsum(ds, n_segments=9))
    H.check(len(rs) == len(ds), 'a sum for every distribution')
    off, u = 0., 0
    for r, k, x in zip(rs, kinds, xs):
        off = off + x
        u += k == 'u'
        valid(H, r)
        if u == 0:
            H.close(r.expectation(), off, 'sum of constants')
        else:
            H.close(value_at(H, r.cdf, off, 'sum'), 0., 'least value of a sum', tol=1e-3)
            H.close(value_at(H, r.cdf, off + .5 * u, 'sum'), .5, 'median of a sum', tol=1e-3)
            H.close(value_at(H, r.cdf, off + u, 'sum'), 1., 'greatest value of a sum', tol=1e-3)
            if u == 1:
                H.close(value_at(H, r.cdf, off + .25, 'sum'), .25, 'quartile of a sum', tol=1e-3)


# ---------------------------------------------------------------- approximation
def approximate(H, s):
    d, spec = make(H, s, eps=False)
    sd = snapq(d)
    n = H.choice((3, 4, 9))
    r = d.approximate(n_segments=n)
    valid(H, r)
    same_cdf(H, d, sd, 'the distribution is modified')
    H.check(len(r.cdf) <= max(n, 3), 'pieces of an approximation')
    lo, hi = spec.pieces[0][0], spec.pieces[-1][1]
    H.close(value_at(H, r.cdf, lo, 'approximation'), 0., 'left end of an approximation', tol=1e-3)
    H.close(value_at(H, r.cdf, hi, 'approximation'), 1., 'right end of an approximation', tol=1e-3)
    if n >= len(spec.pieces) + 2 or n == 9:
        agrees(H, r, spec, 'nothing to approximate', tol=1e-3)
    H.check(r.settings == d.settings, 'settings')


reg('D09', 'approximate', approximate, ('1', '2', 'gap', 'mass'), 'at most 3, 4 or 9 pieces')


# ---------------------------------------------------------------- closing gaps
def fragments(H, s):
    d, spec = make(H, s)
    n = H.choice((1, 5, 100))
    lo, hi = spec.pieces[0][0], d.cdf.intervals[-1].lower
    which = H.choice(('left', 'right', 'both'))
    left = right = None
    new = []
    k = .5 if which == 'both' else 1.
    if which != 'right':
        a = H.float('l', -8., 8.)
        H.assume(a <= lo - W)
        left = ContinuousSet(a, lo)
        new.append((a, lo, k / (2. * n)))
    if which != 'left':
        b = H.float('r', -8., 8.)
        H.assume(b >= hi + W)
        right = ContinuousSet(hi, b)
        new.append((hi, b, k / (2. * n)))
    d.insert_convex_fragments(left, right, n)
    valid(H, d)
    w = 1. - 1. / (2. * n)
    agrees(H, d, Spec([(p, q, m * w) for p, q, m in spec.pieces] + new), 'with uniform fragments', tol=1e-3)


reg('D09', 'fragments', fragments, ('1', '2', 'gap', 'mass'), 'extended to the left, to the right or both')
