"""D03-D08 numeric distributions"""
from harness import case
from nums import *
from dsts import probs, psum


def spec1(H, name='x'):
    a, b = knots(H, name, 2, -4., 4., W)
    return Spec([(a, b, 1.)])


def spec2(H, name='x', ws=None):
    a, b, c = knots(H, name, 3, -4., 4., W)
    w = H.choice((.25, .5)) if ws is None else ws
    return Spec([(a, b, w), (b, c, 1. - w)])


def specgap(H, name='x'):
    a, b, c, d = knots(H, name, 4, -4., 4., W)
    return Spec([(a, b, .5), (b, c, 0.), (c, d, .5)])


def specmass(H, name='w', n=3):
    """fixed knots, arbitrary masses"""
    ws = probs(H, name, n)
    xs = [-1., 0., 2., 3., 3.5][:n + 1]
    ps = []
    for lo, hi, w in zip(xs, xs[1:], ws):
        ps.append((lo, hi, 0. if w == 0 else w))
    while ps[0][2] == 0.:
        ps.pop(0)
    while ps[-1][2] == 0.:
        ps.pop()
    return Spec(ps)


def specdirac(H, name='x'):
    return Spec([], [(H.float(name + '0', -4., 4.), 1., 0)])


def specatom(H, name='x'):
    """a density with an atom before, within or behind it; atoms carry the index of the piece they precede (9: behind the last)"""
    a, b, c = knots(H, name, 3, -4., 4., W)
    k = H.choice((0, 1, 2, 3))
    if k == 0:
        return Spec([(a, b, .5)], [(a, .5, 0)])
    if k == 1:
        return Spec([(a, b, .25), (b, c, .25)], [(b, .5, 1)])
    if k == 2:
        return Spec([(a, b, .75), (b, c, 0.)], [(c, .25, 9)])
    return Spec([(a, b, 0.)], [(a, .75, 0), (b, .25, 9)])


def strip(s):
    return Spec(s.pieces, [(a[0], a[1]) for a in s.atoms])


def make(H, fn, eps=None):
    s = fn(H)
    e = H.flag() if eps is None and s.pieces and not any(a[2] == 9 for a in s.atoms) else bool(eps)
    return Numeric().set(quantile(H, s, e)), strip(s)


SPECS = (('1', spec1), ('2', spec2), ('gap', specgap), ('mass', specmass), ('dirac', specdirac), ('atom', specatom))
BNDS = {'1': 'one uniform piece', '2': 'two pieces, arbitrary knots', 'gap': 'two pieces with a gap, arbitrary knots',
        'mass': 'three pieces with arbitrary masses', 'dirac': 'all mass on one number',
        'atom': 'a density with atoms before, within or behind it'}


def reg(prop, name, fn, specs=('1', '2', 'gap', 'mass', 'dirac', 'atom'), bound='', **kw):
    for n, s in SPECS:
        if n in specs:
            def h(H, fn=fn, s=s):
                fn(H, s)
            case(prop, '%s-%s' % (name, n), 'real', bound=BNDS[n] + (', ' + bound if bound else ''), **kw)(h)


# ---------------------------------------------------------------- probabilities of intervals, cropping
def probability(H, s):
    d, spec = make(H, s)
    sn = snapq(d)
    a, b, l, r = event(H)
    got = d.p(ContinuousSet(a, b, l, r))
    H.close(got, spec.p(a, b, l, r), 'probability of an interval')
    H.observe('p', got)
    same_cdf(H, d, sn, 'unchanged')


def probability_point(H, s):
    d, spec = make(H, s)
    x = H.float('x', -5., 5.)
    H.close(d.p(x), spec.cdf(x) - spec.below(x), 'probability of a number')
    H.close(d.p(ContinuousSet(x, x)), spec.cdf(x) - spec.below(x), 'probability of a number')
    H.close(d.p(R), 1., 'everything')
    H.close(value_at(H, d.cdf, x, 'cdf'), spec.cdf(x), 'cdf')


def probability_sets(H, s):
    d, spec = make(H, s, eps=False)
    a, b, c, e = knots(H, 'q', 4, -5., 5., W)
    got = d.p(RealSet([ContinuousSet(a, b), ContinuousSet(c, e, EXC, INC)]))
    H.close(got, spec.p(a, b) + spec.p(c, e, EXC, INC), 'probability of a set')
    H.le(got, 1., 'at most 1')


def crop(H, s):
    d, spec = make(H, s)
    sn = snapq(d)
    a, b, l, r = event(H)
    z = spec.p(a, b, l, r)
    # the claim leaves out events whose probability is positive but tiny
    H.assume(H.any(z == 0, z >= 2. ** -7))
    try:
        c = d.crop(ContinuousSet(a, b, l, r))
    except Unsatisfiability:
        c = None
    same_cdf(H, d, sn, 'unchanged')
    if c is None:
        H.check(z == 0, 'only impossible evidence is rejected')
        return
    valid(H, c)
    x = H.float('x', -5., 5.)
    H.assume(H.all(*[H.any(x - k >= 2. ** -10, k - x >= 2. ** -10) for k in spec.knots() + [a, b] if not isinstance(k, float) or abs(k) < 1e9]))
    got = value_at(H, c.cdf, x, 'cdf')
    if z == 0:
        # touching the closed support: all mass on the common point
        for k in spec.knots():
            H.assume(H.any(a - k >= W, k - a >= W, a == k))
            H.assume(H.any(b - k >= W, k - b >= W, b == k))
        H.check(H.any(*[H.any(H.all(a == k, l == INC), H.all(b == k, r == INC)) for k in spec.knots()]), 'impossible evidence is rejected')
        return
    H.close(got * z, spec.p(a, x, l, INC) if x < b else z, 'conditional distribution')
    H.observe('F', got)


def crop_point(H, s):
    d, spec = make(H, s)
    sn = snapq(d)
    x = H.float('x', -5., 5.)
    for k in spec.knots():
        H.assume(H.any(x - k >= W, k - x >= W, x == k))
    possible = H.any(spec.density(x) > 0, spec.cdf(x) > spec.below(x))
    edge = H.any(*[x == k for k in spec.knots()])
    whole = H.flag()
    try:
        c = d.crop(x if whole else ContinuousSet(x, x))
    except Unsatisfiability:
        c = None
    same_cdf(H, d, sn, 'unchanged')
    if c is None:
        H.check(H.any(H.neg(possible), edge), 'only impossible evidence is rejected')
        H.check(spec.cdf(x) - spec.below(x) == 0, 'only impossible evidence is rejected')
        return
    H.check(H.any(possible, edge), 'impossible evidence is rejected')
    valid(H, c)
    H.close(c.p(x), 1., 'all mass on the number')


def crop_sets(H, s):
    d, spec = make(H, s, eps=False)
    sn = snapq(d)
    a, b, c, e = knots(H, 'q', 4, -5., 5., W)
    z1, z2 = spec.p(a, b), spec.p(c, e)
    H.assume(H.any(z1 == 0, z1 >= 2. ** -7))
    H.assume(H.any(z2 == 0, z2 >= 2. ** -7))
    for q in (a, b, c, e):
        for k in spec.knots():
            H.assume(H.any(q - k >= W, k - q >= W))
    z = z1 + z2
    try:
        m = d.crop(RealSet([ContinuousSet(a, b), ContinuousSet(c, e)]))
    except Unsatisfiability:
        m = None
    same_cdf(H, d, sn, 'unchanged')
    if m is None:
        H.check(z == 0, 'only impossible evidence is rejected')
        return
    H.check(z > 0, 'impossible evidence is rejected')
    valid(H, m)
    x = H.float('x', -5., 5.)
    H.assume(H.all(*[H.any(x - k >= 2. ** -10, k - x >= 2. ** -10) for k in spec.knots() + [a, b, c, e]]))
    ref = spec.p(a, x if x < b else b) + spec.p(c, x if x < e else e)
    H.close(value_at(H, m.cdf, x, 'cdf') * z, ref, 'conditional distribution')


reg('D04', 'probability', probability)
reg('D04', 'point', probability_point)
reg('D04', 'sets', probability_sets, ('1', 'gap', 'mass', 'dirac'))
reg('D04', 'crop', crop)
reg('D04', 'crop-point', crop_point)
reg('D04', 'crop-sets', crop_sets, ('1', 'gap', 'mass', 'dirac'))


# ---------------------------------------------------------------- fitting
def ecdf(xs, x):
    """the points the fitted CDF approximates: (number of values <= x - 1) / (n - 1)"""
    k = psum([1. if v <= x else 0. for v in xs])
    return (k - 1.) / (len(xs) - 1.)


def fitted(H, xs, precision, cols=1, col=0, rows=None):
    data = H.array([[x] * (col + 1) if cols == 1 else [0.] * col + [x] + [0.] * (cols - col - 1) for x in xs])
    return Numeric(precision=precision).fit(data, rows=H.intarray(range(len(xs)) if rows is None else rows), col=col)


def distinct(xs):
    out = []
    for x in xs:
        if not any(x == y for y in out):
            out.append(x)
    return out


def table(H, n):
    """n rows: arbitrary numbers that are equal or at least 1/8 apart"""
    xs = [H.float('r%d' % i, -4., 4.) for i in range(n)]
    for i in range(n):
        for j in range(i):
            H.assume(H.any(xs[i] == xs[j], xs[i] - xs[j] >= .125, xs[j] - xs[i] >= .125))
    return xs


def check_fit(H, d, xs, tol, label=''):
    valid(H, d, label + 'valid distribution')
    ds = distinct(xs)
    lo = hi = xs[0]
    for x in ds:
        lo = x if x < lo else lo
        hi = x if x > hi else hi
    H.close(value_at(H, d.cdf, H.pred(lo), 'cdf'), 0., label + 'nothing below the smallest value')
    H.close(value_at(H, d.cdf, H.succ(hi), 'cdf'), 1., label + 'nothing above the largest value')
    H.close(d.p(ContinuousSet(lo, hi)), 1., label + 'all mass within the data')
    if len(ds) == 1:
        H.close(d.p(lo), 1., label + 'all mass on the only value')
        H.check(d.is_dirac_impulse(), label + 'all mass on the only value')
        return
    for x in ds:
        H.close(value_at(H, d.cdf, x, 'cdf'), ecdf(xs, x), label + 'empirical distribution', tol=tol)


def fit(H, n, precision):
    xs = table(H, n)
    d = fitted(H, xs, precision)
    check_fit(H, d, xs, None if not precision else precision * n ** .5 + 1e-3)
    H.observe('cdf', len(d.cdf.intervals))


@case('D03', 'fit-1-2', 'real', bound='1 or 2 rows of arbitrary numbers, precision 0 or 0.01')
def fit12(H):
    fit(H, H.choice((1, 2)), H.choice((0., .01)))


@case('D03', 'fit-3', 'real', bound='3 rows of arbitrary numbers (equal or 1/8 apart), precision 0')
def fit3(H):
    fit(H, 3, 0.)


@case('D03', 'fit-3-precision', 'real', bound='3 rows of arbitrary numbers (equal or 1/8 apart), precision 0.01 or 0.25')
def fit3p(H):
    fit(H, 3, H.choice((.01, .25)))


def table_int(H, n, k):
    return [H.int('r%d' % i, 0, k - 1) * 1. for i in range(n)]


@case('D03', 'fit-4-grid', 'real', bound='4 rows of the numbers 0..5, precision 0 or 0.1')
def fit4(H):
    p = H.choice((0., .1))
    xs = concrete(H, table_int(H, 4, 6))
    d = fitted(H, xs, p)
    check_fit(H, d, xs, None if not p else p * 2. + 1e-3)


def concrete(H, xs):
    """one path per value"""
    out = []
    for x in xs:
        k = 0.
        while not x == k:
            k += 1.
        out.append(k)
    return out


@case('D03', 'fit-5-grid', 'real', bound='5 rows of the numbers 0..3 in ascending order, precision 0, 0.05 or 0.2')
def fit5(H):
    p = H.choice((0., .05, .2))
    xs = table_int(H, 5, 4)
    for a, b in zip(xs, xs[1:]):
        H.assume(a <= b)
    xs = concrete(H, xs)
    d = fitted(H, xs, p)
    check_fit(H, d, xs, None if not p else p * 5 ** .5 + 1e-3)


@case('D03', 'rows', 'real', bound='3 rows of 2 columns, every selection of 1 to 3 rows in any order, arbitrary numbers')
def fit_rows(H):
    xs = table(H, 3)
    col = H.choice((0, 1))
    rows = H.choice(((0,), (2,), (1, 0), (0, 2), (2, 1), (2, 0, 1), (1, 1, 0)))
    d = fitted(H, xs, 0., cols=2, col=col, rows=rows)
    sel = [xs[r] for r in rows]
    check_fit(H, d, sel, None, 'selected rows: ')


@case('D03', 'order', 'real', bound='3 rows in two orders')
def fit_order(H):
    xs = table(H, 3)
    perm = H.choice(((1, 0, 2), (2, 1, 0), (1, 2, 0)))
    d, e = fitted(H, xs, 0.), fitted(H, [xs[i] for i in perm], 0.)
    same_cdf(H, d, snapq(e), 'the order of the rows does not matter')
    H.check(d == e, 'the order of the rows does not matter')


# ---------------------------------------------------------------- merging, updating
def weight(H, n='w'):
    w = H.float(n, 0., 1.)
    H.assume(H.any(w == 0, w == 1, H.all(w >= 1. / 64, w <= 63. / 64)))
    return w


def away(H, x, ks, gap=2. ** -10):
    for k in ks:
        H.assume(H.any(x - k >= gap, k - x >= gap))


def mixture(H, s, t, e1=False, e2=False, x_fixed=None):
    d, sd = make(H, lambda H: s(H, 'x'), e1)
    e, se = make(H, lambda H: t(H, 'y'), e2)
    s1, s2 = snapq(d), snapq(e)
    w = weight(H)
    # ends of pieces of the two coincide or are apart
    for k in sd.knots():
        for l in se.knots():
            H.assume(H.any(k == l, k - l >= W, l - k >= W))
    if H.flag():
        m = Numeric.merge([d, e], [1. - w, w])
        same_cdf(H, d, s1, 'unchanged')
    else:
        m = d.update(e, w)
    same_cdf(H, e, s2, 'unchanged')
    valid(H, m)
    x = H.float('q', -5., 5.)
    away(H, x, sd.knots() + se.knots())
    H.close(value_at(H, m.cdf, x, 'cdf'), (1. - w) * sd.cdf(x) + w * se.cdf(x), 'weighted mean')


for _n, _s, _t in (('1-1', spec1, spec1), ('1-dirac', spec1, specdirac), ('dirac-1', specdirac, spec1), ('dirac-dirac', specdirac, specdirac),
                   ('2-1', spec2, spec1), ('gap-dirac', specgap, specdirac), ('mass-1', specmass, spec1), ('mass-mass', None, None)):
    def _h(H, s=_s, t=_t, n=_n):
        if s is None:
            mixture(H, lambda H, n: specmass(H, n, 2), lambda H, n: specmass(H, n, 2))
        else:
            mixture(H, s, t, e1=s is not specdirac and H.flag())
    case('D05', 'mixture-' + _n, 'real', bound='merge and update, distributions: %s, every weight (0, 1 or 1/64 .. 63/64)' % _n)(_h)


@case('D05', 'mixture-3', 'real', bound='merge of three distributions with fixed bounds (touching, overlapping, nested, impulses), every weight vector')
def mixture3(H):
    specs = H.choice((
        (Spec([(0., 1., 1.)]), Spec([(1., 2., 1.)]), Spec([(2., 3., 1.)])),
        (Spec([(0., 3., 1.)]), Spec([(1., 2., 1.)]), Spec([(2., 4., 1.)])),
        (Spec([(0., 2., 1.)]), Spec([(0., 2., 1.)]), Spec([(-1., 5., 1.)])),
        (Spec([(0., 2., 1.)]), Spec([], [(0., 1., 0)]), Spec([], [(2., 1., 0)])),
        (Spec([(0., 2., 1.)]), Spec([], [(1., 1., 0)]), Spec([], [(1., 1., 0)])),
        (Spec([], [(0., 1., 0)]), Spec([], [(1., 1., 0)]), Spec([], [(2., 1., 0)])),
    ))
    ws = probs(H, 'w', 3)
    ds = [Numeric().set(quantile(H, s)) for s in specs]
    perm = H.choice(((0, 1, 2), (2, 0, 1), (1, 2, 0), (2, 1, 0)))
    m = Numeric.merge([ds[i] for i in perm], [ws[i] for i in perm])
    valid(H, m)
    x = H.float('q', -5., 5.)
    away(H, x, [float(k) for k in range(-1, 6)])
    H.close(value_at(H, m.cdf, x, 'cdf'), psum(w * strip(s).cdf(x) for s, w in zip(specs, ws)), 'weighted mean')
    y = float(H.choice((0, 1, 2)))
    H.close(m.p(y), psum(w * (strip(s).cdf(y) - strip(s).below(y)) for s, w in zip(specs, ws)), 'weighted mean: number')


# ---------------------------------------------------------------- quantile function, sampling
def ppf(H, s):
    d, spec = make(H, s)
    sn = snapq(d)
    q = H.float('q', 0., 1.)
    v = value_at(H, d.ppf, q, 'quantile function')
    H.check(H.neg(H.is_nan(v)), 'defined on [0, 1]')
    H.le(q, value_at(H, d.cdf, v, 'cdf'), 'quantile: at most v')
    H.le(spec.below(v), q, 'quantile: below v')
    ks = spec.knots()
    lo, hi = ks[0], spec.last()
    for k in ks:
        lo = k if k < lo else lo
    H.le(lo, v, 'within the support')
    H.le(v, hi, 'within the support')
    H.close(d.quantile(q), v, 'quantile')
    same_cdf(H, d, sn, 'unchanged')
    for o in (H.float('u', 0., 1.),):
        H.assume(o <= q)
        H.le(value_at(H, d.ppf, o, 'quantile function'), v, 'monotone')
    for o in (-.25, 1.25):
        i = d.ppf.idx_at(o)
        H.check(i == -1 or H.is_nan(d.ppf.functions[i].eval(o)), 'undefined elsewhere')


reg('D06', 'ppf', ppf)


class Rng:
    """replaces numpy's random numbers by chosen ones"""
    def __init__(self, H):
        self.H, self.log = H, []
        import jpt.distributions.quantile.quantiles as q
        import jpt.base.intervals as i
        self.mods = [q.np, i.np] if q.np is not i.np else [q.np]

    def choice(self, a, size=None, replace=True, p=None):
        H = self.H
        a, p = list(a), list(p)
        H.check(len(a) == len(p), 'sampling: as many weights as pieces')
        H.close(psum(p), 1., 'sampling: weights sum to 1', tol=1e-6)
        for w in p:
            H.check(w >= 0, 'sampling: weights are not negative')
        k = H.choice(range(len(p)))
        H.assume(p[k] > 0)
        self.log.append((k, p))
        return H.intarray([a[k]])

    def uniform(self, lo=0., hi=1., size=None):
        H = self.H
        if size is not None and size == 0:
            return H.array([])
        u = H.float('u%d' % len(self.log), 0., 1.)
        H.assume(u < 1)
        self.log.append((u, lo, hi))
        return H.array([lo + u * (hi - lo)])

    def __enter__(self):
        class R:
            choice, uniform = self.choice, self.uniform
        self.old = []
        for m in self.mods:
            self.old.append(m.random)
            m.random = R
        return self

    def __exit__(self, *a):
        for m, o in zip(self.mods, self.old):
            m.random = o


def sampling(H, s):
    d, spec = make(H, s)
    with Rng(H) as rng:
        v = d._sample(1)[0]
    x = H.float('x', -5., 5.)
    away(H, x, spec.knots())
    # probability that the sample is at most x, from the weights and ranges that were used
    if not rng.log:
        H.check(v == spec.knots()[0], 'sampling: the only value')
        return
    k, p = rng.log[0]
    u, lo, hi = rng.log[1]
    H.close(v, lo + u * (hi - lo), 'sampling: the drawn number')
    H.check(H.any(spec.cdf(hi) - spec.below(lo) > 0), 'sampling: from the support')
    H.close(spec.cdf(hi) - spec.below(lo) if lo == hi else spec.below(hi) - spec.cdf(lo), p[k], 'sampling: weight of the piece')
    if lo < hi:
        mid = (lo + hi) * .5
        H.close((spec.cdf(mid) - spec.cdf(lo)) * 2., p[k], 'sampling: evenly within the piece')


reg('D06', 'sampling', sampling)


# ---------------------------------------------------------------- moments, modes
def moments(H, s):
    d, spec = make(H, s)
    sn = snapq(d)
    H.close(d.moment(0, 0.), 1., 'zeroth moment')
    mu = d.expectation()
    H.close(mu, spec.mean(), 'expectation')
    c = H.float('c', -2., 2.)
    H.close(d.moment(1, c), spec.mean() - c, 'first moment about a point')
    m2 = psum([w * (lo * lo + lo * hi + hi * hi) / 3. for lo, hi, w in spec.pieces] + [w * a * a for a, w in spec.atoms])
    H.close(d.moment(2, 0.), m2, 'second moment')
    var = d.variance()
    H.close(var, m2 - spec.mean() * spec.mean(), 'variance')
    H.le(0., var, 'variance is not negative')
    same_cdf(H, d, sn, 'unchanged')


reg('D07', 'moments', moments)


@case('D07', 'divergence', 'real', bound='two distributions: uniform, with a gap, impulses')
def divergence(H):
    s, t = H.choice(((spec1, spec1), (spec1, specdirac), (specdirac, spec1), (specdirac, specdirac), (specgap, spec1)))
    d, sd = make(H, lambda H: s(H, 'x'), False)
    e, se = make(H, lambda H: t(H, 'y'), False)
    s1, s2 = snapq(d), snapq(e)
    for k in sd.knots():
        for l in se.knots():
            H.assume(H.any(k == l, k - l >= W, l - k >= W))
    H.close(d.kl_divergence(d), 0., 'a distribution does not differ from itself')
    k = d.kl_divergence(e)
    H.le(0., k, 'a divergence is not negative')
    if s is spec1 and t is spec1:
        (a, b, _), (p, q, _) = sd.pieces[0], se.pieces[0]
        H.iff(k >= 1e-9, not H.all(a == p, b == q), 'different distributions diverge')
    elif s is specdirac and t is specdirac:
        H.iff(k >= 1e-9, sd.atoms[0][0] != se.atoms[0][0], 'different distributions diverge')
    same_cdf(H, d, s1, 'unchanged')
    same_cdf(H, e, s2, 'unchanged')


SCALED = NumericType('SCALED', [1., 2., 6.])
SC2 = NumericType('SC2', [-8., 8.])


def moments_scaled(H, s):
    """moments of the labels of a variable whose values are standardised"""
    t = H.choice((SCALED, SC2))
    raw = s(H, 'x')
    spec = Spec(raw.pieces, [a[:2] for a in raw.atoms])
    d = t().set(quantile(H, Spec([(t.label2value(a), t.label2value(b), w) for a, b, w in raw.pieces],
                                 [(t.label2value(a), w, k) for a, w, k in raw.atoms])))
    H.close(d.moment(0, 0.), 1., 'zeroth moment')
    mu = spec.mean()
    H.close(d.expectation(), mu, 'expectation of the labels')
    m2 = psum([w * (lo * lo + lo * hi + hi * hi) / 3. for lo, hi, w in spec.pieces] + [w * a * a for a, w in spec.atoms])
    c = H.float('c', -2., 2.)
    H.close(d.moment(1, c), mu - c, 'first moment about a label')
    H.close(d.moment(2, c), m2 - 2. * c * mu + c * c, 'second moment about a label')
    H.close(d.variance(), m2 - mu * mu, 'variance of the labels')
    vm = t.label2value(mu)
    H.close(d._expectation(), vm, 'expectation of the values')
    k = t.label2value(1.) - t.label2value(0.)
    H.close(d._variance(), (m2 - mu * mu) * k * k, 'variance of the values')


def modes(H, s):
    d, spec = make(H, s)
    sn = snapq(d)
    state, p = d.mpe()
    same_cdf(H, d, sn, 'unchanged')
    x = H.float('x', -5., 5.)
    away(H, x, spec.knots())
    if not spec.pieces:
        H.check(p == H.inf, 'impulse')
        H.check(spec.knots()[0] in state, 'impulse')
        H.check(x not in state, 'impulse')
        return
    dens = spec.density(x)
    H.le(dens, p, 'nothing is more likely')
    if x in state:
        H.close(dens, p, 'states have the maximal density')
    else:
        H.check(dens < p + 1e-9, 'all states')
        H.check(H.neg(dens == p) if isinstance(dens, float) and isinstance(p, float) else True, 'all states')
    ks = d.k_mpe()
    H.check(len(ks) >= 1, 'k_mpe')
    H.check(ks[0][1] == p, 'k_mpe: starts with the mode')
    for (s1, p1), (s2, p2) in zip(ks, ks[1:]):
        H.check(p1 > p2, 'k_mpe: descending')
    found = 0
    for st, q in ks:
        if x in st:
            found += 1
            H.close(dens, q, 'k_mpe: likelihood')
    H.check(found == (1 if dens > 0 else 0), 'k_mpe: every possible state once')
    k = H.choice((1, 2))
    H.check(len(d.k_mpe(k)) == min(k, len(ks)), 'k_mpe: at most k')


reg('D07', 'moments-scaled', moments_scaled, ('1', 'gap', 'mass', 'dirac'))
reg('D07', 'modes', modes, ('1', '2', 'gap', 'mass', 'dirac'))


def similarity(H, s, t):
    d, sd = make(H, lambda H: s(H, 'x'), False)
    e, se = make(H, lambda H: t(H, 'y'), False)
    for k in sd.knots():
        for l in se.knots():
            H.assume(H.any(k == l, k - l >= W, l - k >= W))
    a = Numeric.jaccard_similarity(d, e)
    b = Numeric.jaccard_similarity(e, d)
    H.close(a, b, 'symmetric')
    H.le(0., a, 'between 0 and 1')
    H.le(a, 1., 'between 0 and 1')
    H.close(Numeric.jaccard_similarity(d, d), 1., 'similar to itself')
    # overlap of the masses
    if not sd.pieces and not se.pieces:
        H.close(a, 1. if sd.knots()[0] == se.knots()[0] else 0., 'overlap')
    elif len(sd.pieces) == 1 and len(se.pieces) == 1:
        (a0, a1, _), (b0, b1, _) = sd.pieces[0], se.pieces[0]
        lo, hi = (a0 if a0 > b0 else b0), (a1 if a1 < b1 else b1)
        wide = a1 - a0 if a1 - a0 > b1 - b0 else b1 - b0
        i = (hi - lo) / wide if hi > lo else 0.
        H.close(a * (2. - i), i, 'overlap')


for _n, _s, _t in (('1-1', spec1, spec1), ('1-dirac', spec1, specdirac), ('dirac-dirac', specdirac, specdirac)):
    case('D07', 'similarity-' + _n, 'real', bound='two distributions: ' + _n)(lambda H, s=_s, t=_t: similarity(H, s, t))


# ---------------------------------------------------------------- serialisation, labels
def roundtrip(H, s):
    d, spec = make(H, s)
    d.fit_settings = None
    sn = snapq(d)
    how = H.choice(('json', 'pickle', 'copy', 'quantile-json', 'quantile-copy', 'dist-pickle', 'deepcopy'))
    if how == 'json':
        e = Numeric.from_json(H.json(d.to_json()))
    elif how == 'pickle':
        e = Numeric().set(H.pickle(d._quantile))
    elif how == 'copy':
        e = d.copy()
    elif how == 'dist-pickle':
        e = H.pickle(d)
    elif how == 'deepcopy':
        e = H.deepcopy(d)
    elif how == 'quantile-json':
        e = Numeric().set(QuantileDistribution.from_json(H.json(d._quantile.to_json())))
    else:
        e = Numeric().set(d._quantile.copy())
    same_cdf(H, e, sn, how + ': same distribution')
    H.check(d == e, how + ': equal')
    H.check(H.hash_equal(d._quantile, e._quantile), how + ': hash')
    if how in ('copy', 'quantile-copy', 'dist-pickle', 'deepcopy'):
        f = Numeric.from_json(H.json(e.to_json()))
        same_cdf(H, f, sn, how + ': JSON of the copy')
        e.cdf.intervals[0].upper = -7.
        e.cdf.functions[0] = ConstantFunction(.25)
        same_cdf(H, d, sn, 'copies are independent')


reg('D08', 'roundtrip', roundtrip)


@case('D08', 'equality', 'real', bound='two distributions of one or two pieces')
def equality(H):
    d, sd = make(H, lambda H: H.choice((spec1, spec2, specdirac))(H, 'x'), False)
    e, se = make(H, lambda H: H.choice((spec1, spec2, specdirac))(H, 'y'), False)
    a, b = snapq(d), snapq(e)
    eq = d == e
    same = len(a) == len(b) and H.all(*[p == q for u, v in zip(a, b) for p, q in zip(u, v)])
    H.iff(eq, same, 'equal exactly if the distribution functions are')
    if eq:
        H.check(H.hash_equal(d._quantile, e._quantile), 'hash')




@case('D08', 'labels', 'real', bound='scaled domains, every label and interval of labels')
def labels(H):
    t = H.choice((SCALED, SC2, Numeric))
    x = H.float('x', -20., 20.)
    H.close(t.value2label(t.label2value(x)), x, 'label -> value -> label')
    H.close(t.label2value(t.value2label(x)), x, 'value -> label -> value')
    a, b, l, r = event(H, lo=-20., hi=20.)
    i = ContinuousSet(a, b, l, r)
    j = t.value2label(t.label2value(i))
    H.close(j.lower, a, 'label intervals')
    H.close(j.upper, b, 'label intervals')
    H.check(j.left == l and j.right == r, 'label intervals: ends')
    away(H, x, [k for k in (a, b) if not isinstance(k, float) or abs(k) < 1e9], 2. ** -6)
    H.iff(t.label2value(x) in t.label2value(i), x in i, 'label intervals: members')
    rs = t.label2value(RealSet([ContinuousSet(a, b, l, r)]))
    H.iff(t.label2value(x) in rs, x in i, 'label sets: members')


@case('D08', 'scaled', 'real', bound='a scaled domain and a uniform distribution of arbitrary bounds in label space')
def scaled(H):
    a, b = knots(H, 'x', 2, -4., 4., W)
    t = H.choice((SCALED, SC2))
    d = t().set(quantile(H, Spec([(t.label2value(a), t.label2value(b), 1.)])))
    spec = Spec([(a, b, 1.)])
    lo, hi, l, r = event(H)
    H.close(d.p(ContinuousSet(lo, hi, l, r)), spec.p(lo, hi, l, r), 'probability in label space')
    H.close(d.expectation(), (a + b) * .5, 'expectation in label space')
    H.close(d.variance() * 12., (b - a) * (b - a), 'variance in label space')
    s, p = d.mpe()
    x = H.float('x', -5., 5.)
    away(H, x, (a, b), 2. ** -6)
    H.iff(x in s, H.all(x > a, x < b), 'mode in label space')
    cls = type(t).__name__
    u = H.json(t.type_to_json())
    t2 = ScaledNumeric.type_from_json(u)
    H.check(t2.equiv(t) and t.equiv(t2), 'domain JSON')
    e = t2.from_json(H.json(d.to_json()))
    H.check(e == d, 'JSON')
    H.close(e.expectation(), d.expectation(), 'JSON')


@case('D08', 'scaled-dirac', 'real', bound='a scaled domain and an impulse anywhere')
def scaled_dirac(H):
    t = H.choice((SCALED, SC2))
    x = H.float('x', -4., 4.)
    d = t()._fit(H.array([[t.label2value(x)]]), rows=H.intarray([0]), col=0)
    H.close(d.expectation(), x, 'expectation in label space')
    H.close(d.variance(), 0., 'variance in label space')
    c = H.float('c', -2., 2.)
    H.close(d.moment(2, c), (x - c) * (x - c), 'second moment')


@case('D08', 'scale-arrays', 'real', bound='arrays of one to three numbers (or integers), any scaler')
def scale_arrays(H):
    from jpt.distributions.utils import DataScaler, DataScalerProxy
    s = DataScaler()
    s.mean, s.scale = H.float('m', -8., 8.), H.float('s', .25, 8.)
    n = H.choice((1, 2, 3))
    ints = H.flag()
    xs = [H.int('k%d' % i, -8, 8) if ints else H.float('x%d' % i, -8., 8.) for i in range(n)]
    a = H.array(xs, dtype=int) if ints else H.array(xs)
    copied = ints or H.flag()
    kw = {} if copied else {'make_copy': False}
    f, g = s.transform, s.inverse_transform
    fw = H.flag()
    if not fw:
        f, g = g, f
    b = f(a, **kw)
    H.check(len(b) == n, 'length')
    for i in range(n):
        H.close(b[i] * s.scale if fw else b[i], xs[i] - s.mean if fw else xs[i] * s.scale + s.mean, 'every number is transformed')
        H.same(a[i], xs[i] if copied else b[i], 'in place only on request')
    c = g(b)
    for i in range(n):
        H.close(c[i], xs[i], 'inverse')


@case('D08', 'rejections', 'real', bound='weights in [-2, 2], finite and infinite values')
def rejections(H):
    kind = H.choice(('update', 'types', 'domain', 'arguments', 'none'))
    d, e = (Numeric().set(quantile(H, Spec([(0., k, 1.)]))) for k in (1., 2.))
    if kind == 'update':
        w = H.float('w', -2., 2.)
        sn = snapq(d)
        try:
            d.update(e, w)
        except ValueError:
            H.check(not 0. <= w <= 1., 'weights in [0, 1] are accepted')
            same_cdf(H, d, sn, 'unchanged')
        else:
            H.check(0. <= w <= 1., 'weights must be in [0, 1]')
    elif kind == 'types':
        o = SCALED().set(quantile(H, Spec([(0., 1., 1.)])))
        w = H.float('w', 0., 1.)
        for f in (lambda: d.update(o, w), lambda: o.update(d, w), lambda: Numeric.merge([d, o], [1. - w, w]), lambda: d.kl_divergence(o)):
            try:
                f()
            except TypeError:
                H.check(True, 'distributions over different domains do not mix')
            else:
                H.fail('distributions over different domains do not mix')
    elif kind == 'domain':
        bad = H.choice((H.inf, -H.inf, None, H.nan))
        pos = H.choice((0, 1))
        vs = [1., 4.]
        vs[pos] = bad
        try:
            NumericType('BAD', vs)
        except ValueError:
            H.check(True, 'undefined values are rejected')
        else:
            H.fail('undefined values are rejected')
    elif kind == 'arguments':
        for f, exc in ((d.p, TypeError), (d._p, TypeError), (d.crop, TypeError), (d._crop, ValueError), (d.value2label, TypeError)):
            try:
                f('x')
            except exc:
                H.check(True, 'only numbers and sets of numbers')
            else:
                H.fail('only numbers and sets of numbers')
    else:
        lo, hi, l, r = event(H)
        i = ContinuousSet(lo, hi, l, r)
        H.same(d[i], d.p(i), 'indexing is the probability')


@case('D08', 'scaler', 'real', bound='two or three values (two of them fixed)')
def scaler(H):
    from jpt.distributions.utils import DataScaler, DataScalerProxy
    s = DataScaler()
    s.mean, s.scale = H.float('m', -8., 8.), H.float('s', .25, 8.)
    x = H.float('x', -8., 8.)
    fwd, inv = DataScalerProxy(s), DataScalerProxy(s, True)
    H.close(inv[fwd[x]], x, 'inverse')
    H.close(fwd[inv[x]], x, 'inverse')
    H.close(fwd[x] * s.scale, x - s.mean, 'standardised')
    H.check(fwd[H.inf] == H.inf and inv[-H.inf] == -H.inf, 'infinite values')
    t = DataScaler.from_json(H.json(s.to_json()))
    H.check(t == s, 'JSON')
    H.check(DataScalerProxy(t) == fwd, 'JSON')
