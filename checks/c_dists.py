"""D01 symbolic, D02 integer distributions"""
import itertools

from harness import case
from dsts import *

LAB = ('a', 'b', 'c', 'd')
ABC = SymbolicType('ABC', ['a', 'b', 'c'])
ABCD = SymbolicType('ABCD', list(LAB))
ONE = SymbolicType('ONE', ['x'])
NUM = SymbolicType('NUM', [3, 1, 2])           # labels that look like values
DICE = IntegerType('DICE', 1, 3)
NEG = IntegerType('NEG', -1, 1)
OFF = IntegerType('OFF', 2, 4)
I1 = IntegerType('I1', 5, 5)
BND = 'domains of 2-4 values, every probability vector (entries 0 or >= 1/64)'


def subsets(ls):
    return [s for k in range(len(ls) + 1) for s in itertools.combinations(ls, k)]


def labels(t):
    return [t.labels[v] for v in sorted(t.labels)] if False else list(t.labels.values())


def dist(H, t, name='p'):
    ps = probs(H, name, len(labels(t)))
    return t().set(ps), dict(zip(labels(t), ps))


def same_params(H, d, ps, label):
    for l, p in ps.items():
        H.same(d.p(l), p, label)
    H.check(len(d.probabilities) == len(ps), label)


def kinds(H):
    """an event as the containers the API accepts"""
    return H.choice((set, list, tuple))


def probability(H, t):
    d, ps = dist(H, t)
    ls = labels(t)
    ev = H.choice(subsets(ls))
    con = kinds(H)
    got = d.p(con(ev))
    H.close(got, psum(ps[l] for l in ev), 'probability of an event')
    rest = tuple(l for l in ls if l not in ev)
    H.close(d.p(con(rest)) + got, 1., 'complementary events')
    for l in ls:
        H.same(d.p(l), ps[l], 'probability of one value')
        H.same(d.pdf(l), ps[l], 'probability of one value')
        H.same(d._p(t.values[l]), ps[l], 'value space')
    if ev:
        H.close(d.p(con(ev + ev[:1])), got, 'an event listed twice counts once')
    same_params(H, d, ps, 'unchanged')
    H.observe('p', got)


def crop(H, t):
    d, ps = dist(H, t)
    ls = labels(t)
    ev = H.choice(subsets(ls))
    con = kinds(H)
    z = psum(ps[l] for l in ev)
    try:
        c = d.crop(con(ev))
    except Unsatisfiability:
        c = None
    if c is None:
        H.check(z == 0, 'only impossible evidence is rejected')
    else:
        H.check(z > 0, 'impossible evidence is rejected')
        for l in ls:
            H.close(c.p(l) * z, ps[l] if l in ev else 0., 'conditional probability')
        H.check(type(c) is t, 'type')
    same_params(H, d, ps, 'unchanged')


def crop_one(H, t):
    d, ps = dist(H, t)
    l = H.choice(labels(t))
    H.assume(ps[l] > 0)
    c = d.crop(l)
    for k in labels(t):
        H.close(c.p(k), 1. if k == l else 0., 'restricting to one value')
    same_params(H, d, ps, 'unchanged')


def crop_none(H, t):
    d, ps = dist(H, t)
    l = H.choice(labels(t))
    H.assume(ps[l] == 0)
    try:
        d.crop(l)
    except Unsatisfiability:
        H.check(True, 'impossible evidence is rejected')
    else:
        H.fail('impossible evidence is rejected')


def mixture(H, t):
    d, ps = dist(H, t, 'p')
    e, qs = dist(H, t, 'q')
    w = H.float('w', 0., 1.)
    if H.flag():
        m = t.merge([d, e], [1. - w, w])
        same_params(H, d, ps, 'operand unchanged')
    else:
        m = d.update(e, w)
    for l in labels(t):
        H.close(m.p(l), (1. - w) * ps[l] + w * qs[l], 'weighted mean')
    same_params(H, e, qs, 'operand unchanged')


def mixture3(H, t):
    ds = [dist(H, t, n) for n in 'pqr']
    ws = probs(H, 'w', 3)
    m = t.merge([d for d, _ in ds], ws)
    for l in labels(t):
        H.close(m.p(l), psum(w * ps[l] for w, (_, ps) in zip(ws, ds)), 'weighted mean')
    for d, ps in ds:
        same_params(H, d, ps, 'operand unchanged')


def modes(H, t):
    d, ps = dist(H, t)
    ls = labels(t)
    if H.flag():
        states, p = d.mpe()
        for l in ls:
            H.check(ps[l] <= p, 'nothing is more probable')
            H.iff(l in states, ps[l] == p, 'all modes')
        H.check(len(states) > 0, 'a mode')
    else:
        k = H.choice((None, 1, 2, 3))
        res = d.k_mpe(k)
        seen = []
        for i, (states, p) in enumerate(res):
            H.check(p > 0, 'positive')
            if i:
                H.check(p < res[i - 1][1], 'descending')
            for l in ls:
                H.iff(l in states, ps[l] == p, 'exactly the states with this probability')
            seen += list(states)
        H.check(len(seen) == len(set(seen)) and (k is None or len(res) <= k), 'at most k groups')
        for l in ls:
            if l not in seen:
                if k is None or len(res) < k:
                    H.check(ps[l] == 0, 'every possible state appears')
                else:
                    H.check(ps[l] < res[-1][1], 'the best k')
    same_params(H, d, ps, 'unchanged')


def fit(H, t, scale=None):
    n = H.choice((1, 2, 3))
    ls = labels(t)
    tab = ints(H, 'x', n, len(ls), 2)
    data = H.array(tab)
    rows = H.choice((None,) + tuple(r for r in subsets(range(n)) if r))
    col = H.choice((0, 1, None)) if rows is None else H.choice((0, 1))
    d = t()._fit(data, None if rows is None else H.intarray(list(rows)), col)
    use = range(n) if rows is None else rows
    for i, l in enumerate(ls):
        c = 0
        for r in use:
            if tab[r][col or 0] == t.values[l]:
                c += 1
        H.close(d.p(l), c / len(use), 'relative frequency')


def roundtrip(H, t, factory):
    d, ps = dist(H, t)
    if t is not Bool:
        t2 = factory(H.json(t.type_to_json()))
        H.check(t.equiv(t2) and labels(t2) == labels(t), 'type survives JSON')
    e = t.from_json(H.json(d.to_json()))
    same_params(H, e, ps, 'distribution survives JSON')
    H.check(d == e, 'equal')
    c = d.copy()
    H.check(c == d and c is not d, 'copy is equal')
    p = H.deepcopy(d)
    H.check(p == d and p is not d, 'deep copy is equal')
    same_params(H, t.from_json(H.json(p.to_json())), ps, 'deep copy survives JSON')
    p.set([1.] + [0.] * (len(ps) - 1))
    same_params(H, t.from_json(H.json(p.to_json())), dict(zip(labels(t), [1.] + [0.] * (len(ps) - 1))), 'deep copy is independent')
    same_params(H, d, ps, 'deep copies are independent')
    if t is Bool:
        H.check(H.pickle(d) == d, 'distribution survives pickle')
        return
    c.set([1.] + [0.] * (len(ps) - 1))
    same_params(H, d, ps, 'copies are independent')


def equality(H, t):
    d, ps = dist(H, t, 'p')
    e, qs = dist(H, t, 'q')
    H.iff(d == e, H.all(*[ps[l] == qs[l] for l in ps]), 'equal iff all probabilities are equal')


def overlap(H, t):
    d, ps = dist(H, t, 'p')
    e, qs = dist(H, t, 'q')
    j = t.jaccard_similarity(d, e)
    lo = psum(ps[l] if ps[l] < qs[l] else qs[l] for l in ps)
    hi = psum(qs[l] if ps[l] < qs[l] else ps[l] for l in ps)
    H.close(j * hi, lo, 'overlap ratio')
    H.le(0., j, 'at least 0')
    H.le(j, 1., 'at most 1')
    H.close(t.jaccard_similarity(e, d), j, 'symmetric')


def listing(H, t):
    d, ps = dist(H, t)
    for v, p in [(l, p) for p, l in d.items()]:
        H.same(p, ps[v], 'items')
    H.check(len(list(d.items())) == len(ps), 'items')
    for p, v in d._items():
        H.same(p, ps[t.labels[v]], 'values')
    s = list(d.sorted())
    H.check(len(s) == len(ps) and {l for _, l in s} == set(ps), 'sorted lists every label once')
    for (p, l), (q, m) in zip(s, s[1:]):
        H.check(p >= q, 'descending')
    for p, l in s:
        H.same(p, ps[l], 'sorted')


def bijection(H, t):
    ls = labels(t)
    ev = H.choice([e for e in subsets(ls) if e])
    con = kinds(H)
    for l in ls:
        H.check(t.value2label(t.label2value(l)) == l, 'one label')
    H.check(t.value2label(t.label2value(con(ev))) == con(ev), 'many labels')
    H.check(sorted(t.label2value(l) for l in ls) == list(range(len(ls))), 'bijection')
    for f, x in ((t.label2value, 'nope'), (t.value2label, len(ls)), (t.value2label, -1)):
        try:
            f(x)
        except ValueError:
            H.check(True, 'foreign values are rejected')
        else:
            H.fail('foreign values are rejected')


def divergence(H, t):
    d, ps = dist(H, t, 'p')
    e, qs = dist(H, t, 'q')
    H.close(d.kl_divergence(d), 0., 'a distribution does not differ from itself')
    k = d.kl_divergence(e)
    H.le(0., k, 'a divergence is not negative')
    for l in ps:
        H.implies(ps[l] - qs[l] >= PMIN, k >= 1e-4, 'different distributions diverge')
    same_params(H, d, ps, 'unchanged')
    same_params(H, e, qs, 'unchanged')
    other = ONE().set([1.])
    rejects(H, TypeError, lambda: d.kl_divergence(other), 'distributions over different domains cannot be compared')


def rejects(H, exc, f, label):
    try:
        f()
    except exc:
        H.check(True, label)
    else:
        H.fail(label)


def rejections(H, t):
    d, ps = dist(H, t, 'p')
    e, qs = dist(H, t, 'q')
    kind = H.choice(('merge', 'update', 'types', 'set', 'foreign'))
    if kind == 'merge':
        w, v = H.float('w', -2., 2.), H.float('v', -2., 2.)
        H.assume(H.any(w + v == 1., w + v >= 1. + 1e-6, w + v <= 1. - 1e-6))
        H.assume(H.all(w >= 0., v >= 0.))
        try:
            t.merge([d, e], [w, v])
        except ValueError:
            H.check(w + v != 1., 'weights that sum to 1 are accepted')
        else:
            H.check(w + v == 1., 'weights must sum to 1')
    elif kind == 'update':
        w = H.float('w', -2., 2.)
        try:
            d.update(e, w)
        except ValueError:
            H.check(not 0. <= w <= 1., 'weights in [0, 1] are accepted')
            same_params(H, d, ps, 'unchanged')
        else:
            H.check(0. <= w <= 1., 'weights must be in [0, 1]')
    elif kind == 'types':
        other = (I1 if issubclass(t, Integer) else ONE)().set([1.])
        w = H.float('w', 0., 1.)
        rejects(H, TypeError, lambda: t.merge([d, other], [1. - w, w]), 'only distributions of the same type can be merged')
    elif kind == 'set':
        rejects(H, ValueError, lambda: t().set(list(ps.values())[1:]), 'one probability per value')
        rejects(H, ValueError, lambda: t().set(list(ps.values()) + [0.]), 'one probability per value')
    else:
        con = kinds(H)
        for f in (d.p, d.crop):
            rejects(H, ValueError, lambda: f(con([labels(t)[0], 77])), 'foreign labels are rejected')
            rejects(H, ValueError, lambda: f(77), 'foreign labels are rejected')
    same_params(H, e, qs, 'unchanged')


SYM = (ABC, Bool, ABCD, NUM)
INTS = (DICE, NEG, OFF)


def reg(prop, name, fn, types, bound=BND, **kw):
    @case(prop, name, 'real', bound=bound, **kw)
    def h(H):
        fn(H, H.choice(types))
    return h


for _prop, _types in (('D01', SYM), ('D02', INTS + (I1,))):
    reg(_prop, 'probability', probability, _types)
    reg(_prop, 'crop', crop, _types)
    reg(_prop, 'crop-one', crop_one, _types)
    reg(_prop, 'crop-impossible', crop_none, [t for t in _types if len(labels(t)) > 1])
    reg(_prop, 'mixture', mixture, [t for t in _types if len(labels(t)) > 1])
    reg(_prop, 'mixture-3', mixture3, _types[:2], bound='domains of 2 or 3 values, three distributions')
    reg(_prop, 'modes', modes, _types)
    reg(_prop, 'fit', fit, _types[:2], bound='1 to 3 rows of 2 columns, every table, every non-empty selection of rows')
    reg(_prop, 'equality', equality, _types)
    reg(_prop, 'overlap', overlap, _types[:2])
    reg(_prop, 'listing', listing, _types)
    reg(_prop, 'bijection', bijection, _types)
    reg(_prop, 'divergence', divergence, _types[:2])
    reg(_prop, 'rejections', rejections, _types[:3], bound='pairs of weights in [0, 2], update weights in [-2, 2]')


def _symfactory(data):
    from jpt.distributions.univariate.distribution import Distribution
    return Distribution.from_json(data)


reg('D01', 'json', lambda H, t: roundtrip(H, t, _symfactory), (ABC, ABCD, NUM, Bool))
reg('D02', 'json', lambda H, t: roundtrip(H, t, _symfactory), INTS + (I1,))


def singleton(H, t):
    d, ps = dist(H, t)
    ls = labels(t)
    l = H.choice(ls)
    c = d.create_dirac_impulse(t.values[l])
    for k in ls:
        H.same(c.p(k), 1. if k == l else 0., 'all mass on the one value')
    H.check(type(c) is t and c.is_dirac_impulse() and c.number_of_parameters() == 1, 'a certain value')
    same_params(H, d, ps, 'unchanged')
    certain = H.any(*[p == 1. for p in ps.values()])
    H.iff(d.is_dirac_impulse(), certain, 'certain iff one probability is 1')
    H.check(d.number_of_parameters() == (1 if d.is_dirac_impulse() else len(ls)), 'number of parameters')
    H.same(d[l], ps[l], 'indexing')
    H.check(l in d and 77 not in d, 'labels of the domain')
    ex, vx = d.expectation(), d._expectation()
    for k in ls:
        H.iff(k in ex, H.all(*[ps[k] >= p for p in ps.values()]), 'the most probable labels')
        H.check((k in ex) == (t.values[k] in vx), 'values correspond to labels')


reg('D01', 'singletons', singleton, SYM)


@case('D02', 'cumulative', 'real', bound=BND)
def cumulative(H):
    t = H.choice(INTS)
    d, ps = dist(H, t)
    cdf = d.cdf
    s = 0.
    for l in labels(t):
        s = s + ps[l]
        H.close(cdf.eval(t.values[l] * 1.), s, 'the cdf at a value is the probability of it and all smaller ones')
        H.same(d[l], ps[l], 'indexing')
    H.check(d.number_of_parameters() == len(ps), 'number of parameters')
    same_params(H, d, ps, 'unchanged')


@case('D02', 'moments', 'real', bound=BND)
def moments(H):
    t = H.choice(INTS)
    d, ps = dist(H, t)
    m = psum(l * p for l, p in ps.items())
    H.close(d.expectation(), m, 'expectation')
    H.close(d._expectation(), m - t.lmin, 'expectation in value space')
    var = psum((l - m) * (l - m) * p for l, p in ps.items())
    H.close(d.variance(), var, 'variance')
    H.close(d._variance(), var, 'variance does not depend on the offset')
    c = H.float('c', -4., 4.)
    k = H.choice((1, 2))
    H.close(d.moment(k, c), psum((l - c) ** k * p for l, p in ps.items()), 'moment')


@case('D02', 'sum', 'real', bound='two independent integer variables of 3 values each')
def add(H):
    s, t = H.choice(INTS), H.choice(INTS)
    d, ps = dist(H, s, 'p')
    e, qs = dist(H, t, 'q')
    r = d + e
    want = {}
    for a, p in ps.items():
        for b, q in qs.items():
            want[a + b] = want.get(a + b, 0.) + p * q
    H.check(sorted(want) == labels(type(r)), 'domain of the sum')
    for z, p in want.items():
        H.close(r.p(z), p, 'distribution of the sum')
    same_params(H, d, ps, 'operand unchanged')
    same_params(H, e, qs, 'operand unchanged')


@case('D02', 'fit-labels', 'real', bound='1 to 3 rows, every table of labels')
def fit_labels(H):
    t = H.choice(INTS)
    n = H.choice((1, 2, 3))
    ls = labels(t)
    xs = [H.int('x%d' % i, t.lmin, t.lmax) for i in range(n)]
    rows = H.choice((None,) + tuple(r for r in subsets(range(n)) if r))
    d = t().fit(H.array([[x * 1.] for x in xs]), None if rows is None else H.intarray(list(rows)), 0)
    use = range(n) if rows is None else rows
    for l in ls:
        c = 0
        for r in use:
            if xs[r] == l:
                c += 1
        H.close(d.p(l), c / len(use), 'relative frequency')


@case('D01', 'boolean', 'real', bound='every probability')
def boolean(H):
    p = H.float('p', 0., 1.)
    b = Bool().set(p)
    H.same(b.p(True), p, 'true')
    H.close(b.p(False), 1. - p, 'false')
    b = Bool()
    b.set([.5, .5])
    v = H.flag()
    b[v] = p
    H.close(b.p(v), p, 'assigning a probability')
    H.close(b.p(not v), 1. - p, 'assigning a probability')


@case('D01', 'domains', 'real', bound='two domains of 1 to 3 integer labels 0..3')
def domains(H):
    n, m = H.choice((1, 2, 3)), H.choice((1, 2, 3))
    a = [H.int('a%d' % i, 0, 3) for i in range(n)]
    b = [H.int('b%d' % i, 0, 3) for i in range(m)]

    def make(ls):
        dup = any(x == y for x, y in itertools.combinations(ls, 2))
        try:
            return SymbolicType('T', ls)
        except ValueError:
            H.check(dup, 'only duplicate labels are rejected')
            return None
        finally:
            pass
    s, t = make(a), make(b)
    if s is None or t is None:
        return
    same = n == m and all(x == y for x, y in zip(a, b))
    H.check(s.n_values == n and t.n_values == m, 'number of values')
    H.check(s.equiv(t) == same, 'domains are equivalent iff the labels are the same')
    H.check((s.values == t.values) == same and (s.labels == t.labels) == same, 'mappings are equal iff the labels are')
    d = s().set([1.] + [0.] * (n - 1))
    e = t().set([1.] + [0.] * (m - 1))
    H.check((d == e) == same, 'distributions over different domains differ')


@case('D02', 'domains', 'real', bound='two integer ranges within -3..3')
def idomains(H):
    l1, u1, l2, u2 = (H.int(x, -3, 3) for x in ('l1', 'u1', 'l2', 'u2'))

    def make(l, u):
        try:
            return IntegerType('T', l, u)
        except ValueError:
            H.check(l > u, 'only empty ranges are rejected')
            return None
    s, t = make(l1, u1), make(l2, u2)
    if s is None or t is None:
        return
    H.check(s.n_values == u1 - l1 + 1 and len(s.values) == s.n_values and len(s.labels) == s.n_values, 'number of values')
    for v in range(s.n_values):
        H.check(s.value2label(v) == l1 + v, 'values are offsets from the smallest label')
    same = l1 == l2 and u1 == u2
    H.iff(s.equiv(t), same, 'domains are equivalent iff the ranges are the same')
