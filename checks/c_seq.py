"""S01 sequences of trees"""
from itertools import product

from harness import case
from trees import *
from c_trees import t_num, t_sym, t_deep, t_nested, ev, possible, same_tree, settings, region, label
from c_learn import values
from jpt.sequential_trees import SequentialJPT


def transitions(H, n, how):
    """a transition matrix: 'all' arbitrary, 'one' one arbitrary entry"""
    r = [[(1. + (3 * i + 5 * j) % 4) / 16. for j in range(n)] for i in range(n)]
    if how == 'all':
        r = [[H.float('t%d%d' % (i, j), 1. / 16, 1.) for j in range(n)] for i in range(n)]
    elif how == 'one':
        r[0][n - 1] = H.float('t', 1. / 16, 1.)
    return r


def weights(m, tr, evs, t=None, q=None):
    """unnormalised joint weights of the leaves at every time step, by enumeration; with a query about
    a variable without evidence at step t: weight of the sequences in which it holds"""
    n = len(m.leaves)
    c = [[m.in_leaf(l, e) if e else l.prior for l in m.leaves] for e in evs]
    # forward and backward sums over the sequences of leaves
    fwd = [c[0]]
    for k in range(1, len(evs)):
        fwd.append([psum([fwd[-1][i] * tr[i][j] for i in range(n)]) * c[k][j] for j in range(n)])
    bwd = [[1.] * n]
    for k in range(len(evs) - 1, 0, -1):
        bwd.insert(0, [psum([tr[i][j] * c[k][j] * bwd[0][j] for j in range(n)]) for i in range(n)])
    return [[f * b for f, b in zip(x, y)] for x, y in zip(fwd, bwd)]


def marginals(H, m, tr, evs, q):
    s = SequentialJPT(m.jpt)
    s.transition_model = H.array(tr)
    sn = snap(m.jpt)
    pes = [m.joint(e) if e else 1. for e in evs]
    for p in pes:
        possible(H, p)
    try:
        r = s.independent_marginals([query(m, e) for e in evs])
    except Unsatisfiability:
        unchanged(H, m.jpt, sn)
        H.check(H.any(*[p == 0 for p in pes]), 'possible evidence is rejected')
        return
    unchanged(H, m.jpt, sn)
    H.check(H.all(*[p > 0 for p in pes]), 'impossible evidence is accepted')
    H.check(len(r) == len(evs), 'one tree per time step')
    for k, (tree, w) in enumerate(zip(r, weights(m, tr, evs))):
        z = psum(w)
        H.close(psum([l.prior for l in tree.leaves.values()]), 1., 'leaf probabilities sum to 1')
        for l, x in zip(m.leaves, w):
            if l.idx in tree.leaves:
                H.close(tree.leaves[l.idx].prior * z, x, 'marginal probability of a leaf')
            else:
                H.check(x == 0, 'possible leaf removed')
        if not set(q) & set(evs[k]):
            p = tree.infer(query(m, q))
            H.close(p * z, psum([x * prod([prob(l.d[n], e) for n, e in q.items()]) for l, x in zip(m.leaves, w)]), 'marginal probability of an event')


def prod(xs):
    r = 1.
    for x in xs:
        r = r * x
    return r


def steps(H, shape, how, evs, q):
    m = shape(H)
    marginals(H, m, transitions(H, len(m.leaves), how), evs(H, m), q(H, m))


def reg(name, shape, how, evs, q, bound):
    case('S01', name, 'real', bound=bound)(lambda H: steps(H, shape, how, evs, q))


def t_four(H):
    """four leaves, splits on X, A and X"""
    return build(H, [A, X], (X, 0., LeafSpec(.25, A=[.5, .25, .25], X=Spec([(-1., 0., 1.)])),
                             (A, ({0, 1}, {2}), (X, 1., LeafSpec(.25, A=[.25, .75, 0.], X=Spec([(.5, 1., 1.)])),
                                                 LeafSpec(.125, A=[1., 0., 0.], X=Spec([(1., 4., 1.)]))),
                              LeafSpec(.375, A=[0., 0., 1.], X=Spec([(0., 2., 1.)])))))


def t_two(H):
    """two leaves, split on X"""
    return build(H, [A, X], (X, 0., LeafSpec(.25, A=[.5, .5, 0.], X=Spec([(-2., 0., 1.)])),
                             LeafSpec(.75, A=[0., .25, .75], X=Spec([(0., 1., 1.)]))))


AQ = lambda H, m: ev(H, m, 'A', 'q')
XQ = lambda H, m: ev(H, m, 'X', 'q', ('[]',))
reg('one', t_num, 'fixed', lambda H, m: [ev(H, m, H.choice(('', 'A', 'X')), 'e')], XQ, 'one time step, split on X, no evidence or evidence A or X')
reg('two-none', t_num, 'all', lambda H, m: [{}, {}], AQ, 'two time steps without evidence, every transition model')
reg('two-X', t_two, 'one', lambda H, m: [ev(H, m, 'X', 'e', ('[inf', '-inf]')), {}], AQ, 'two time steps, evidence X')
reg('two-A', t_sym, 'all', lambda H, m: [{}, ev(H, m, 'A', 'e')], XQ, 'two time steps, split on A, evidence A')
reg('two-AA', t_sym, 'one', lambda H, m: [ev(H, m, 'A', 'e'), ev(H, m, 'A', 'f')], XQ, 'two time steps, split on A, evidence A')
reg('three', t_sym, 'one', lambda H, m: [ev(H, m, 'A', 'e') if H.flag() else {}, {}, ev(H, m, 'A', 'f')], XQ, 'three time steps, evidence A')
reg('deep', t_four, 'one', lambda H, m: [ev(H, m, 'A', 'e'), {}, {}], AQ, 'three time steps, four leaves')
reg('long', t_sym, 'fixed', lambda H, m: (lambda k: [ev(H, m, 'A', 'e') if i == k else {} for i in range(12)])(H.choice((0, 2, 9, 11))), XQ,
    'twelve time steps, evidence A in one of them')


@case('S01', 'json', 'real', bound='trees of two leaves, every transition model')
def roundtrip(H):
    m = t_sym(H)
    settings(H, m)
    tr = transitions(H, 2, 'all')
    s = SequentialJPT(m.jpt)
    s.transition_model = H.array(tr)
    sn = snap(m.jpt)
    t = SequentialJPT.from_json(H.json(s.to_json()))
    H.check(t.template_tree == m.jpt, 'JSON: tree')
    same_tree(H, m.jpt, t.template_tree, sn, 'JSON: same tree')
    H.check(t.transition_model.shape == (2, 2), 'JSON: transition model')
    for i in range(2):
        for j in range(2):
            H.check(t.transition_model[i][j] == tr[i][j], 'JSON: transition model')


def fit(H, lens, cols, msl):
    seqs = []
    n = 0
    for k in lens:
        rows = []
        for _ in range(k):
            r = []
            for v in cols:
                if v.numeric:
                    r.append(H.float('%s%d' % (v.name, n), -4., 4.))
                else:
                    r.append((LA if v is A else ['u', 'v'] if v is B else LI)[int(H.int('%s%d' % (v.name, n), 0, v.domain.n_values - 1))])
            rows.append(r)
            n += 1
        seqs.append(rows)
    every = [r for s in seqs for r in s]
    for c, v in enumerate(cols):
        if v.numeric:
            for i in range(n):
                for k in range(i):
                    a, b = every[i][c], every[k][c]
                    H.assume(H.any(a == b, a - b >= W, b - a >= W))
    t = JPT(cols, min_samples_leaf=msl)
    s = SequentialJPT(t)
    s.fit([H.objarray(x) for x in seqs])
    m = type('M', (), {'jpt': t})
    homes = [[region(H, m, {v.name: values(v, x) for v, x in zip(cols, r)}) for r in x] for x in seqs]
    first = [(r, h) for x, hs in zip(seqs, homes) for r, h in list(zip(x, hs))[:-1]]      # samples with a successor
    pairs = [p for hs in homes for p in zip(hs, hs[1:])]
    ids = list(t.leaves)
    H.check(s.transition_model.shape == (len(ids), len(ids)), 'transition model')
    for i, a in enumerate(ids):
        for j, b in enumerate(ids):
            H.close(s.transition_model[i][j], sum(1 for p in pairs if p == (a, b)) / len(pairs), 'transition model: share of the transitions')
    for a in ids:
        mine = [r for r, h in first if h == a]
        l = t.leaves[a]
        H.check(len(mine) >= msl or len(ids) == 1, 'least number of samples of a leaf')
        H.close(l.prior, len(mine) / len(first), 'probability of a leaf')
        for c, v in enumerate(cols):
            if not v.numeric:
                for k in range(v.domain.n_values):
                    H.close(l.distributions[v]._params[k], sum(1 for r in mine if values(v, r[c]) == k) / len(mine), 'frequencies of a leaf')
    for c, v in enumerate(cols):
        if not v.numeric:
            for k in range(v.domain.n_values):
                H.close(t.infer({v: (LA if v is A else ['u', 'v'] if v is B else LI)[k]}), sum(1 for r, _ in first if values(v, r[c]) == k) / len(first), 'probability of a value')
    H.check([v.name for v in t.variables] == [v.name for v in cols], 'variables')


for _n, _l, _c, _m in (('B', (3, 3), [B], 1), ('B-2', (4,), [B], 2), ('BX', (3,), [B, X], 1), ('X', (3, 2), [X], 1), ('AB', (3,), [A, B], 1)):
    case('S01', 'fit-' + _n, 'real', bound='sequences of lengths %s of %d variables' % (_l, len(_c)))(lambda H, l=_l, c=_c, m=_m: fit(H, l, c, m))
