"""T01 learning"""
from harness import case
from trees import *
from c_trees import region, label, first, density, settings


def table(H, n, cols, pattern=None):
    """n rows; numbers arbitrary (multiples of nothing), labels chosen"""
    rows = []
    for i in range(n):
        r = []
        for v in cols:
            if v.numeric:
                r.append(H.float('%s%d' % (v.name, i), -4., 4.))
            else:
                r.append((LA if v is A else ('u', 'v') if v is B else LI)[int(H.int('%s%d' % (v.name, i), 0, v.domain.n_values - 1))])
        rows.append(r)
    for j, v in enumerate(cols):
        if v.numeric:
            for i in range(n):
                for k in range(i):
                    a, b = rows[i][j], rows[k][j]
                    H.assume(H.any(a == b, a - b >= W, b - a >= W))
    return rows


def values(v, x):
    return x if v.numeric else (LA if v is A else ['u', 'v'] if v is B else LI).index(x)


def learn(H, cols, rows, how='rows', msl=1, **kw):
    j = JPT(cols, min_samples_leaf=msl, **{k: kw.pop(k) for k in list(kw) if k in ('targets', 'features', 'max_depth', 'min_impurity_improvement')})
    if how == 'rows':
        j.learn(rows=rows, **kw)
    elif how == 'array':
        j.learn(H.objarray(rows), **kw)
    elif how == 'columns':
        j.learn(columns=[[r[i] for r in rows] for i in range(len(cols))], **kw)
    else:
        j.learn(data=H.frame([v.name for v in cols], rows), **kw)
    return j


def partition(H, j, cols, rows, msl):
    """the leaves partition the training data and describe the samples they hold"""
    n = len(rows)
    homes = []
    for r in rows:
        homes.append(region(H, type('M', (), {'jpt': j}), {v.name: values(v, x) for v, x in zip(cols, r)}))
    H.check(sum(l.samples for l in j.leaves.values()) == n, 'every sample is in a leaf')
    for i, l in j.leaves.items():
        mine = [r for r, h in zip(rows, homes) if h == i]
        H.check(l.idx == i and l.samples == len(mine), 'number of samples of a leaf')
        H.close(l.prior, len(mine) / n, 'probability of a leaf')
        H.check(len(mine) >= msl or len(j.leaves) == 1, 'least number of samples of a leaf')
        H.check(len(mine) > 0, 'leaves are not empty')
        for c, v in enumerate(cols):
            d = l.distributions[v]
            if not v.numeric:
                for k in range(v.domain.n_values):
                    H.close(d._params[k], sum(1 for r in mine if values(v, r[c]) == k) / len(mine), 'frequencies of a leaf')
    for i, nd in j.innernodes.items():
        H.check(nd.idx == i and len(nd.children) == 2 and all(c.parent is nd for c in nd.children), 'structure')
    return homes


def learned(H, cols, n, hows=('rows',), msls=(1, 2), gaps=(True, False)):
    rows = table(H, n, cols)
    msl = H.choice(msls)
    how = H.choice(hows)
    gap = H.choice(gaps)
    j = learn(H, cols, rows, how, msl, close_convex_gaps=gap)
    homes = partition(H, j, cols, rows, max(1, int(msl * n)) if msl < 1 else msl)
    enc = j.encode(H.objarray(rows))
    lik = j.likelihood(H.objarray(rows))
    for i in range(n):
        H.check(enc[i] == homes[i], 'encode')
        H.check(lik[i] > 0, 'training samples are possible')
    for c, v in enumerate(cols):
        if not v.numeric:
            for k in range(v.domain.n_values):
                H.close(j.priors[v]._params[k], sum(1 for r in rows if values(v, r[c]) == k) / n, 'prior distribution')
        else:
            for i, l in j.leaves.items():
                d = l.distributions[v]
                valid(H, d, 'numeric distribution')
                mine = [r[c] for r, h in zip(rows, homes) if h == i]
                lo, hi = min(mine), max(mine)
                if not gap:
                    # all the mass between the least and the greatest sample of the leaf
                    H.close(d.p(ContinuousSet(lo, hi)), 1., 'numeric distribution: support')
                else:
                    s = l.path[v] if v in l.path else None
                    a = lo if s is None or s.lower == -H.inf else s.lower
                    b = hi if s is None or s.upper == H.inf else s.upper
                    H.close(d.p(ContinuousSet(a, b)), 1., 'numeric distribution: region of the leaf')
            xs = sorted(r[c] for r in rows)
            gs = [b - a for a, b in zip(xs, xs[1:]) if b > a]
            H.close(j.minimal_distances[v], min(gs) if gs else 2., 'minimal distance')


case('T01', 'AX3', 'real', bound='3 rows of a symbolic and a numeric variable')(lambda H: learned(H, [A, X], 3))
case('T01', 'BX4', 'real', bound='4 rows of a binary and a numeric variable')(lambda H: learned(H, [B, X], 4, gaps=(True,)))
case('T01', 'X3', 'real', bound='3 rows of a numeric variable')(lambda H: learned(H, [X], 3, msls=(1, 2, .5)))
case('T01', 'X4', 'real', bound='4 rows of a numeric variable')(lambda H: learned(H, [X], 4, msls=(1, 2)))
case('T01', 'AB4', 'real', bound='4 rows of two symbolic variables')(lambda H: learned(H, [A, B], 4, msls=(.5, .25, 3)))
case('T01', 'IB3', 'real', bound='3 rows of an integer and a symbolic variable')(lambda H: learned(H, [I, B], 3, ('rows', 'array', 'columns', 'frame'), msls=(1, 2, .7)))
case('T01', 'IX2', 'real', bound='2 rows of an integer and a numeric variable')(lambda H: learned(H, [I, X], 2, ('rows', 'array', 'columns', 'frame')))
case('T01', 'XY2', 'real', bound='2 rows of two numeric variables')(lambda H: learned(H, [X, Y], 2, ('rows', 'frame')))
case('T01', 'XY3', 'real', bound='3 rows of two numeric variables')(lambda H: learned(H, [X, Y], 3, msls=(1,), gaps=(True,)))


def hull(H, n):
    """every number between the least and the greatest sample is possible after learning"""
    rows = table(H, n, [X])
    j = learn(H, [X], rows, 'rows', H.choice((1, 2)))
    xs = [r[0] for r in rows]
    x = H.float('x', -4., 4.)
    H.assume(H.all(min(xs) <= x, x <= max(xs)))
    H.check(j.pdf(j.bind({X: x}, allow_singular_values=True)) > 0, 'no gaps between the leaves')
    H.check(j.likelihood(H.objarray([[x]]))[0] > 0, 'no gaps between the leaves')


for _n in (2, 3):
    case('T01', 'hull%d' % _n, 'real', bound='%d rows of a numeric variable, any number in between' % _n)(lambda H, n=_n: hull(H, n))


def options(H):
    """targets, features, depth, kept samples, threshold of improvement"""
    n = 3
    cols = [B, I, X]
    rows = []
    for i in range(n):
        rows.append(['uv'[int(H.int('B%d' % i, 0, 1))], int(H.int('I%d' % i, -1, 1)), H.float('X%d' % i, -4., 4.)])
    for i in range(n):
        for k in range(i):
            a, b = rows[i][2], rows[k][2]
            H.assume(H.any(a - b >= W, b - a >= W))
    what = H.choice(('targets', 'features', 'both', 'depth', 'threshold', 'keep', 'dependencies'))
    kw = {}
    feats = cols
    if what == 'targets':
        kw['targets'] = [B]
        feats = [I, X]
    elif what == 'features':
        kw['features'] = feats = [H.choice((B, I, X))]
    elif what == 'both':
        kw['targets'], kw['features'] = ['B', X], [I]
        feats = [I]
    elif what == 'depth':
        kw['max_depth'] = H.choice((1, 2))
    elif what == 'threshold':
        kw['min_impurity_improvement'] = 1.5
    j = JPT(cols, **kw) if what != 'dependencies' else JPT(cols, dependencies={B: [I], I: [B, X], X: [X]})
    j.learn(rows=rows, keep_samples=what == 'keep')
    homes = partition(H, j, cols, rows, 1)
    for nd in j.innernodes.values():
        H.check(any(nd.variable is f for f in feats), 'splits are on features')
        for s in nd.splits:
            H.check(len(s) > 0 if isinstance(s, set) else not s.isempty(), 'splits are not empty')
    if what == 'depth':
        H.check(max(l.depth() for l in j.leaves.values()) <= kw['max_depth'], 'depth')
    elif what == 'threshold':
        H.check(len(j.leaves) == 1, 'threshold')
    elif what == 'keep':
        H.check(sorted(int(i) for l in j.leaves.values() for i in l.s_indices) == list(range(n)), 'kept samples')
        for i, h in enumerate(homes):
            H.check(i in [int(k) for k in j.leaves[h].s_indices], 'kept samples')


case('T01', 'options', 'real', bound='3 rows of three variables')(options)
