"""K01 the splits chosen in learning maximise the improvement"""
from harness import case, listed
from trees import *
from c_trees import region
from c_learn import values


def gini(H, counts, n, invert):
    """normalised Gini impurity of a histogram"""
    c = len(counts)
    if c == 1:
        return 0.
    g = (1. - sum(k * k for k in counts) / (n * n)) / (1. - 1. / c)
    return 1. - g if invert else g


def variance(xs):
    n = len(xs)
    m = sum(xs) / n
    return sum((x - m) * (x - m) for x in xs) / n


class Spec:
    def __init__(self, cols, targets, features, deps=None):
        self.cols, self.targets, self.features = cols, targets, features
        self.deps = deps

    def depends(self, v, f):
        return self.deps is None or any(w is v for g, ws in self.deps for w in ws if g is f)

    def jpt(self, **kw):
        return JPT(self.cols, targets=self.targets, features=self.features, dependencies=None if self.deps is None else dict(self.deps), **kw)


def ginis(H, s, rows):
    out = []
    for c, v in enumerate(s.cols):
        if v in s.targets and v.symbolic:
            counts = [sum(1 for r in rows if r[c] == k) for k in range(v.domain.n_values)]
            out.append((v, gini(H, counts, len(rows), v.invert_impurity)))
    return out


KNOWN = listed('K01', 'mean-of-numeric-targets')


def running(parts):
    """the value that the code computes instead of the mean of several numbers (known finding)"""
    r = 0.
    for d, x in enumerate(parts):
        r = r * d + x / (d + 1)
    return r


def improvement(H, s, f, left, right, known=False):
    """relative reduction of the impurity by a split on f"""
    rows = left + right
    n = len(rows)
    num = [(c, v) for c, v in enumerate(s.cols) if v in s.targets and not v.symbolic]
    sym = [v for v in s.cols if v in s.targets and v.symbolic]
    w = len(num) / (len(num) + len(sym))
    res = 0.
    parts = []
    for c, v in num:
        if v is f:
            continue
        tot = variance([r[c] for r in rows])
        if tot == 0:
            continue
        if not s.depends(v, f):
            parts.append(0.)
            continue
        vl, vr = variance([r[c] for r in left]), variance([r[c] for r in right])
        parts.append((tot - (vl * len(left) + vr * len(right)) / n) / tot)
    if parts:
        res = res + w * (running(parts) if known else sum(parts) / len(parts))
    if sym:
        gt = ginis(H, s, rows)
        gl, gr = dict(ginis(H, s, left)), dict(ginis(H, s, right))
        tot = sum(g for _, g in gt) / len(gt)
        if tot != 0:
            d = 0.
            for v, g in gt:
                if s.depends(v, f):
                    d = d + (g - gl[v] * len(left) / n - gr[v] * len(right) / n)
            res = res + (1 - w) * d / len(gt) / tot
    return res


def candidates(H, s, rows, msl):
    """[(feature, indices of the left samples)] of all splits with enough samples"""
    out = []
    n = len(rows)
    for c, v in enumerate(s.cols):
        if v not in s.features:
            continue
        xs = [r[c] for r in rows]
        for i in range(n):
            if v.symbolic:
                left = frozenset(k for k in range(n) if xs[k] == xs[i])
            else:
                left = frozenset(k for k in range(n) if xs[k] <= xs[i])
            if msl <= len(left) <= n - msl and 0 < len(left) < n and (v, left) not in out:
                out.append((v, left))
    return out


def sample(H, cols, n, grid):
    rows = []
    for i in range(n):
        r = []
        for v in cols:
            nm = '%s%d' % (v.name, i)
            if v.numeric:
                r.append(H.float(nm, -2., 2.) if not grid else H.int(nm, -2, 2) * 1.)
            else:
                r.append(int(H.int(nm, 0, v.domain.n_values - 1)))
        rows.append(r)
    return rows


def judge(H, s, rows, msl, f, left, gain, tag=''):
    """the split (None: none) is the best"""
    cs = candidates(H, s, rows, msl)
    if f is None:
        H.check(not cs, tag + 'a possible split is not found')
        return
    H.check((f, left) in cs, tag + 'the split separates the samples by the values of the variable')
    def imp(f, left, known=False):
        return improvement(H, s, f, [rows[k] for k in range(len(rows)) if k in left], [rows[k] for k in range(len(rows)) if k not in left], known)
    mine = imp(f, left)
    others = [x for x in cs if x != (f, left)]
    if KNOWN and sum(1 for v in s.targets if not v.symbolic) > 1:
        # with several numeric targets the code may maximise the value of the known finding instead
        mk = imp(f, left, True)
        e = 1e-5
        if gain is not None:
            H.check(H.any(H.all(gain <= mine + e, mine <= gain + e), H.all(gain <= mk + e, mk <= gain + e)), tag + 'improvement of the split')
        H.check(H.any(H.all(*[imp(*x) <= mine + e for x in others]), H.all(*[imp(*x, True) <= mk + e for x in others])), tag + 'no split is better')
        return
    if gain is not None:
        H.close(gain, mine, tag + 'improvement of the split')
    for x in others:
        H.le(imp(*x), mine, tag + 'no split is better')


def labels_of(s, rows):
    return [[v.domain.labels[x] if not v.numeric else x for v, x in zip(s.cols, r)] for r in rows]


def node(H, s, n, grid=False, msls=(1, 2), ranges=False):
    from jpt.learning.impurity import Impurity
    rows = sample(H, s.cols, n, grid)
    j = s.jpt()
    data = j._preprocess_data(rows=labels_of(s, rows))
    imp = Impurity.from_tree(j)
    imp.min_samples_leaf = msl = H.choice(msls)
    idx = list(range(n))
    a, b = 0, n
    if ranges:
        idx = H.choice((idx, idx[::-1]))
        a, b = H.choice(((0, n), (1, n), (0, n - 1)))
    imp.setup(data, H.intarray(idx))
    gain = imp.compute_best_split(a, b)
    after = [int(i) for i in imp.indices]
    H.check(after[:a] == idx[:a] and after[b:] == idx[b:] and sorted(after[a:b]) == sorted(idx[a:b]), 'samples stay in their nodes')
    mine = [rows[i] for i in idx[a:b]]
    if gain == -H.inf:
        judge(H, s, mine, msl, None, None, None)
        return
    left = frozenset(idx.index(i) - a for i in after[a:a + int(imp.best_split_pos) + 1])
    judge(H, s, mine, msl, s.cols[int(imp.best_var)], left, gain)


def tree(H, s, n, grid=False, msls=(1, 2)):
    rows = sample(H, s.cols, n, grid)
    msl = H.choice(msls)
    j = s.jpt(min_samples_leaf=msl)
    j.learn(rows=labels_of(s, rows))

    def below(nd, mine):
        if nd.idx in j.leaves:
            judge(H, s, mine, msl, None, None, None, 'tree: ')
            return
        c = s.cols.index(nd.variable)
        sp = nd.splits[0]
        left = frozenset(k for k, r in enumerate(mine) if (r[c] in sp if isinstance(sp, set) else sp.contains_value(r[c])))
        judge(H, s, mine, msl, nd.variable, left, None, 'tree: ')
        below(nd.children[0], [r for k, r in enumerate(mine) if k in left])
        below(nd.children[1], [r for k, r in enumerate(mine) if k not in left])
    below(j.root, rows)


V = SymbolicVariable('V', domain=A.domain, invert_impurity=True)
ONE = SymbolicVariable('O', domain=SymbolicType('One', ['o']))
SPECS = {
    'AB4': (Spec([A, B], [A, B], [A, B]), 4, {}),
    'ABI3': (Spec([A, B, I], [B, I], [A]), 3, {}),
    'sizes3': (Spec([B, A, I], [A], [B, I]), 3, {}),
    'AI4': (Spec([A, I], [I], [A]), 4, {}),
    'XA3': (Spec([X, A], [A], [X]), 3, {}),
    'XI4': (Spec([X, I], [X, I], [X, I]), 3, dict(grid=True)),
    'AX3': (Spec([A, X], [X], [A]), 3, {}),
    'AXY3': (Spec([B, X, Y], [X, Y], [B]), 3, dict(grid=True, msls=(1,))),
    'XY3': (Spec([X, Y], [X, Y], [X, Y]), 3, dict(grid=True, msls=(1,))),
    'IXY3': (Spec([I, X, Y], [I, X, Y], [I, X, Y]), 3, dict(grid=True, msls=(1,))),
    'invert4': (Spec([V, B], [V], [B]), 4, {}),
    'single3': (Spec([ONE, B, A], [ONE, B], [A, ONE, B]), 3, {}),
    'deps3': (Spec([A, B, I, X], [A, B, I, X], [A, X], [(A, [I, B]), (X, [A])]), 3, dict(grid=True, msls=(1,))),
    'deps4': (Spec([A, B, I], [A, B, I], [B, I], [(B, [A]), (I, [B])]), 3, dict(msls=(1,))),
}
for _n in SPECS:
    def _h(H, n=_n):
        s, k, kw = SPECS[n]
        node(H, s, k, **kw)
    s, k, kw = SPECS[_n]
    _b = '%d rows; variables %s, targets %s, features %s%s%s' % (
        k, *(','.join(v.name for v in x) for x in (s.cols, s.targets, s.features)), '; dependencies' if s.deps else '', '; numbers from -2..2' if kw.get('grid') else '')
    case('K01', 'split-' + _n, 'real', bound=_b)(_h)
case('K01', 'ranges', 'real', bound='4 rows of two variables, parts of the samples')(lambda H: node(H, SPECS['AB4'][0], 4, msls=(1,), ranges=True))
for _n in ('ABI3', 'AI4', 'AX3', 'XI4', 'XY3', 'deps4', 'AB4'):
    def _t(H, n=_n):
        s, k, kw = SPECS[n]
        tree(H, s, min(k, 3), **kw)
    case('K01', 'tree-' + _n, 'real', bound='learning a tree from 3 rows, as split-%s' % _n)(_t)
