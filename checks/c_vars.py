"""V01 variables, maps of variables, assignments and the evidence that users pass in"""
from harness import case
from trees import *
from c_numeric import SCALED, SC2
from jpt.variables import infer_from_dataframe
from jpt.distributions import Distribution

AB = SymbolicVariable('AB', SymbolicType('VarAB', ['ab', 'cd', 'e']))
XS = NumericVariable('XS', SCALED)
ID = IntegerVariable('I', IntegerType('VarI', -2, 3))
VS = [AB, X, XS, ID]


# ---------------------------------------------------------------- maps
def look(H, m, ref, label='map'):
    H.check(len(m) == len(ref), label + ': length')
    H.check(bool(m) == bool(ref), label + ': truth')
    H.check(sorted(v.name for v in m) == sorted(ref), label + ': variables')
    H.check(sorted(v.name for v in m.keys()) == sorted(ref), label + ': keys')
    for v in (A, B, X):
        H.check((v in m) == (v.name in ref), label + ': contains')
        H.check((v.name in m) == (v.name in ref), label + ': contains a name')
        if v.name in ref:
            H.check(m[v] == ref[v.name], label + ': value')
            H.check(m[v.name] == ref[v.name], label + ': value by name')
            H.check(m.get(v, -77.) == ref[v.name], label + ': get')
        else:
            H.check(m.get(v, -77.) == -77., label + ': default')
            try:
                m[v]
                H.fail(label + ': value of a missing variable')
            except KeyError:
                pass
    items = list(m.items())
    H.check(sorted(v.name for v, _ in items) == sorted(ref), label + ': items')
    for v, x in items:
        H.check(x == ref[v.name], label + ': items')
    for x, (v, y) in zip(m.values(), items):
        H.check(x == y, label + ': values')


OPS = ('set', 'name', 'del', 'iadd', 'isub', 'isub1', 'update', 'copy')


def step(H, m, ref, k, ops=OPS):
    op = H.choice(ops)
    v = H.choice((A, X))
    x = H.float('x%d' % k, -5., 5.)
    if op == 'set':
        m[v] = x
        ref[v.name] = x
    elif op == 'name':
        if v.name in m.varnames:
            m[v.name] = x
            ref[v.name] = x
    elif op == 'del':
        if v.name in ref:
            del m[v if H.flag() else v.name]
            del ref[v.name]
    elif op in ('iadd', 'update'):
        o = VariableMap([(v, x), (B, x + 1.)])
        if op == 'iadd':
            m += o
        else:
            m = m.update(o)
        look(H, o, {v.name: x, 'B': x + 1.}, 'the other map')
        ref[v.name] = x
        ref['B'] = x + 1.
    elif op == 'isub':
        o = VariableMap([(v, x), (B, x)])
        m -= o
        look(H, o, {v.name: x, 'B': x}, 'the other map')
        ref.pop(v.name, None)
        ref.pop('B', None)
    elif op == 'isub1':
        if v.name in ref:
            m -= v
            del ref[v.name]
    else:
        c = m.copy(deep=H.flag())
        H.check(c == m, 'copy of a map')
        c[v] = x
        c2 = dict(ref)
        c2[v.name] = x
        look(H, c, c2, 'copy')
    return m


def maps(H, n, ops=OPS):
    how = H.choice(('empty', 'pairs', 'dict', 'vars'))
    y = H.float('y', -5., 5.)
    m = (VariableMap() if how == 'empty' else VariableMap([(A, y), (B, -y)]) if how == 'pairs' else
         VariableMap({B: -y, A: y}) if how == 'dict' else VariableMap({'A': y, B: -y}, variables=[A, X]))
    ref = {} if how == 'empty' else {'A': y, 'B': -y}
    look(H, m, ref)
    for k in range(n):
        m = step(H, m, ref, k, ops)
        look(H, m, ref)
    other = VariableMap([(v, ref[v.name]) for v in (X, B, A) if v.name in ref], variables=m.variables)
    H.check(m == other, 'maps of equal contents are equal')
    if ref:
        j = VariableMap.from_json([X, A, B], H.json(m.to_json()))
        look(H, j, ref, 'map from JSON')
        k = sorted(ref)[0]
        other[k] = ref[k] + 1.
        H.check(not (m == other), 'maps of different contents are equal')


case('V01', 'maps', 'real', bound='one operation on a map of up to 3 variables')(lambda H: maps(H, 1))
case('V01', 'maps-2', 'real', weight=2, bound='two operations on a map of up to 3 variables')(lambda H: maps(H, 2))


@case('V01', 'maps-strange', 'rank', bound='keys that no map accepts')
def strange(H):
    m = VariableMap(variables=[A])
    for k in ('B', 3, None, 'a'):
        try:
            m[k] = 1.
            H.fail('value of an unknown variable')
        except ValueError:
            pass
    H.check(len(m) == 0, 'nothing is added')


# ---------------------------------------------------------------- assignments
def an_interval(H, name='e'):
    lo, hi, l, r = event(H, name)
    return ContinuousSet(lo, hi, l, r)


def label_of(H, kind):
    """-> (variable, assignment, its internal representation as a predicate on the converted one)"""
    if kind == 'num':
        x = H.float('x', -9., 9.)
        return XS, x
    if kind == 'interval':
        return XS, an_interval(H)
    if kind == 'realset':
        u = union(H, 'u', True)
        return XS, RealSet([ContinuousSet(*u.a), ContinuousSet(*u.b)])
    if kind == 'plain':
        return X, H.choice((H.float('x', -9., 9.), an_interval(H)))
    if kind == 'symbol':
        return AB, H.choice(('ab', 'cd', 'e'))
    if kind == 'symbols':
        return AB, H.choice(({'ab'}, {'cd', 'e'}, {'ab', 'e'}, {'ab', 'cd', 'e'}))
    if kind == 'int':
        return ID, [-2, -1, 0, 1, 2, 3][int(H.int('i', 0, 5))]
    return ID, H.choice(({-2}, {-2, 3}, {0, 1, 2}))


def scaled(f, x):
    """the same set with transformed bounds"""
    if isinstance(x, RealSet):
        return [scaled(f, i) for i in x.intervals]
    if isinstance(x, ContinuousSet):
        return (f(x.lower), f(x.upper), x.left, x.right)
    return f(x)


def same_set(H, a, b, label):
    """an assignment equals the expected one"""
    if isinstance(b, list):
        H.check(isinstance(a, RealSet) and len(a.intervals) == len(b), label)
        for x, y in zip(a.intervals, b):
            same_set(H, x, y, label)
    elif isinstance(b, tuple):
        H.check(isinstance(a, ContinuousSet), label)
        H.check(H.all(a.left == b[2], a.right == b[3]), label + ': bounds')
        for x, y in zip((a.lower, a.upper), b):
            if y in (H.inf, -H.inf):
                H.check(x == y, label)
            else:
                H.close(x, y, label)
    elif isinstance(b, (set, str)):
        H.check(a == b, label)
    else:
        H.close(a, b, label)


def to_value(var, x):
    if var is AB:
        ix = {'ab': 0, 'cd': 1, 'e': 2}
        return {ix[k] for k in x} if isinstance(x, set) else ix[x]
    if var is ID:
        return {k + 2 for k in x} if isinstance(x, set) else x + 2
    if var is X:
        return scaled(lambda v: v, x)
    m, s = 3., (14. / 3.) ** .5
    return scaled(lambda v: v if v in (float('inf'), -float('inf')) else (v - m) / s, x)


KINDS = ('num', 'interval', 'realset', 'plain', 'symbol', 'symbols', 'int', 'ints')


def inverse(H, kind):
    var, x = label_of(H, kind)
    la = LabelAssignment([(var, x)])
    va = la.value_assignment()
    H.check(type(va) is ValueAssignment and len(va) == 1, 'assignment of values')
    same_set(H, va[var], to_value(var, x), 'internal representation')
    back = va.label_assignment()
    H.check(type(back) is LabelAssignment and len(back) == 1, 'assignment of labels')
    same_set(H, back[var.name], scaled(lambda v: v, x), 'labels and values are inverse')
    same_set(H, la[var], scaled(lambda v: v, x), 'the assignment is modified')
    for a in (la, va):
        j = type(a).from_json(VS, H.json(a.to_json()))
        H.check(type(j) is type(a) and len(j) == 1, 'assignment from JSON')
        same_set(H, j[var], scaled(lambda v: v, a[var]), 'assignment from JSON')
        H.check(type(j[var]) is type(a[var]) or var.numeric, 'assignment from JSON')
        c = a.copy(deep=H.flag())
        H.check(type(c) is type(a) and c == a, 'copy of an assignment')
        s = a.scalar2sets()
        if var.numeric:
            v = a[var]
            same_set(H, s[var], scaled(lambda v: v, v) if isinstance(v, (ContinuousSet, RealSet)) else (v, v, INC, INC), 'scalars are sets')
        else:
            H.check(s[var] == (a[var] if isinstance(a[var], set) else {a[var]}), 'scalars are sets')
        same_set(H, a[var], scaled(lambda v: v, c[var]), 'the assignment is modified')


for _k in KINDS:
    case('V01', 'assign-' + _k, 'real', bound='every assignment of this kind')(lambda H, k=_k: inverse(H, k))


@case('V01', 'assign-illegal', 'rank', bound='what is no value of a variable')
def illegal(H):
    K, var, x = H.choice(((LabelAssignment, AB, 'zz'), (LabelAssignment, AB, {'ab', 'zz'}), (LabelAssignment, AB, 0), (LabelAssignment, X, 'ab'),
                          (LabelAssignment, X, {1.}), (LabelAssignment, X, [1., 2.]), (ValueAssignment, AB, 'ab'),
                          (ValueAssignment, AB, -1), (ValueAssignment, AB, 3), (ValueAssignment, X, {1}), (ValueAssignment, XS, 'a'),
                          (LabelAssignment, XS, None)))
    m = K()
    try:
        m[var] = x
    except TypeError:
        H.check(len(m) == 0, 'nothing is assigned')
        return
    H.fail('illegal value is accepted')


@case('V01', 'abstract', 'rank', bound='abstract classes')
def abstract(H):
    from jpt.variables import VariableAssignment
    for f in (lambda: Variable('x', Numeric), lambda: VariableAssignment()):
        try:
            f()
        except TypeError:
            continue
        H.fail('abstract class has an instance')


# ---------------------------------------------------------------- variables
@case('V01', 'variables', 'real', bound='numeric, symbolic and integer variables with arbitrary settings')
def variables(H):
    s = [H.float(n, 0., 1.) if H.flag() else None for n in ('mi', 'blur', 'std', 'prec')]
    k = H.choice(('num', 'sc', 'sym', 'int'))
    if k in ('num', 'sc'):
        mk = lambda d: NumericVariable('v', Numeric if k == 'num' else SCALED, *d)
        want = dict(zip(('min_impurity_improvement', 'blur', 'max_std_lbl', 'precision'), [d if x is None else x for x, d in zip(s, (0, 0, 0., .01))]))
    elif k == 'sym':
        inv = H.choice((True, False, None))
        mk = lambda d: SymbolicVariable('v', AB.domain, d[0], invert_impurity=inv)
        want = dict(min_impurity_improvement=0 if s[0] is None else s[0], invert_impurity=bool(inv))
    else:
        mk = lambda d: IntegerVariable('v', ID.domain, d[0])
        want = dict(min_impurity_improvement=0 if s[0] is None else s[0])
    v = mk(s)
    j = H.json(v.to_json())
    vs = [v, v.copy(), Variable.from_json(j), type(v).from_json(j)]
    for w in vs:
        H.check(type(w) is type(v) and w.name == 'v', 'type and name of a variable')
        H.check(w.domain.equiv(v.domain) and v.domain.equiv(w.domain), 'domain of a variable')
        H.check(sorted(w.settings) == sorted(want), 'settings')
        for n in want:
            H.check(w.settings[n] == want[n], 'setting ' + n)
            H.check(getattr(w, n) == want[n], 'setting ' + n)
        H.check(w == v and v == w, 'equal variables')
        H.check((w.numeric, w.symbolic, w.integer) == (k in ('num', 'sc'), k == 'sym', k == 'int'), 'kind of a variable')
        d = w.distribution()
        H.check(type(d).__name__ == v.domain.__name__, 'distribution of a variable')
        if 'precision' in want:
            H.check(d.precision == want['precision'], 'distribution of a variable')
    H.check(H.hash_equal(v, vs[2]), 'equal variables have equal hashes')
    for n in list(want):
        if n != 'invert_impurity':
            w = v.copy()
            w.settings[n] = want[n] + 1.
            H.check(not (w == v), 'different settings')
    o = AB if k != 'sym' else ID
    H.check(not (v == o), 'different variables')


# ---------------------------------------------------------------- binding
def tree_of(H, variables, d):
    leaf = LeafSpec(1., **d)
    return build(H, variables, leaf)


def plain(H):
    return tree_of(H, [A, X, I], dict(A=[.25, .25, .5], X=Spec([(0., 1., 1.)]), I=[.25, .25, .5]))


def bound(H, r, want):
    H.check(type(r) is LabelAssignment, 'type of a binding')
    H.check(sorted(v.name for v in r) == sorted(v.name for v in want), 'bound variables')
    for v in r:
        w = next(k for k in want if k.name == v.name)
        H.check(v is w, 'variables of the tree are bound')
        same_set(H, r[v], want[w], 'bound value of ' + v.name)


@case('V01', 'bind-numeric', 'real', bound='numbers, lists, intervals, unions, by name, variable and keyword')
def bind_numeric(H):
    m = plain(H)
    k = H.choice(('num', 'list', 'interval', 'union', 'single', 'none', 'int'))
    lo, hi = H.float('lo', -5., 5.), H.float('hi', -5., 5.)
    H.assume(lo < hi)
    kw = {}
    if k == 'num':
        x, want = lo, (lo, lo, INC, INC)
    elif k == 'int':
        x, want = 2, (2., 2., INC, INC)
    elif k == 'list':
        x, want = [lo, hi], (lo, hi, INC, INC)
    elif k == 'interval':
        l, r = H.choice((INC, EXC)), H.choice((INC, EXC))
        x, want = ContinuousSet(lo, hi, l, r), (lo, hi, l, r)
    elif k == 'union':
        x = RealSet([ContinuousSet(lo, hi, INC, EXC), ContinuousSet(hi + 1., hi + 2., EXC, INC)])
        want = [(lo, hi, INC, EXC), (hi + 1., hi + 2., EXC, INC)]
    elif k == 'single':
        x, want, kw = lo, lo, dict(allow_singular_values=True)
    else:
        x, want = None, None
    how = H.choice(('name', 'variable', 'keyword')) if k != 'single' else H.choice(('name', 'variable'))
    more = H.flag()
    q = {X if how == 'variable' else 'X': x}
    if more:
        q['A'] = 'a'
    r = m.jpt.bind(**q) if how == 'keyword' else m.jpt.bind(q, **kw)
    w = {} if want is None else {X: want}
    if more:
        w[A] = {'a'}
    bound(H, r, w)
    H.check(len(q) == 1 + more, 'the query is modified')


@case('V01', 'bind-discrete', 'rank', bound='labels, lists and sets of labels, by name, variable and keyword')
def bind_discrete(H):
    m = plain(H)
    v, x, want = H.choice(((A, 'a', {'a'}), (A, {'a', 'c'}, {'a', 'c'}), (A, ['b', 'c'], {'b', 'c'}), (A, ['c'], {'c'}), (A, None, None),
                           (I, 0, {0}), (I, -1, {-1}), (I, {-1, 1}, {-1, 1}), (I, [-1, 1], {-1, 0, 1}), (I, [0, 1], {0, 1}), (I, None, None)))
    how = H.choice(('name', 'variable', 'keyword'))
    r = m.jpt.bind(**{v.name: x}) if how == 'keyword' else m.jpt.bind({v if how == 'variable' else v.name: x})
    bound(H, r, {} if want is None else {v: want})
    if isinstance(x, (set, list)):
        H.check(r[v] is not x, 'a set of the caller is kept')


@case('V01', 'bind-values', 'real', bound='evidence in value space')
def bind_values(H):
    m = plain(H)
    x = H.float('x', -5., 5.)
    r = m.jpt.bind({'A': {0, 2}, 'X': x, 'I': 1}, space='values')
    H.check(type(r) is ValueAssignment, 'type of a binding')
    H.check(r[A] == {0, 2} and r[I] == {1}, 'bound values')
    same_set(H, r[X], (x, x, INC, INC), 'bound value of X')


@case('V01', 'bind-illegal', 'rank', bound='what cannot be bound')
def bind_illegal(H):
    m = plain(H)
    f = H.choice((lambda: m.jpt.bind({'Z': 1}), lambda: m.jpt.bind(Z=1), lambda: m.jpt.bind([('A', 'a')]), lambda: m.jpt.bind({}, {}),
                  lambda: m.jpt.bind({'A': 'a'}, X=1.), lambda: m.jpt.bind({'A': ('a', 'b')}), lambda: m.jpt.bind({'X': 'a'}),
                  lambda: m.jpt.bind({'A': 'zz'}), lambda: m.jpt.bind({'X': (1., 2.)}), lambda: m.jpt.bind({'A': 'a'}, space='other')))
    try:
        f()
    except Exception:
        return
    H.fail('illegal evidence is bound')


@case('V01', 'bind-empty', 'rank', bound='no evidence')
def bind_empty(H):
    m = plain(H)
    for r in (m.jpt.bind(), m.jpt.bind({}), m.jpt.bind(None), m.jpt.bind({'A': None, X: None})):
        bound(H, r, {})


def blurred(H, dom, shape, space):
    v = NumericVariable('V', dom, blur=H.choice((.125, .5)))
    a, w = H.float('a', -4., 4.), H.float('w', W, 4.)
    if shape == 'one':
        s = Spec([(a, a + w, 1.)])
    elif shape == 'two':
        p = H.float('p', .125, .875)
        s = Spec([(a, a + w, p), (a + w, a + 2 * w, 1. - p)])
    elif shape == 'gap':
        p = H.float('p', .125, .875)
        s = Spec([(a, a + w, p), (a + w, a + 2 * w, 0.), (a + 2 * w, a + 3 * w, 1. - p)])
    elif shape == 'impulse':
        s = Spec([], [(a, 1., 0)])
    else:
        s = Spec([(a, a + w, .5), (a + w, a + 2 * w, .25)], [(a + w, .25, 1)])
    jpt = JPT([v])
    prior = dom().set(quantile(H, s))
    jpt.priors[v] = prior
    x = H.float('x', -9., 9.) if shape != 'impulse' else a
    lab = (lambda t: t) if dom is Numeric or space == 'values' else (lambda t: t * 8.)
    r = jpt.bind({v: lab(x)}, space=space)[v]
    H.check(isinstance(r, ContinuousSet), 'an interval is bound')
    H.le(r.lower, lab(x), 'blurred value', tol=1e-3)
    H.le(lab(x), r.upper, 'blurred value', tol=1e-3)
    lo, hi = (r.lower, r.upper) if lab(1.) == 1. else (r.lower / 8., r.upper / 8.)
    if shape in ('one', 'two'):
        q, b = s.cdf(x), v.blur * .5
        first, last = s.pieces[0][0], s.pieces[-1][1]
        H.assume(H.any(q - b >= 1e-3, q - b <= -1e-3))
        H.assume(H.any(q + b >= 1. + 1e-3, q + b <= 1. - 1e-3))
        if x > first and x < last:
            if q - b > 0:
                H.close(s.cdf(lo), q - b, 'lower quantile')
            else:
                H.le(lo, first, 'lower bound', tol=1e-3)
            if q + b < 1:
                H.close(s.cdf(hi), q + b, 'upper quantile')
            else:
                H.le(last, hi, 'upper bound', tol=1e-3)


for _s in ('one', 'two', 'gap', 'jump', 'impulse'):
    case('V01', 'blur-' + _s, 'real', bound='a number as evidence, a prior of up to 3 pieces')(lambda H, s=_s: blurred(H, Numeric, s, 'labels'))
    case('V01', 'blur-scaled-' + _s, 'real', bound='a scaled number as evidence, a prior of up to 3 pieces')(
        lambda H, s=_s: blurred(H, SC2, s, H.choice(('labels', 'values'))))


# ---------------------------------------------------------------- variables of a table
class Column(list):
    def unique(self):
        out = []
        for x in self:
            if not any(x is y or bool(x == y) for y in out):
                out.append(x)
        return out

    def min(self):
        return min(self)

    def max(self):
        return max(self)


class Table:
    """what infer_from_dataframe uses of a data frame"""
    def __init__(self, **columns):
        from jpt.variables import np
        t = dict(f=np.float64, s=object, i=np.int64, b=bool)
        self.columns = list(columns)
        self.dtypes = [t[n[0]] for n in columns]
        self.c = columns

    def __getitem__(self, n):
        return Column(self.c[n])


@case('V01', 'infer', 'real', bound='tables of 3 rows with a column of each kind')
def infer(H):
    xs = [H.float('x%d' % i, -5., 5.) for i in range(3)]
    ks = [int(H.int('k%d' % i, -1, 1)) for i in range(3)]
    ls = [LA[int(H.int('l%d' % i, 0, 2))] for i in range(2)] + ['c']
    sc = H.flag()
    mi, pr = H.float('mi', 0., 1.), H.float('pr', .0, 1.)
    vs = infer_from_dataframe(Table(f=xs, s=ls, i=ks, b=[True, True, False]), scale_numeric_types=sc, min_impurity_improvement=mi, precision=pr,
                              blur=.25)
    H.check([v.name for v in vs] == ['f', 's', 'i', 'b'], 'a variable for every column')
    H.check([(v.numeric, v.symbolic, v.integer) for v in vs] == [(True, False, False), (False, True, False), (False, False, True), (False, True, False)],
            'kinds of variables')
    f, s, i, b = vs
    for v in vs:
        H.check(v.min_impurity_improvement == mi, 'settings')
    H.check(f.precision == pr and f.blur == .25, 'settings')
    H.check(set(s.domain.values.keys()) == set(ls), 'labels of a domain')
    H.check(sorted(s.domain.values.values()) == list(range(len(set(ls)))), 'values of a domain')
    H.check(sorted(i.domain.values.keys()) == list(range(min(ks), max(ks) + 1)), 'labels of an integer domain')
    H.check(set(b.domain.values.keys()) == {True, False}, 'labels of a Boolean domain')
    if sc:
        m = f.domain.scaler.mean
        for x in xs:
            H.close(f.domain.label2value(x) * f.domain.scaler.scale, x - m, 'scaled value')
            H.close(f.domain.value2label(f.domain.label2value(x)), x, 'scaled label')
    else:
        H.check(f.domain is Numeric, 'plain domain')
