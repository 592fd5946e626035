"""T* joint probability trees"""
from harness import case
from trees import *


# ---------------------------------------------------------------- shapes
def u(lo, hi):
    return Spec([(lo, hi, 1.)])


def t_one(H, pr='p'):
    """a single leaf"""
    a, b = knots(H, 'x', 2, -4., 4., W)
    return build(H, [A, X], LeafSpec(1., A=probs(H, pr, 3), X=u(a, b)))


def t_num(H, pr='p'):
    """split on X at 0"""
    a, b = H.float('x0', -4., -W), H.float('x1', W, 4.)
    return build(H, [A, X], (X, 0., LeafSpec(.25, A=probs(H, pr, 3), X=u(a, 0.)),
                             LeafSpec(.75, A=[.5, .25, .25], X=u(0., b))))


def t_sym(H, pr='p'):
    """split on A"""
    q = H.float(pr, 0., 1.)
    H.assume(H.any(q == 0, q >= 1. / 64))
    H.assume(H.any(q == 1, q <= 1. - 1. / 64))
    a, b = knots(H, 'x', 2, -4., 4., W)
    return build(H, [A, X], (A, ({1}, {0, 2}), LeafSpec(.25, A=[0., 1., 0.], X=u(a, b)),
                             LeafSpec(.75, A=[q, 0., 1. - q], X=u(-1., 1.))))


def t_deep(H, pr='p'):
    """split on X at 0, then on A, and on X again"""
    q = H.float(pr, 1. / 64, 1. - 1. / 64)
    b = H.float('x1', 1. + W, 4.)
    return build(H, [A, X], (X, 0., LeafSpec(.25, A=[.5, .25, .25], X=u(-1., 0.)),
                             (A, ({0, 1}, {2}), (X, 1., LeafSpec(.25, A=[q, 1. - q, 0.], X=u(.5, 1.)),
                                                 LeafSpec(.125, A=[.25, .75, 0.], X=u(1., b))),
                              LeafSpec(.375, A=[0., 0., 1.], X=u(0., 2.)))))


def t_prior(H, pr='p'):
    """split on X, arbitrary leaf probabilities"""
    w = H.float('w', 1. / 16, 15. / 16)
    return build(H, [A, X], (X, 0., LeafSpec(w, A=[.5, .25, .25], X=u(-1., 0.)),
                             LeafSpec(1. - w, A=[0., .25, .75], X=u(0., 2.))))


def t_int(H, pr='p'):
    """split on I and on B"""
    p = probs(H, pr, 2)
    q = probs(H, pr + 'b', 2)
    return build(H, [I, B], (I, ({0}, {1, 2}), LeafSpec(.25, I=[1., 0., 0.], B=p),
                             (B, ({0}, {1}), LeafSpec(.5, I=[0.] + q, B=[1., 0.]), LeafSpec(.25, I=[0., .5, .5], B=[0., 1.]))))


def t_wide(H, pr='p'):
    """a single leaf with three discrete variables"""
    return build(H, [A, B, I], LeafSpec(1., A=probs(H, pr, 3), B=[.25, .75], I=[.5, 0., .5]))


def t_wide2(H, pr='p'):
    """split on B, three discrete variables"""
    w = H.choice((.25, .5))
    return build(H, [A, B, I], (B, ({0}, {1}), LeafSpec(w, A=[.25, .25, .5], B=[1., 0.], I=[.25, .5, .25]),
                                LeafSpec(1. - w, A=[.5, 0., .5], B=[0., 1.], I=[0.] + probs(H, pr, 2))))


def t_dirac(H, pr='p'):
    """split on X at 0, a single value of X in each leaf"""
    a, b = H.float('a', -4., -W), H.float('b', 0., 4.)
    return build(H, [A, X], (X, 0., LeafSpec(.25, A=probs(H, pr, 3), X=Spec([], [(a, 1.)])),
                             LeafSpec(.75, A=[.5, .25, .25], X=Spec([], [(b, 1.)]))))


def t_scaled(H, pr='p'):
    """split on a standardised X at 0"""
    a, b = H.float('x0', -4., -W), H.float('x1', W, 4.)
    return build(H, [A, XS], (XS, 0., LeafSpec(.25, A=probs(H, pr, 3), X=u(a, 0.)),
                              LeafSpec(.75, A=[.5, .25, .25], X=u(0., b))))


def t_nested(H, pr='p'):
    """split on I, on I again and on A, splits like those that learning yields"""
    p = probs(H, pr, 2)
    return build(H, [I, A], (I, ({0}, {1, 2}), LeafSpec(.25, I=[1., 0., 0.], A=[.5, 0., .5]),
                             (I, ({0, 1}, {2}), (A, ({0}, {1, 2}), LeafSpec(.25, I=[0., 1., 0.], A=[1., 0., 0.]),
                                                 (A, ({1}, {0, 2}), LeafSpec(.125, I=[0., 1., 0.], A=[0., 1., 0.]),
                                                  LeafSpec(.125, I=[0., 1., 0.], A=[0., 0., 1.]))),
                              LeafSpec(.25, I=[0., 0., 1.], A=p + [0.]))))


SHAPES = dict(scaled=t_scaled, nested=t_nested, wide=t_wide, wide2=t_wide2, dirac=t_dirac, one=t_one, num=t_num, sym=t_sym, deep=t_deep, prior=t_prior, int=t_int)


def reg(prop, name, fn, shapes, bound='', **kw):
    for n in shapes.split():
        def h(H, fn=fn, s=SHAPES[n]):
            fn(H, s(H))
        case(prop, '%s-%s' % (name, n), 'real', bound=SHAPES[n].__doc__ + (', ' + bound if bound else ''), **kw)(h)


AEV = ({0}, {1}, {0, 2}, {1, 2}, {0, 1, 2})
IEV = ({0}, {1}, {0, 2}, {1, 2})
BEV = ({0}, {1}, {0, 1})
XK = ('[]', '[inf', '-inf]')


def ev(H, m, which, tag, kinds=XK):
    e = {}
    for v in which:
        if v == 'X':
            e[v] = event(H, tag, -5., 5., kinds)
        else:
            e[v] = H.choice({'A': AEV, 'I': IEV, 'B': BEV}[v])
    return e


# ---------------------------------------------------------------- infer
def infer(H, m, q, e):
    sn = snap(m.jpt)
    pq, pe = m.joint(q, e), m.joint(e) if e else 1.
    r = m.jpt.infer(query(m, q), query(m, e) if e else None, fail_on_unsatisfiability=False)
    if r is None:
        H.check(pe == 0, 'possible evidence is rejected')
    else:
        H.check(pe > 0, 'impossible evidence is accepted')
        H.close(r * pe, pq, 'conditional probability')
        H.check(H.all(r >= 0, r <= 1.0001), 'conditional probability in [0, 1]')
    unchanged(H, m.jpt, sn)


reg('T02', 'prior-X', lambda H, m: infer(H, m, ev(H, m, 'X', 'q'), {}), 'one num sym deep prior', 'P(X in q)')
reg('T02', 'prior-AX', lambda H, m: infer(H, m, ev(H, m, 'AX', 'q'), {}), 'num sym scaled', 'P(A in q, X in r)')
reg('T02', 'A-given-X', lambda H, m: infer(H, m, ev(H, m, 'A', 'q'), ev(H, m, 'X', 'e')), 'one num sym deep prior scaled', 'P(A in q | X in e)')
reg('T02', 'X-given-A', lambda H, m: infer(H, m, ev(H, m, 'X', 'q'), ev(H, m, 'A', 'e')), 'one num sym deep prior', 'P(X in q | A in e)')
reg('T02', 'X-given-X', lambda H, m: infer(H, m, ev(H, m, 'X', 'q', ('[]', '[inf')), ev(H, m, 'X', 'e', ('[]', '-inf]'))), 'one num deep', 'P(X in q | X in e)')
reg('T02', 'A-given-AX', lambda H, m: infer(H, m, ev(H, m, 'A', 'q'), ev(H, m, 'AX', 'e', ('[]',))), 'num sym', 'P(A in q | A in e, X in f)')
reg('T02', 'nested', lambda H, m: infer(H, m, ev(H, m, 'IA', 'q'), ev(H, m, H.choice(('I', 'A', 'IA')), 'e')), 'nested', 'all queries and evidences')
reg('T02', 'int', lambda H, m: infer(H, m, ev(H, m, 'IB', 'q'), ev(H, m, H.choice(('I', 'B', 'IB')), 'e')), 'int', 'all queries and evidences')


reg('T02', 'A-given-set', lambda H, m: infer(H, m, ev(H, m, 'A', 'q'), {'X': union(H, 'e')}), 'one num', 'P(A in q | X in e), e a set of two intervals')
reg('T02', 'set', lambda H, m: infer(H, m, {'X': union(H, 'q')}, ev(H, m, 'A', 'e')), 'one num', 'P(X in q | A in e), q a set of two intervals')
reg('T02', 'X-given-set', lambda H, m: infer(H, m, ev(H, m, 'X', 'q', ('[)',)), {'X': union(H, 'e', True)}), 'one num scaled', 'P(X in q | X in e), e a set of two intervals')


# ---------------------------------------------------------------- posterior, expectation, moments
def possible(H, pe):
    H.assume(H.any(pe == 0, pe >= 1. / 256))


def posterior(H, m, e, qs):
    sn = snap(m.jpt)
    pe = m.joint(e) if e else 1.
    possible(H, pe)
    ask = H.choice((None, 'names')) if len(qs) > 1 else 'names'
    r = m.jpt.posterior(None if ask is None else list(qs), query(m, e) if e else None, fail_on_unsatisfiability=False)
    unchanged(H, m.jpt, sn)
    if r is None:
        H.check(pe == 0, 'possible evidence is rejected')
        return
    H.check(pe > 0, 'impossible evidence is accepted')
    H.check([v.name for v in r.keys()] == [v.name for v in m.variables if ask is None or v.name in qs], 'variables of the posterior')
    v = H.choice(tuple(qs))
    q = ev(H, m, v, 'q', ('[]',))
    H.close(r[m.jpt.varnames[v]].p(labels(m.jpt.varnames[v], q[v])) * pe, m.joint(q, e), 'posterior probability')


reg('T03', 'posterior', lambda H, m: posterior(H, m, {}, 'AX'), 'one num sym', 'no evidence')
reg('T03', 'X-given-A', lambda H, m: posterior(H, m, ev(H, m, 'A', 'e'), 'X'), 'num sym deep prior scaled', 'evidence A')
reg('T03', 'A-given-X', lambda H, m: posterior(H, m, ev(H, m, 'X', 'e'), 'A'), 'one num sym deep prior scaled', 'evidence X')
reg('T03', 'X-given-X', lambda H, m: posterior(H, m, ev(H, m, 'X', 'e', ('[]', '-inf]')), 'X'), 'one num sym scaled', 'evidence X')
reg('T03', 'A-given-A', lambda H, m: posterior(H, m, ev(H, m, 'A', 'e'), 'A'), 'num sym', 'evidence A')
reg('T03', 'AX-given-AX', lambda H, m: posterior(H, m, ev(H, m, 'AX', 'e', ('[]',)), 'AX'), 'num sym', 'evidence A and X')
reg('T03', 'nested', lambda H, m: posterior(H, m, ev(H, m, H.choice(('I', 'A', 'IA')), 'e'), 'IA'), 'nested', 'all evidences')
reg('T03', 'int', lambda H, m: posterior(H, m, ev(H, m, H.choice(('I', 'B', 'IB')), 'e'), 'IB'), 'int', 'all evidences')


reg('T03', 'given-set', lambda H, m: posterior(H, m, {'X': union(H, 'e')}, H.choice(('A', 'X'))), 'one num', 'evidence: a set of two intervals')


def expectation(H, m, e, var):
    sn = snap(m.jpt)
    pe = m.joint(e) if e else 1.
    H.assume(pe >= 1. / 256)
    m1, m2 = moments(m, var, e, LI)
    v = m.jpt.varnames[var]
    what = H.choice(('expectation', 'first', 'second', 'central'))
    if what == 'expectation':
        r = m.jpt.expectation([var], query(m, e) if e else None)
        H.close(r[v] * pe, m1, 'expectation')
    elif what == 'central':
        c = H.float('c', -2., 2.)
        if var == 'I':
            c = H.choice((-1., 0., 1.))
        r = m.jpt.moment(2, m.jpt.bind({var: c}, allow_singular_values=True) if var == 'X' else VariableMap({v: c}, m.variables),
                         m.jpt.bind(query(m, e)))
        H.close(r[v] * pe, m2 - 2. * c * m1 + c * c * pe, 'second moment about a point')
    else:
        k = 1 if what == 'first' else 2
        r = m.jpt.moment(k, None, m.jpt.bind(query(m, e)))
        H.close(r[v] * pe, m1 if k == 1 else m2, 'moment')
    unchanged(H, m.jpt, sn)


reg('T03', 'moments', lambda H, m: expectation(H, m, ev(H, m, 'A', 'e'), 'X'), 'num sym prior', 'E[X], E[X^2] given A')
reg('T03', 'moments-int', lambda H, m: expectation(H, m, ev(H, m, H.choice(('I', 'B', 'IB')), 'e'), 'I'), 'int', 'E[I], E[I^2] given B and I')
reg('T03', 'moments-evidence', lambda H, m: expectation(H, m, ev(H, m, 'X', 'e', ('[]', '[inf')), 'X'), 'one num', 'E[X], E[X^2] given X')


def moments_scaled(H, m, e):
    """moments of the labels of a standardised variable, centers as labels or values"""
    sn = snap(m.jpt)
    pe = m.joint(e) if e else 1.
    H.assume(pe >= 1. / 256)
    m1, m2 = moments(m, 'X', e, LI)
    m1, m2 = 2. * m1 + pe, 4. * m2 + 4. * m1 + pe
    q = m.jpt.bind(query(m, e)) if e else None
    c = H.float('c', -2., 2.)
    what = H.choice(('expectation', 'raw', 'labels', 'values', 'map', 'part'))
    if what == 'expectation':
        H.close(m.jpt.expectation(['X'], q)[XS] * pe, m1, 'expectation')
    elif what == 'raw':
        H.close(m.jpt.moment(2, None, q)[XS] * pe, m2, 'second moment')
    else:
        if what == 'labels':
            center = m.jpt.bind({'X': up(c)}, allow_singular_values=True)
        elif what == 'values':
            center = ValueAssignment([(XS, c)], m.variables)
        elif what == 'map':
            center = VariableMap([(XS, up(c))], m.variables)
        else:
            center = LabelAssignment([(XS, up(c))], m.variables)
        r = m.jpt.moment(2, center, q)
        H.check([v.name for v in r] == ['X'], 'the numbers')
        H.close(r[XS] * pe, m2 - 2. * up(c) * m1 + up(c) * up(c) * pe, 'second moment about a point')
    unchanged(H, m.jpt, sn)


reg('T03', 'moments-scaled', lambda H, m: moments_scaled(H, m, ev(H, m, H.choice(('', 'A')), 'e')), 'scaled', 'E[X], E[(X - c)^2] given A or nothing')


@case('T03', 'moments-integer', 'real', bound='a tree over two discrete variables, every integer center')
def moments_integer(H):
    m = t_int(H)
    e = ev(H, m, H.choice(('', 'B')), 'e')
    pe = m.joint(e) if e else 1.
    H.assume(pe >= 1. / 256)
    m1, m2 = moments(m, 'I', e, LI)
    c = H.choice((-1, 0, 1))
    center = H.choice((0, 1, 2))
    center = (LabelAssignment([(I, c)], m.variables), ValueAssignment([(I, c + 1)], m.variables), VariableMap([(I, c)], m.variables))[center]
    r = m.jpt.moment(2, center, m.jpt.bind(query(m, e)) if e else None)
    H.check([v.name for v in r] == ['I'], 'the numbers')
    H.close(r[I] * pe, m2 - 2. * c * m1 + c * c * pe, 'second moment about a point')


# ---------------------------------------------------------------- conditional trees
def conditional(H, m, e, q):
    sn = snap(m.jpt)
    pe = m.joint(e)
    possible(H, pe)
    c = m.jpt.conditional_jpt(query(m, e), fail_on_unsatisfiability=False)
    unchanged(H, m.jpt, sn)
    if c is None:
        H.check(pe == 0, 'possible evidence is rejected')
        return
    H.check(pe > 0, 'impossible evidence is accepted')
    H.check(list(c.variables) == list(m.jpt.variables), 'variables')
    H.close(psum([l.prior for l in c.leaves.values()]), 1., 'leaf probabilities sum to 1')
    for s in m.leaves:
        p = m.in_leaf(s, e)
        if s.idx in c.leaves:
            H.close(c.leaves[s.idx].prior * pe, p, 'leaf probability')
        else:
            H.check(p == 0, 'possible leaf removed')
    H.close(c.infer(query(m, q)) * pe, m.joint(q, e), 'probability in the conditional tree')
    for v in q:
        H.close(c.priors[c.varnames[v]].p(labels(c.varnames[v], q[v])) * pe, m.joint({v: q[v]}, e), 'priors of the conditional tree')
    unchanged(H, m.jpt, sn)


reg('T04', 'A', lambda H, m: conditional(H, m, ev(H, m, 'A', 'e'), ev(H, m, 'X', 'q', ('[]',))), 'one num sym deep prior', 'evidence A, query X')
reg('T04', 'X', lambda H, m: conditional(H, m, ev(H, m, 'X', 'e'), ev(H, m, 'A', 'q')), 'one num sym deep prior scaled', 'evidence X, query A')
reg('T04', 'XX', lambda H, m: conditional(H, m, ev(H, m, 'X', 'e', ('[]', '-inf]')), ev(H, m, 'X', 'q', ('[]',))), 'one num sym', 'evidence X, query X')
reg('T04', 'AX', lambda H, m: conditional(H, m, ev(H, m, 'AX', 'e', ('[]',)), ev(H, m, 'AX', 'q', ('[]',))), 'num sym scaled', 'evidence and query A and X')
reg('T04', 'nested', lambda H, m: conditional(H, m, ev(H, m, H.choice(('I', 'A', 'IA')), 'e'), ev(H, m, 'IA', 'q')), 'nested', 'all evidences')
reg('T04', 'int', lambda H, m: conditional(H, m, ev(H, m, H.choice(('I', 'B', 'IB')), 'e'), ev(H, m, 'IB', 'q')), 'int', 'all evidences')


reg('T04', 'set', lambda H, m: conditional(H, m, {'X': union(H, 'e')}, ev(H, m, H.choice(('A', 'X')), 'q', ('[]',))), 'one num', 'evidence: a set of two intervals')


def chained(H, m, e, f, q):
    """conditioning twice; queries with evidence in a conditional tree"""
    pe = m.joint(e)
    pef = m.joint(e, f)
    possible(H, pe)
    possible(H, pef)
    c = m.jpt.conditional_jpt(query(m, e), fail_on_unsatisfiability=False)
    if c is None:
        H.check(pe == 0, 'possible evidence is rejected')
        return
    sn = snap(c)
    r = c.infer(query(m, q), query(m, f), fail_on_unsatisfiability=False)
    unchanged(H, c, sn)
    if r is None:
        H.check(pef == 0, 'possible evidence is rejected')
        return
    H.check(pef > 0, 'impossible evidence is accepted')
    H.close(r * pef, m.joint(q, e, f), 'probability given evidence in the conditional tree')
    d = c.conditional_jpt(query(m, f), fail_on_unsatisfiability=False)
    unchanged(H, c, sn)
    H.check(d is not None, 'possible evidence is rejected')
    H.close(psum([l.prior for l in d.leaves.values()]), 1., 'leaf probabilities sum to 1')
    H.close(d.infer(query(m, q)) * pef, m.joint(q, e, f), 'probability in the tree conditioned twice')


reg('T04', 'chained-AX', lambda H, m: chained(H, m, ev(H, m, 'A', 'e'), ev(H, m, 'X', 'f', ('[]',)), ev(H, m, 'A', 'q')), 'num sym', 'evidence A, then X')
reg('T04', 'chained-XA', lambda H, m: chained(H, m, ev(H, m, 'X', 'e', ('[]',)), ev(H, m, 'A', 'f'), ev(H, m, 'X', 'q', ('[inf',))), 'num sym', 'evidence X, then A')
reg('T04', 'chained-int', lambda H, m: chained(H, m, ev(H, m, 'I', 'e'), ev(H, m, H.choice(('I', 'B')), 'f'), ev(H, m, H.choice(('I', 'B')), 'q')), 'int', 'evidence I, then I or B')


# ---------------------------------------------------------------- most probable explanations
def density(m, world):
    r = 0.
    for l in m.leaves:
        p = l.prior
        for n, x in world.items():
            d = l.d[n]
            p = p * (d.density(x) if isinstance(d, Spec) else d[x])
        r = r + p
    return r


def world(H, m, e=()):
    """a possible assignment of all variables (numbers away from the ends of density pieces)"""
    w = {}
    for v in m.variables:
        if v.numeric:
            x = H.float('w' + v.name, -5., 5.)
            ks = []
            for l in m.leaves:
                ks += l.d[v.name].knots()
            if v.name in e:
                ks += [k for k in e[v.name][:2]]
            for k in ks:
                if not isinstance(k, float) or abs(k) < 100:
                    H.assume(H.any(x - k >= W / 8, k - x >= W / 8))
            w[v.name] = x
        else:
            w[v.name] = H.choice(tuple(range(v.domain.n_values)))
    return w


def inside(e, w):
    for n, s in e.items():
        if isinstance(s, tuple):
            if not (s[0] < w[n] and w[n] < s[1]):
                return False
        elif w[n] not in s:
            return False
    return True


def covers(m, state, w):
    """is the world part of the state (in label space)"""
    for v in m.variables:
        s = state[v]
        x = label(v, w[v.name])
        if (x not in s) if isinstance(s, (set, frozenset, ContinuousSet, RealSet)) else s != x:
            return False
    return True


def first(s):
    return list(s)[0]


def mpe(H, m, e):
    sn = snap(m.jpt)
    pe = m.joint(e) if e else 1.
    possible(H, pe)
    w = world(H, m, e)
    r = m.jpt.mpe(query(m, e) if e else None, fail_on_unsatisfiability=False)
    unchanged(H, m.jpt, sn)
    if r is None:
        H.check(pe == 0, 'possible evidence is rejected')
        return
    states, p = r
    H.check(len(states) > 0, 'an explanation')
    d = density(m, w) if inside(e, w) else 0.
    H.le(d, p * pe, 'nothing is more probable')
    hit = False
    for s in states:
        if covers(m, s, w):
            hit = True
            H.close(d, p * pe, 'explanations have the maximal probability')
    if not hit:
        H.check(H.neg(d == p * pe) if e == {} else True, 'all explanations')


reg('T05', 'mpe', lambda H, m: mpe(H, m, {}), 'one num sym deep int wide wide2', 'no evidence')
reg('T05', 'mpe-I', lambda H, m: mpe(H, m, ev(H, m, H.choice(('I', 'A')), 'e')), 'nested', 'evidence A or I')
reg('T05', 'mpe-A', lambda H, m: mpe(H, m, ev(H, m, 'A', 'e')), 'num sym prior', 'evidence A')
reg('T05', 'mpe-X', lambda H, m: mpe(H, m, ev(H, m, 'X', 'e', ('[]', '-inf]'))), 'one num sym scaled', 'evidence X')
reg('T05', 'mpe-B', lambda H, m: mpe(H, m, ev(H, m, H.choice(('I', 'B')), 'e')), 'int', 'evidence B or I')


def kmpe(H, m, e):
    sn = snap(m.jpt)
    pe = m.joint(e) if e else 1.
    H.assume(pe >= 1. / 256)
    w = world(H, m, e)
    k = H.choice((0, 2))
    r = list(m.jpt.kmpe(m.jpt.bind(query(m, e)) if e else None, k=k))
    unchanged(H, m.jpt, sn)
    d = density(m, w) if inside(e, w) else 0.
    found = 0
    prev = None
    for s, p in r:
        if prev is not None:
            H.le(p, prev, 'decreasing probability')
        prev = p
        if covers(m, s, w):
            found += 1
            H.close(d, p * pe, 'probability of the explanation')
    if k and len(r) >= k:
        H.check(len(r) == k, 'at most k')
        H.check(found <= 1, 'no explanation twice')
        if not found:
            H.le(d, prev * pe, 'nothing more probable is left out')
    else:
        H.check(found == 1 if d > 0 else found == 0, 'every possible state exactly once')


reg('T05', 'kmpe', lambda H, m: kmpe(H, m, {}), 'one num sym deep int wide wide2 scaled', 'no evidence')
reg('T05', 'kmpe-A', lambda H, m: kmpe(H, m, ev(H, m, 'A', 'e')), 'num sym prior', 'evidence A')
reg('T05', 'kmpe-X', lambda H, m: kmpe(H, m, ev(H, m, 'X', 'e', ('[]', '-inf]'))), 'one num scaled', 'evidence X')


def kmpe_dirac(H, m):
    """numeric variables with a single possible value"""
    r = list(m.jpt.kmpe())
    for l in m.leaves:
        x = l.d['X'].atoms[0][0]
        order = []
        for a in range(3):
            hits = [i for i, (s, p) in enumerate(r) if covers(m, s, {'A': a, 'X': x})]
            H.check(len(hits) == (1 if l.d['A'][a] > 0 else 0), 'every possible state exactly once')
            order += [(i, l.d['A'][a]) for i in hits]
        for i, p in order:
            for j, q in order:
                if i < j:
                    H.le(q, p, 'decreasing probability')


reg('T05', 'kmpe', kmpe_dirac, 'dirac', 'no evidence')


# ---------------------------------------------------------------- densities of single worlds
def label(v, x):
    return up(x) if v is XS else x if v.numeric else first(labels(v, {x}))


def likelihood(H, m):
    sn = snap(m.jpt)
    ws = [world(H, m)]
    w = ws[0]
    d = density(m, w)
    ls = [label(v, w[v.name]) for v in m.variables]
    how = H.choice(('pdf', 'pdf-interval', 'pdf-part', 'likelihood', 'frame'))
    if how == 'pdf':
        H.close(m.jpt.pdf(m.jpt.bind({v.name: x for v, x in zip(m.variables, ls)}, allow_singular_values=True)), d, how)
    elif how == 'pdf-interval':
        H.close(m.jpt.pdf(m.jpt.bind({v.name: ContinuousSet(x, x) if v.numeric else x for v, x in zip(m.variables, ls)})), d, how)
    elif how == 'pdf-part':
        i = H.choice(tuple(range(len(m.variables))))
        v = m.variables[i]
        H.close(m.jpt.pdf(m.jpt.bind({v: ls[i]}, allow_singular_values=True)), density(m, {v.name: w[v.name]}), how)
    else:
        a = H.objarray([ls, ls]) if how == 'likelihood' else H.frame([v.name for v in m.variables], [ls, ls])
        r = m.jpt.likelihood(a)
        H.check(len(r) == 2, 'one likelihood per row')
        H.close(r[0], d, how)
        H.close(r[1], d, how)
    unchanged(H, m.jpt, sn)


reg('T06', 'likelihood', likelihood, 'one num sym deep prior int nested scaled', 'one possible world')


def region(H, m, w, ends=False):
    """the leaf a world belongs to, from the structure of the tree"""
    n = m.jpt.root
    while not isinstance(n, Leaf):
        x = w[n.variable.name]
        nxt = None
        for c, s in zip(n.children, n.splits):
            if (x in s) if not n.variable.numeric else (x >= s.lower and (x < s.upper)):
                nxt = c
        n = nxt
    return n.idx


def partition(H, m):
    """every world belongs to exactly one leaf, and all routes to the leaf agree"""
    w = {}
    for v in m.variables:
        w[v.name] = H.float('w' + v.name, -5., 5.) if v.numeric else H.choice(tuple(range(v.domain.n_values)))
    ls = [label(v, w[v.name]) for v in m.variables]
    home = region(H, m, w)
    how = H.choice(('encode', 'contains', 'apply', 'path', 'applies'))
    vals = ValueAssignment({v: ContinuousSet(w[v.name], w[v.name]) if v.numeric else {w[v.name]} for v in m.variables}.items(), m.variables)
    if how == 'encode':
        H.check(m.jpt.encode(H.objarray([ls, ls])) [1] == home, how)
    elif how == 'contains':
        vm = VariableMap([(v, i) for i, v in enumerate(m.variables)])
        row = H.array([[w[v.name] * 1. for v in m.variables]])
        for l in m.jpt.leaves.values():
            H.check(l.contains(row, vm)[0] == (1 if l.idx == home else 0), how)
    elif how == 'apply':
        H.check([l.idx for l in m.jpt.apply(vals)] == [home], how)
    elif how == 'applies':
        for l in m.jpt.leaves.values():
            H.check(bool(l.applies(vals)) == (l.idx == home), how)
    else:
        for l in m.jpt.leaves.values():
            one = VariableMap([(v, w[v.name]) for v in m.variables])
            H.check(bool(l.path_consistent_with(one)) == (l.idx == home), how)
            H.check(bool(l.path_consistent_with(vals)) == (l.idx == home), how)


reg('T06', 'partition', partition, 'one num sym deep int nested wide2 scaled', 'every world, the ends of the splits included')


def candidates(H, m, e):
    """apply() yields each leaf that the evidence does not exclude exactly once"""
    q = m.jpt.bind(query(m, e))
    got = [l.idx for l in m.jpt.apply(q)]
    H.check(len(set(got)) == len(got), 'apply: once')
    for l in m.leaves:
        leaf = m.jpt.leaves[l.idx]
        ok = True
        for v, s in leaf.path.items():
            if v.name not in e:
                continue
            x = e[v.name]
            if v.numeric:
                z = meet([x, (s.lower, s.upper, s.left, s.right)])
                ok = ok and z is not None
            else:
                ok = ok and bool(s & x)
        weak = True     # consistent with every single decision on the path
        for v, s in leaf._path:
            if v.name in e:
                x = e[v.name]
                weak = weak and (meet([x, (s.lower, s.upper, s.left, s.right)]) is not None if v.numeric else bool(s & x))
        H.check(l.idx in got if ok else True, 'apply: the leaves that are consistent with the evidence')
        H.check(weak if l.idx in got else True, 'apply: leaves excluded by a decision')
        H.check(bool(leaf.applies(q)) == ok, 'applies')
        H.check(bool(leaf.path_consistent_with(q.value_assignment())) == ok, 'path consistent')
        p = leaf.probability(q)
        H.close(p, prod([prob(l.d[n], s) for n, s in e.items()]), 'probability in the leaf')


def prod(xs):
    r = 1.
    for x in xs:
        r = r * x
    return r


reg('T06', 'apply-X', lambda H, m: candidates(H, m, ev(H, m, 'X', 'e', ('[]', '[)', '(]', '[inf', '-inf]'))), 'num sym deep', 'evidence X')
reg('T06', 'apply-AX', lambda H, m: candidates(H, m, ev(H, m, 'AX', 'e', ('[]', '()'))), 'num sym deep scaled', 'evidence A and X')
reg('T06', 'apply-IA', lambda H, m: candidates(H, m, ev(H, m, 'IA', 'e')), 'nested', 'evidence I and A')
reg('T06', 'apply-IB', lambda H, m: candidates(H, m, ev(H, m, 'IB', 'e')), 'int', 'evidence I and B')


def impulses(H, m):
    """observations of a single possible value count with the given scale"""
    l = m.leaves[H.choice((0, 1))]
    x = l.d['X'].atoms[0][0]
    a = H.choice((0, 1, 2))
    d = H.float('d', .25, 4.)
    k = H.float('k', .5, 4.)
    m.jpt.minimal_distances[X] = d
    p = l.prior * l.d['A'][a]
    how = H.choice(('likelihood', 'scaling', 'probability', 'certain'))
    rows = H.objarray([[LA[a], x]])
    leaf = m.jpt.leaves[l.idx]
    if how == 'likelihood':
        H.close(m.jpt.likelihood(rows)[0] * d, p * 2., how)
    elif how == 'scaling':
        H.close(m.jpt.likelihood(rows, k, VariableMap([(X, d * 2.)], m.variables))[0] * d * 2., p * k, how)
    elif how == 'probability':
        v = ValueAssignment([(A, {a}), (X, x)], m.variables)
        H.close(leaf.probability(v, k, VariableMap([(X, d)], m.variables)) * d, l.d['A'][a] * k, how)
    else:
        H.close(leaf.probability(ValueAssignment([(A, {a}), (X, ContinuousSet(x, x))], m.variables)), l.d['A'][a], how)
        y = H.float('y', -4., 4.)
        H.assume(H.any(y > x, y < x))
        H.close(leaf.probability(ValueAssignment([(X, y)], m.variables)), 0., how)


reg('T06', 'impulse', impulses, 'dirac', 'an observed impulse')


def best_leaves(H, m, e):
    """reverse(): the leaves in which every part of the query is at least as probable as required, best first"""
    if H.flag():
        c = H.float('c', 0., 1.)
        arg = {'confidence': c}
    else:
        c, arg = .05, {}
    sn = snap(m.jpt)
    q = query(m, e)
    if H.flag():
        q = {m.jpt.varnames[n]: x for n, x in q.items()}
    want = {}
    for l in m.leaves:
        ps = {n: prob(l.d[n], x) for n, x in e.items()}
        for p in ps.values():
            H.assume(H.any(p >= c + W, p <= c - W))
        want[l.idx] = ps
    r = m.jpt.reverse(q, **arg)
    unchanged(H, m.jpt, sn)
    got = [l.idx for _, l in r]
    H.check(len(set(got)) == len(got), 'reverse: once')
    sums = []
    for ps, l in r:
        H.check(l is m.jpt.leaves[l.idx], 'reverse: leaf')
        H.check(sorted(v.name for v in ps) == sorted(v.name for v in m.variables), 'reverse: variables')
        for v, p in ps.items():
            H.close(p, want[l.idx].get(v.name, 1.), 'reverse: confidence')
        sums.append(psum(list(ps.values())))
    for a, b in zip(sums, sums[1:]):
        H.check(a >= b - 1e-9, 'reverse: best first')
    for l in m.leaves:
        H.check(H.all(*[p >= c for p in want[l.idx].values()]) == (l.idx in got), 'reverse: exactly the leaves that match')
    H.check(m.jpt.reverse({'unknown': 1.}) == [], 'reverse: unknown variables only')


reg('T06', 'reverse-A', lambda H, m: best_leaves(H, m, ev(H, m, 'A', 'e')), 'num sym deep', 'query A')
reg('T06', 'reverse-X', lambda H, m: best_leaves(H, m, ev(H, m, 'X', 'e', ('[]', '[)', '[inf'))), 'num deep scaled', 'query X')
reg('T06', 'reverse-IB', lambda H, m: best_leaves(H, m, ev(H, m, 'IB', 'e')), 'int', 'query I and B')


# ---------------------------------------------------------------- JSON, pickle, copies, equality
def same_tree(H, a, b, sn, label):
    now = flat(snap(b))
    H.check(len(now) == len(flat(sn)), label)
    for x, y in zip(now, flat(sn)):
        H.check(x == y, label)


def settings(H, m):
    j = m.jpt
    j._min_samples_leaf = H.choice((1, 3, .25))
    j.max_depth = H.choice((float('inf'), 5))
    j.min_impurity_improvement = H.float('mii', 0., 1.)
    j.minimal_distances = VariableMap([(v, H.float('md' + v.name, 1. / 16, 4.)) for v in m.variables if v.numeric], m.variables)
    for l in j.leaves.values():
        l.samples = H.int('s%d' % l.idx, 1, 100)
    t = H.choice(('all', 'first', 'deps'))
    if t == 'first':
        j._targets, j._features = [m.variables[0]], [m.variables[1]]
        j.dependencies = VariableMap([(m.variables[1], [m.variables[0]])], m.variables)
    elif t == 'deps':
        j.dependencies = VariableMap([(m.variables[0], [m.variables[1]]), (m.variables[1], list(m.variables))], m.variables)


def roundtrip(H, m):
    settings(H, m)
    sn = snap(m.jpt)
    how = H.choice(('json', 'json-variables', 'copy', 'pickle'))
    j = m.jpt
    if how == 'json':
        c = JPT.from_json(H.json(j.to_json()))
    elif how == 'json-variables':
        c = JPT.from_json(H.json(j.to_json()), variables=j.variables)
    elif how == 'copy':
        c = j.copy()
    else:
        c = JPT.__new__(JPT)
        c.__setstate__(H.json(j.to_json())) if H.sym else c.__setstate__(j.__getstate__())
    H.check(c == j and j == c, how + ': equal')
    same_tree(H, j, c, sn, how + ': same tree')
    H.check([v.name for v in c.variables] == [v.name for v in j.variables] and list(c.variables) == list(j.variables), how + ': variables')
    if how in ('copy', 'json-variables'):
        H.check(all(a is b for a, b in zip(c.variables, j.variables)), how + ': variables')
    H.check([v.name for v in c.targets] == [v.name for v in j.targets] and [v.name for v in c.features] == [v.name for v in j.features], how + ': targets, features')
    H.check(c.min_samples_leaf == j.min_samples_leaf and c.max_depth == j.max_depth, how + ': settings')
    H.check(c.min_impurity_improvement == j.min_impurity_improvement, how + ': settings')
    H.check({k.name: [v.name for v in l] for k, l in c.dependencies.items()} == {k.name: [v.name for v in l] for k, l in j.dependencies.items()}, how + ': dependencies')
    for v in m.variables:
        if v.numeric:
            H.check(c.minimal_distances[c.varnames[v.name]] == j.minimal_distances[v], how + ': minimal distances')
    H.check(c.root.idx == j.root.idx and (c.root is c.allnodes[c.root.idx]), how + ': root')
    for l in c.leaves.values():
        n = l
        while n.parent is not None:
            H.check(n.parent is c.innernodes[n.parent.idx] and n in n.parent.children, how + ': nodes')
            n = n.parent
        H.check(n is c.root, how + ': nodes')
    # the copy does not share state with the original
    for l in c.leaves.values():
        l.prior = l.prior * .5
        for v, d in l.distributions.items():
            if v.numeric:
                d.cdf.functions[0] = ConstantFunction(.25)
            else:
                d._params[0] = 7.
    for n in c.innernodes.values():
        n._splits.pop()
    unchanged(H, j, sn, how + ': independent')


reg('T07', 'roundtrip', roundtrip, 'one num sym deep int nested scaled', 'any settings, numbers of samples')


@case('T07', 'inequality', 'real', bound='trees that differ in one parameter')
def inequality(H):
    m = t_deep(H)
    j = m.jpt
    c = j.copy()
    H.check(c == j, 'equal')
    what = H.choice(('prior', 'samples', 'distribution', 'numeric', 'split', 'variable', 'min_samples', 'depth', 'priors', 'targets', 'leaf', 'other'))
    l = c.leaves[H.choice(tuple(c.leaves))]
    x = H.float('z', 0., 1.)
    if what == 'prior':
        H.assume(H.neg(x == l.prior))
        l.prior = x
    elif what == 'samples':
        l.samples = 9
    elif what == 'distribution':
        H.assume(H.neg(x == l.distributions[A]._params[0]))
        l.distributions[A]._params[0] = x
    elif what == 'numeric':
        f = l.distributions[X].cdf.functions[1]
        H.assume(H.any(x < f.m, x > f.m))
        l.distributions[X].cdf.functions[1] = LinearFunction(x, f.c)
    elif what == 'split':
        n = c.innernodes[0]
        H.assume(x > 0)
        n._splits = [ContinuousSet(-H.inf, x, EXC, EXC), ContinuousSet(x, H.inf, INC, EXC)]
    elif what == 'variable':
        n = [n for n in c.innernodes.values() if n.variable is A][0]
        n.variable = X
    elif what == 'min_samples':
        c._min_samples_leaf = 2
    elif what == 'depth':
        c.max_depth = 3
    elif what == 'priors':
        c.priors[A] = A.domain().set(H.array([0., 0., 1.]))
    elif what == 'targets':
        c._targets = [A]
    elif what == 'leaf':
        del c.leaves[l.idx]
    else:
        other = H.choice((None, 'x', 1., A, j.root))
        H.check(not (j == other) and j != other, 'objects of other types differ')
        return
    H.check(not (c == j) and not (j == c), what + ': not equal')


def roundtrip_conditional(H, m):
    """conditional trees: decision nodes may have lost a child"""
    e = ev(H, m, H.choice(('A', 'X')), 'e', ('-inf]',))
    pe = m.joint(e)
    H.assume(pe >= 1. / 256)
    c = m.jpt.conditional_jpt(query(m, e))
    sn = snap(c)
    how = H.choice(('json', 'copy', 'again'))
    if how == 'again':
        d = c.conditional_jpt(query(m, e))
        H.check(set(d.leaves) == set(c.leaves), 'conditioning twice')
        for i in d.leaves:
            H.close(d.leaves[i].prior, c.leaves[i].prior, 'conditioning twice')
        q = ev(H, m, 'X', 'q', ('[]',))
        H.close(d.infer(query(m, q)) * pe, m.joint(q, e), 'conditioning twice')
    else:
        d = JPT.from_json(H.json(c.to_json())) if how == 'json' else c.copy()
        H.check(c == d, how + ' of a conditional tree: equal')
        same_tree(H, c, d, sn, how + ' of a conditional tree')
    unchanged(H, c, sn)


reg('T07', 'conditional', roundtrip_conditional, 'num sym deep', 'conditioned on A or X')


# ---------------------------------------------------------------- pruning
def prune(H, m):
    sn = snap(m.jpt)
    t = H.choice((0., .5, .9, 1.))
    r = m.jpt.prune(t)
    unchanged(H, m.jpt, sn)
    H.check(all(r.varnames[v.name] is v for v in m.variables), 'variables')
    H.close(psum([l.prior for l in r.leaves.values()]), 1., 'leaf probabilities sum to 1')
    H.check(r.total_samples() == m.jpt.total_samples(), 'samples')
    # structure
    todo, leaves, inner = [r.root], [], []
    while todo:
        n = todo.pop()
        if isinstance(n, Leaf):
            leaves.append(n.idx)
        else:
            inner.append(n.idx)
            H.check(len(n.children) == 2 and all(c.parent is n for c in n.children), 'structure')
            for c, s in zip(n.children, n.splits):
                H.check(c._path[-1][0] is n.variable and c._path[-1][1] is s and len(c._path) == len(n._path) + 1, 'structure: paths')
            todo += n.children
    H.check(sorted(leaves) == sorted(r.leaves) and sorted(inner) == sorted(r.innernodes), 'structure')
    # whatever is merged, every variable keeps its distribution
    v = H.choice(tuple(m.variables))
    q = ev(H, m, v.name, 'q', ('[]',))
    H.close(r.infer(query(m, q)), m.joint(q), 'distribution of the variables')
    # regions that were not merged keep their joint distribution
    for i, l in r.leaves.items():
        if i in m.jpt.leaves:
            H.check(l.prior == m.jpt.leaves[i].prior, 'other leaves')
    if t == 0.:
        H.check(len(r.leaves) == 1, 'threshold 0 merges everything')


reg('T08', 'prune', prune, 'one num sym prior deep int', 'thresholds 0, .5, .9, 1')


def similar(H):
    """two leaves are merged if they are similar enough"""
    p, q = probs(H, 'p', 2), probs(H, 'q', 2)
    m = build(H, [B, X], (X, 0., LeafSpec(.25, B=p, X=u(-1., 0.)), LeafSpec(.75, B=q, X=u(0., 1.))))
    t = H.float('t', 1. / 16, 1.)
    r = m.jpt.prune(t)
    lo, hi = 0., 0.
    for a, b in zip(p, q):
        lo, hi = lo + (a if a < b else b), hi + (b if a < b else a)
    s = B.domain.jaccard_similarity(m.jpt.leaves[1].distributions[B], m.jpt.leaves[2].distributions[B])
    H.assume(H.any(s - t >= 1e-3, t - s >= 1e-3))
    H.check(len(r.leaves) == (1 if s > t else 2), 'merged if the similarity reaches the threshold')
    if len(r.leaves) == 1:
        l = list(r.leaves.values())[0]
        H.check(r.root is l and l.parent is None and not r.innernodes and l.samples == 16, 'merged leaf')
        for i in range(2):
            H.close(l.distributions[B]._params[i], p[i] * .25 + q[i] * .75, 'merged distribution')
        ev_ = event(H, 'q', -2., 2., ('[]',))
        H.close(l.distributions[X].p(interval(ev_)), m.joint({'X': ev_}), 'merged distribution')


case('T08', 'similarity', 'real', bound='two leaves, any threshold')(similar)


def prune_conditional(H, m):
    e = ev(H, m, H.choice(('A', 'X')), 'e', ('-inf]',))
    pe = m.joint(e)
    H.assume(pe >= 1. / 256)
    c = m.jpt.conditional_jpt(query(m, e))
    r = c.prune(H.choice((0., .9)))
    v = H.choice(tuple(m.variables))
    q = ev(H, m, v.name, 'q', ('[]',))
    H.close(r.infer(query(m, q)) * pe, m.joint(q, e), 'distribution of the variables')


reg('T08', 'conditional', prune_conditional, 'num deep', 'conditioned on A or X')
