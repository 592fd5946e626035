"""Piecewise functions (jpt.base.functions)."""
from jpt.base.intervals import ContinuousSet, RealSet, INC, EXC, R
from jpt.base.functions import (PiecewiseFunction, ConstantFunction, LinearFunction, QuadraticFunction, Undefined,
                                Impulse, PLFApproximator)
from harness import case
from plfs import *

BND = '<= 3 segments per function, |x| <= 16, parameters in [-8, 8]; exact real arithmetic'


# ---- F01 arithmetic is pointwise -----------------------------------------------------------------
def binary(H, op, ka, kb, la, ra, lb, rb):
    sf, sg = segments(H, 'f', ka, la, ra), segments(H, 'g', kb, lb, rb)
    f, g = build(sf), build(sg)
    x = H.float('x', -2 * XMAX, 2 * XMAX)
    nf, ng = snapf(f), snapf(g)
    r = {'+': lambda: f + g, '*': lambda: f * g, '-': lambda: f - g}[op]()
    u, v = value(sf, x), value(sg, x)
    if u is None or v is None:
        want = None
    else:
        want = u + v if op == '+' else u * v if op == '*' else u - v
    agree(H, r, x, want, 'f %s g' % op)
    wellformed(H, r, 'f %s g' % op)
    unchanged(H, f, nf, 'first operand unchanged')
    unchanged(H, g, ng, 'second operand unchanged')


SHAPES = {'cc-fin': ('cc', 'cc', 0, 0, 0, 0), 'cc-inf': ('cc', 'cc', 1, 1, 1, 1), 'lc': ('lc', 'c', 0, 0, 0, 1),
          'c_c': ('c_c', 'cc', 0, 0, 1, 0), 'cdf': ('0l1', '0l1', 1, 1, 1, 1), 'uc': ('uc', 'lc', 0, 0, 0, 0)}
for _op in '+*-':
    for _n, _s in SHAPES.items():
        if _op == '*' and 'l' in _s[0] and 'l' in _s[1]:
            continue

        def _f(H, op=_op, s=_s):
            binary(H, op, *s)
        case('F01', '%s %s' % ({'+': 'sum', '*': 'product', '-': 'difference'}[_op], _n), 'real', bound=BND)(_f)


@case('F01', 'by-scalar', 'real', bound=BND)
def scalar(H):
    sf = segments(H, 'f', H.choice(('lc', 'c_l')), *H.choice(((0, 0),)))
    f = build(sf)
    x, a = H.float('x', -2 * XMAX, 2 * XMAX), H.float('a', -YMAX, YMAX)
    nf = snapf(f)
    k = H.choice(('+c', '*c', '/c', 'stretch', '+lin', '-lin', '-c', 'c-', 'c+', 'c*'))
    u = value(sf, x)
    if k == '/c':
        H.assume(H.any(a >= GAP, a <= -GAP))
    r, want = {'+c': lambda: (f + a, lambda u: u + a), '*c': lambda: (f * a, lambda u: u * a),
               '-c': lambda: (f - a, lambda u: u - a), 'c-': lambda: (a - f, lambda u: a - u),
               'c+': lambda: (a + f, lambda u: u + a), 'c*': lambda: (a * f, lambda u: u * a),
               '/c': lambda: (f / a, lambda u: u / a), 'stretch': lambda: (f.stretch(a), lambda u: u * a),
               '+lin': lambda: (f + LinearFunction(2., a), lambda u: u + (2 * x + a)),
               '-lin': lambda: (f - LinearFunction(2., a), lambda u: u - (2 * x + a))}[k]()
    agree(H, r, x, None if u is None else want(u), 'function ' + k)
    unchanged(H, f, nf, 'operand unchanged')


# ---- F02 evaluation and domain operations --------------------------------------------------------
@case('F02', 'eval', 'real', bound=BND)
def evaluation(H):
    k, l, r = H.choice((('lc', 0, 0), ('c_l', 0, 0), ('0l1', 1, 1), ('cul', 0, 0)))
    sf = segments(H, 'f', k, l, r, ends=H.choice((None, 'closed')))
    f = build(sf)
    x = H.float('x', -2 * XMAX, 2 * XMAX)
    s = find(sf, x)
    idx = f.idx_at(x)
    H.check((idx == -1) == (s is None), 'idx_at')
    i = f.interval_at(x)
    if s is None:
        H.check(f.at(x) is None, 'at outside')
        H.check(i.isempty(), 'interval_at outside')
        return
    H.check(sf[idx] is s, 'idx_at picks the segment')
    H.check(H.all(i.lower == s.lo, i.upper == s.hi), 'interval_at')
    v = f.eval(x)
    H.observe('v', v)
    H.close(v, value(sf, x), 'value')
    H.close(f(x), value(sf, x), 'call')
    H.close(f.multi_eval(H.array([x]))[0], value(sf, x), 'multi_eval')


@case('F02', 'crop', 'real', bound=BND)
def crop(H):
    k, l, r = H.choice((('lc', 0, 0), ('c_l', 0, 0), ('0l1', 1, 1)))
    sf = segments(H, 'f', k, l, r)
    f = build(sf)
    a, b = knots(H, 'i', 2)
    L, Rr = H.choice((INC, EXC)), H.choice((INC, EXC))
    x = H.float('x', -2 * XMAX, 2 * XMAX)
    nf = snapf(f)
    g = f.crop(ContinuousSet(a, b, L, Rr))
    u = value(sf, x)
    agree(H, g, x, u if Seg(a, b, L, Rr, 0., 0.).holds(x) else None, 'crop')
    wellformed(H, g, 'crop')
    unchanged(H, f, nf, 'operand unchanged')


@case('F02', 'overwrite_at', 'real', bound=BND)
def overwrite(H):
    k, l, r = H.choice((('lc', 0, 0), ('c_l', 0, 0), ('0l1', 1, 1), ('c', 0, 0)))
    sf = segments(H, 'f', k, l, r)
    f = build(sf)
    a, b = knots(H, 'i', 2)
    L, Rr = H.choice((INC, EXC)), H.choice((INC, EXC))
    v = H.float('v', -YMAX, YMAX)
    x = H.float('x', -2 * XMAX, 2 * XMAX)
    nf = snapf(f)
    g = f.overwrite_at(ContinuousSet(a, b, L, Rr), ConstantFunction(v))
    agree(H, g, x, v if Seg(a, b, L, Rr, 0., 0.).holds(x) else value(sf, x), 'overwrite_at')
    wellformed(H, g, 'overwrite_at')
    unchanged(H, f, nf, 'operand unchanged')


@case('F02', 'split', 'real', bound=BND)
def split(H):
    k, l, r = H.choice((('lc', 0, 0), ('0l1', 1, 1)))
    sf = segments(H, 'f', k, l, r)
    f = build(sf)
    p = H.float('p', -2 * XMAX, 2 * XMAX)
    x = H.float('x', -2 * XMAX, 2 * XMAX)
    nf = snapf(f)
    if find(sf, p) is None:
        try:
            f.split(p)
        except ValueError:
            return
        H.fail('split outside the domain is accepted')
    g, h = f.split(p)
    u = value(sf, x)
    if x < p:
        agree(H, g, x, u, 'left part')
        agree(H, h, x, None, 'right part left of the split point')
    else:
        agree(H, h, x, u, 'right part')
        agree(H, g, x, None, 'left part right of the split point')
    unchanged(H, f, nf, 'operand unchanged')


@case('F02', 'shift', 'real', bound=BND)
def shift(H):
    k, l, r = H.choice((('lc', 0, 0), ('c_l', 0, 0), ('0l1', 1, 1)))
    sf = segments(H, 'f', k, l, r)
    f = build(sf)
    d = H.float('d', -XMAX, XMAX)
    x = H.float('x', -2 * XMAX, 2 * XMAX)
    nf = snapf(f)
    agree(H, f.xshift(d), x, value(sf, x + d), 'xshift')
    unchanged(H, f, nf, 'operand unchanged')


@case('F02', 'mirror', 'real', bound=BND)
def mirror(H):
    k, l, r = H.choice((('lc', 0, 0), ('c_l', 0, 0), ('0l1', 1, 1), ('uc', 0, 0)))
    sf = segments(H, 'f', k, l, r)
    f = build(sf)
    x = H.float('x', -2 * XMAX, 2 * XMAX)
    for s in sf:        # the value exactly at a knot may move to the neighbour
        H.assume(H.all(x != -s.lo, x != -s.hi))
    nf = snapf(f)
    agree(H, f.xmirror(), x, value(sf, -x), 'xmirror')
    unchanged(H, f, nf, 'operand unchanged')


@case('F02', 'simplify', 'real', bound=BND)
def simplify(H):
    k, l, r = H.choice((('cc', 0, 0), ('ccc', 0, 0), ('c_c', 0, 0), ('0c1', 1, 1)))
    sf = segments(H, 'f', k, l, r)
    f = build(sf)
    x = H.float('x', -2 * XMAX, 2 * XMAX)
    nf = snapf(f)
    g = f.simplify()
    agree(H, g, x, value(sf, x), 'simplify')
    for (i, a), (j, b) in zip(list(g.iter()), list(g.iter())[1:]):
        H.check(H.neg(H.all(i.upper == j.lower, a.eval(0.) == b.eval(0.))), 'equal neighbours are merged')
    unchanged(H, f, nf, 'operand unchanged')


@case('F02', 'from_points', 'real', bound='3 points')
def from_points(H):
    xs = knots(H, 'p', 3)
    ys = [H.float('y%d' % i, -YMAX, YMAX) for i in range(3)]
    f = PiecewiseFunction.from_points(list(zip(xs, ys)))
    for x, y in zip(xs, ys):
        agree(H, f, x, y, 'passes through its points')
    x = H.float('x', -2 * XMAX, 2 * XMAX)
    if x < xs[0] or x > xs[2]:
        H.check(not has(f, x), 'defined outside its points')
    else:
        v = evaluate(f, x)
        H.check(v is not None, 'defined between its points')
        i = 0 if x < xs[1] else 1
        H.le(v, ys[i] if ys[i] > ys[i + 1] else ys[i + 1], 'between neighbours', tol=1e-3)
        H.le(ys[i] if ys[i] < ys[i + 1] else ys[i + 1], v, 'between neighbours', tol=1e-3)


@case('F02', 'from_dict-copy-undef', 'real', bound=BND)
def fromdict(H):
    sf = segments(H, 'f', 'cul')
    x = H.float('x', -2 * XMAX, 2 * XMAX)
    order = H.choice(((0, 1, 2), (2, 0, 1), (1, 2, 0)))
    f = PiecewiseFunction.from_dict({ContinuousSet(sf[i].lo, sf[i].hi, sf[i].l, sf[i].r): sf[i].fct() for i in order})
    agree(H, f, x, value(sf, x), 'from_dict')
    wellformed(H, f, 'from_dict')
    nf = snapf(f)
    g = f.copy()
    agree(H, g, x, value(sf, x), 'copy')
    for i in g.intervals:
        i.lower = i.lower - 1.
    g.functions[0].value = 0.
    unchanged(H, f, nf, 'copy is independent')
    d = f.drop_undef()
    u = value(sf, x)
    agree(H, d, x, None if u is None or H.is_nan(u) else u, 'drop_undef')
    H.check(len(d) == 2, 'drop_undef drops')


# ---- F03 integrals -------------------------------------------------------------------------------
def area(H, segs, a, b):
    """exact area of the segments over [a, b] (branches on the order of the bounds)"""
    t = 0.
    for s in segs:
        lo = s.lo if s.lo > a else a
        hi = s.hi if s.hi < b else b
        if lo < hi:
            t = t + (.5 * s.m * (hi * hi - lo * lo) if not (isinstance(s.m, float) and s.m == 0) else 0.) + s.c * (hi - lo)
    return t


@case('F03', 'constant-pieces', 'real', bound=BND)
def integral_c(H):
    k, l, r = H.choice((('cc', 0, 0), ('c_c', 0, 0), ('0c0', 1, 1)))
    sf = segments(H, 'f', k, l, r)
    f = build(sf)
    a, b = knots(H, 'i', 2, -2 * XMAX, 2 * XMAX)
    v = f.integrate(ContinuousSet(a, b, H.choice((INC, EXC)), INC))
    H.observe('area', v)
    H.close(v, area(H, sf, a, b), 'integral of constants', tol=1e-3)


@case('F03', 'linear-pieces', 'real', bound=BND, query_ms=4000)
def integral_l(H):
    sf = segments(H, 'f', H.choice(('l', 'lc')), 0, 0)
    f = build(sf)
    a, b = knots(H, 'i', 2, -2 * XMAX, 2 * XMAX)
    H.close(f.integrate(ContinuousSet(a, b, INC, EXC)), area(H, sf, a, b), 'integral of linear pieces', tol=1e-2)


@case('F03', 'whole-line', 'real', bound=BND)
def integral_all(H):
    k, l, r = H.choice((('cc', 0, 0), ('l', 0, 0), ('0c0', 1, 1)))
    sf = segments(H, 'f', k, l, r)
    f = build(sf)
    H.close(f.integrate(), area(H, sf, -64., 64.), 'integral over the whole line', tol=1e-2)


@case('F03', 'additive', 'real', bound=BND)
def integral_add(H):
    sf = segments(H, 'f', H.choice(('cc', 'lc')), 0, 0)
    f = build(sf)
    a, b, c = knots(H, 'i', 3, -2 * XMAX, 2 * XMAX)
    H.close(f.integrate(ContinuousSet(a, b, INC, EXC)) + f.integrate(ContinuousSet(b, c, INC, EXC)),
            f.integrate(ContinuousSet(a, c, INC, EXC)), 'additive', tol=1e-2)


@case('F03', 'single-function', 'real', bound='one constant or linear function, bounds possibly infinite')
def integral_single(H):
    m = H.float('m', -YMAX, YMAX)
    c = H.float('c', -YMAX, YMAX)
    kind = H.choice(('c', 'l'))
    a, b = knots(H, 'i', 2)
    if kind == 'c':
        f = ConstantFunction(c)
        H.close(f.integrate(a, b), c * (b - a), 'constant', tol=1e-3)
    else:
        f = LinearFunction(m, c)
        H.close(f.integrate(a, b), .5 * m * (b * b - a * a) + c * (b - a), 'linear', tol=1e-2)
    H.same(f.integrate(a, a), 0., 'empty range')
    k = H.choice(('l', 'r'))
    H.assume(H.any(m >= GAP, m <= -GAP, m == 0))
    H.assume(H.any(c >= GAP, c <= -GAP))
    if k == 'l':
        s = (c if kind == 'c' or m == 0 else -m)
        v = f.integrate(-H.inf, b)
    else:
        s = (c if kind == 'c' or m == 0 else m)
        v = f.integrate(a, H.inf)
    H.same(v, H.inf if s > 0 else -H.inf, 'unbounded range')


@case('F03', 'rectify', 'real', bound=BND)
def rectify(H):
    sf = segments(H, 'f', H.choice(('lc', 'cl', 'l')), 0, 0)
    f = build(sf)
    nf = snapf(f)
    g = f.rectify()
    j = H.choice(range(len(sf)))
    i = ContinuousSet(sf[j].lo, sf[j].hi, INC, EXC)
    H.close(g.integrate(i), area(H, sf, sf[j].lo, sf[j].hi), 'rectify keeps the area of every piece', tol=1e-2)
    for h in g.functions:
        H.check(isinstance(h, ConstantFunction), 'rectify yields constants')
    unchanged(H, f, nf, 'operand unchanged')


@case('F03', 'derivative', 'real', bound=BND)
def derivative(H):
    sf = segments(H, 'f', H.choice(('lc', 'l', 'ul')), 0, 0)
    f = build(sf)
    g = f.differentiate()
    x = H.float('x', -2 * XMAX, 2 * XMAX)
    s = find(sf, x)
    agree(H, g, x, None if s is None else H.nan if s.m is None else s.m, 'derivative')


# ---- F04 minimum, maximum, absolute value --------------------------------------------------------
def minmax(H, op, ka, kb, *e):
    sf, sg = segments(H, 'f', ka, *e), segments(H, 'g', kb, *e)
    f, g = build(sf), build(sg)
    x = H.float('x', -2 * XMAX, 2 * XMAX)
    nf, ng = snapf(f), snapf(g)
    r = getattr(PiecewiseFunction, op)(f, g)
    u, v = value(sf, x), value(sg, x)
    want = None
    if u is not None and v is not None:
        want = (u if u < v else v) if op == 'min' else (u if u > v else v)
    agree(H, r, x, want, op, tol=1e-3)
    unchanged(H, f, nf, 'first operand unchanged')
    unchanged(H, g, ng, 'second operand unchanged')


for _op in ('min', 'max'):
    for _n, _s in {'cc': ('cc', 'cc', 0, 0), 'ccinf': ('0c1', '0c1', 1, 1), 'lc': ('l', 'c', 0, 0), 'll': ('l', 'l', 0, 0), 'cl': ('cc', 'l', 0, 0)}.items():
        def _f(H, op=_op, s=_s):
            minmax(H, op, *s)
        case('F04', '%s %s' % (_op, _n), 'real', bound=BND, query_ms=4000)(_f)


@case('F04', 'abs', 'real', bound=BND)
def absolute(H):
    sf = segments(H, 'f', H.choice(('c', 'l', 'cl')), 0, 0)
    f = build(sf)
    x = H.float('x', -2 * XMAX, 2 * XMAX)
    nf = snapf(f)
    r = PiecewiseFunction.abs(f)
    u = value(sf, x)
    agree(H, r, x, None if u is None else (u if u >= 0 else -u), 'abs', tol=1e-3)
    unchanged(H, f, nf, 'operand unchanged')


@case('F04', 'maximize', 'real', bound=BND)
def maximize(H):
    k = H.choice(('c', 'cc', 'cl', 'ccc'))
    sf = segments(H, 'f', k, 0, 0)
    f = build(sf)
    x = H.float('x', -2 * XMAX, 2 * XMAX)
    nf = snapf(f)
    arg, m = f.maximize()
    u = value(sf, x)
    if u is not None:
        H.le(u, m, 'no value exceeds the maximum', tol=1e-3)
        if arg.contains_value(x):
            H.close(u, m, 'the maximum is attained', tol=1e-3)
        else:
            H.check(H.neg(u > m), 'a larger value outside the maximisers')
            if 'l' not in k:
                H.check(u != m, 'all maximisers are reported')
    else:
        H.check(not arg.contains_value(x), 'maximisers lie in the domain')
    H.check(not arg.isempty(), 'a maximiser is reported')
    unchanged(H, f, nf, 'operand unchanged')


@case('F04', 'maximize-peaks', 'real', bound='continuous functions of 2 to 4 linear pieces over [0, n), integer knots, arbitrary integer heights')
def maximize_peaks(H):
    n = H.choice((2, 3, 4))
    ys = [H.int('y%d' % i, -8, 8) * 1. for i in range(n)] + [-YMAX - 1.]
    f = PiecewiseFunction()
    for i in range(n):
        f.append(ContinuousSet(float(i), float(i + 1), INC, EXC),
                 LinearFunction.from_points((float(i), ys[i]), (float(i + 1), ys[i + 1])))
    nf = snapf(f)
    arg, m = f.maximize()
    top = ys[0]
    for y in ys[1:]:
        top = y if y > top else top
    H.close(m, top, 'the maximum is the highest knot')
    for i in range(n):
        if ys[i] == top:
            H.check(arg.contains_value(float(i)), 'every highest knot is reported')
        else:
            H.check(not arg.contains_value(float(i)), 'no lower knot is reported')
    unchanged(H, f, nf, 'operand unchanged')


@case('F04', 'jaccard', 'real', bound=BND, query_ms=4000)
def jaccard(H):
    sf, sg = segments(H, 'f', '0c0', 1, 1), segments(H, 'g', '0c0', 1, 1)
    H.assume(H.all(sf[1].c >= GAP, sg[1].c >= GAP))
    f, g = build(sf), build(sg)
    j = PiecewiseFunction.jaccard_similarity(f, g)
    H.le(0., j, 'at least 0')
    H.le(j, 1., 'at most 1')
    H.close(PiecewiseFunction.jaccard_similarity(f, f), 1., 'reflexive')


# ---- F05 level sets ------------------------------------------------------------------------------
@case('F05', 'support', 'real', bound='densities of <= 3 constant pieces between two zero tails')
def support(H):
    k = H.choice(('0c0', '0cc0', '0c0c0', '0ccc0'))
    sf = segments(H, 'f', k, 1, 1)
    for s in sf:
        H.assume(s.c >= 0)
    f = build(sf)
    x = H.float('x', -2 * XMAX, 2 * XMAX)
    nf = snapf(f)
    g = f.gt(0.)
    H.iff(g.contains_value(x), value(sf, x) > 0, 'where the density is positive')
    unchanged(H, f, nf, 'operand unchanged')


def monotone(H, name='f', n=2, xs=None):
    """a continuous, non-decreasing, piecewise linear function on the whole line: 0 | linear ... | 1"""
    xs = knots(H, name, n + 1) if xs is None else list(xs)
    ys = [0.] + [H.float('%s.y%d' % (name, i), 0., 1.) for i in range(1, n)] + [1.]
    for a, b in zip(ys, ys[1:]):
        H.assume(a <= b)
    f = PiecewiseFunction()
    f.append(ContinuousSet(-H.inf, xs[0], EXC, EXC), ConstantFunction(0.))
    for i in range(n):
        f.append(ContinuousSet(xs[i], xs[i + 1], INC, EXC), LinearFunction.from_points((xs[i], ys[i]), (xs[i + 1], ys[i + 1])))
    f.append(ContinuousSet(xs[-1], H.inf, INC, EXC), ConstantFunction(1.))

    def val(x):
        if x < xs[0]:
            return 0.
        for i in range(n):
            if x < xs[i + 1]:
                return ys[i] + (ys[i + 1] - ys[i]) * (x - xs[i]) / (xs[i + 1] - xs[i])
        return 1.
    return f, val, xs, ys


@case('F05', 'monotone', 'real', bound='continuous non-decreasing functions of 1 or 2 linear pieces', query_ms=4000)
def levels(H):
    f, val, xs, ys = monotone(H, n=H.choice((1, 2)))
    y = H.float('y', 0., 1.)
    for v in ys:        # levels attained on a whole piece excepted
        H.assume(y != v)
    x = H.float('x', -2 * XMAX, 2 * XMAX)
    v = val(x)
    k = H.choice(('lt', 'gt'))
    s = getattr(f, k)(y)
    H.iff(s.contains_value(x), v < y if k == 'lt' else v > y, k)


# ---- F06 equality, hash, JSON --------------------------------------------------------------------
@case('F06', 'json', 'real', bound=BND)
def fjson(H):
    k, l, r = H.choice((('lc', 0, 0), ('c_l', 0, 0), ('0l1', 1, 1)))
    sf = segments(H, 'f', k, l, r)
    f = build(sf)
    x = H.float('x', -2 * XMAX, 2 * XMAX)
    g = PiecewiseFunction.from_json(H.json(f.to_json()))
    agree(H, g, x, value(sf, x), 'JSON round trip')
    H.check(g == f, 'JSON round trip yields an equal function')
    H.check(H.hash_equal(f, g), 'equal functions hash equally')


@case('F06', 'json-single', 'real', bound='constant, linear and quadratic functions')
def fjson1(H):
    a, b, c = (H.float(n, -YMAX, YMAX) for n in 'abc')
    x = H.float('x', -XMAX, XMAX)
    k = H.choice('clq')
    f = ConstantFunction(a) if k == 'c' else LinearFunction(a, b) if k == 'l' else QuadraticFunction(a, b, c)
    g = (QuadraticFunction if k == 'q' else LinearFunction).from_json(H.json(f.to_json()))
    H.close(g.eval(x), f.eval(x), 'JSON round trip', tol=1e-3)
    H.check(f == g, 'JSON round trip yields an equal function')
    h = f.copy()
    H.check(f == h, 'a copy is equal')
    H.close(h.eval(x), f.eval(x), 'a copy has the same values', tol=1e-3)


@case('F06', 'equality', 'real', bound='functions of 1 or 2 constant or linear pieces')
def fequal(H):
    ka, kb = H.choice((('c', 'c'), ('cc', 'c'), ('c', 'cc'), ('l', 'c'), ('lc', 'lc')))
    sf, sg = segments(H, 'f', ka), segments(H, 'g', kb)
    f, g = build(sf), build(sg)
    x = H.float('x', -2 * XMAX, 2 * XMAX)
    e = f == g
    H.check((g == f) == e, 'symmetric')
    H.check(f == f, 'reflexive')
    H.check((f != g) != e, 'unequal is the negation')
    if e:
        u, v = value(sf, x), value(sg, x)
        H.check((u is None) == (v is None), 'equal functions have equal domains')
        if u is not None:
            H.close(u, v, 'equal functions have equal values')
        H.check(H.hash_equal(f, g), 'equal functions hash equally')


@case('F06', 'equality-single', 'real', bound='constant and linear functions')
def fequal1(H):
    a, b, c, d = (H.float(n, -YMAX, YMAX) for n in 'abcd')
    x = H.float('x', -XMAX, XMAX)
    f = H.choice((ConstantFunction(a), LinearFunction(a, b)))
    g = H.choice((ConstantFunction(c), LinearFunction(c, d)))
    e = f == g
    H.check((g == f) == e, 'symmetric')
    if e:
        H.close(f.eval(x), g.eval(x), 'equal functions have equal values')
        H.check(H.hash_equal(f, g), 'equal functions hash equally')
    elif type(f) is type(g):
        H.check(H.neg(H.all(a == c, True if isinstance(f, ConstantFunction) else b == d)), 'identical parameters are equal')


# ---- F07 approximation ---------------------------------------------------------------------------
@case('F07', 'linear', 'real', bound='continuous functions of 3 linear pieces (two knot layouts, symbolic heights) between constant tails', query_ms=4000)
def approximate(H):
    f, val, xs, ys = monotone(H, n=3, xs=H.choice(((0., 1., 3., 4.), (-2., -1.5, 0., .5))))
    nf = snapf(f)
    n = H.choice((3, 4, 5))
    g = f.approximate(n_segments=n)
    wellformed(H, g, 'approximation')
    H.check(len(g) <= n, 'at most the requested number of pieces')
    x = H.float('x', -2 * XMAX, 2 * XMAX)
    v = evaluate(g, x)
    H.check(v is not None, 'same domain')
    H.le(0., v, 'stays within the range', tol=1e-3)
    H.le(v, 1., 'stays within the range', tol=1e-3)
    if x < xs[0]:
        H.close(v, 0., 'left tail')
    if x >= xs[-1]:
        H.close(v, 1., 'right tail')
    for (i, a), (j, b) in zip(list(g.iter()), list(g.iter())[1:]):
        H.check(i.upper == j.lower, 'no gaps')
        H.close(a.eval(i.upper), b.eval(j.lower), 'stays continuous')
    unchanged(H, f, nf, 'operand unchanged')


@case('F07', 'error-bound', 'real', bound='continuous functions of 2 linear pieces between constant tails', query_ms=4000)
def approximate_err(H):
    f, val, xs, ys = monotone(H, n=2)
    e = H.float('e', 0., 1.)
    g = f.approximate(error_max=e)
    x = H.float('x', -2 * XMAX, 2 * XMAX)
    v = evaluate(g, x)
    H.check(v is not None, 'same domain')
    if e == 0:
        H.close(v, val(x), 'without tolerance nothing changes', tol=1e-3)


@case('F07', 'constant', 'real', bound='densities of 2 or 3 constant pieces (three knot layouts, symbolic heights) between zero tails', query_ms=4000)
def approximate_const(H):
    b = H.choice(((0., 1., 3.), (0., 1., 3., 4.), (-2., -1.5, 0., .5)))
    sf = [Seg(-H.inf, b[0], EXC, EXC, 0., 0.)]
    sf += [Seg(p, q, INC, EXC, 0., H.float('c%d' % i, 0., YMAX)) for i, (p, q) in enumerate(zip(b, b[1:]))]
    sf += [Seg(b[-1], H.inf, INC, EXC, 0., 0.)]
    f = build(sf)
    g = f.approximate(n_segments=3, replace_by=ConstantFunction)
    wellformed(H, g, 'approximation')
    H.check(len(g) <= 3, 'at most the requested number of pieces')
    H.close(g.integrate(), f.integrate(), 'area is kept', tol=1e-2)
    mean_pieces(H, g, b, sf)


def mean_pieces(H, g, b, sf):
    """every piece of the approximation is a union of pieces and has their mean height"""
    pieces = list(g.iter())
    H.check(pieces[0][0].upper == b[0], 'left tail is kept')
    H.check(pieces[-1][0].lower == b[-1], 'right tail is kept')
    H.check(pieces[0][1].value == 0, 'left tail is zero')
    H.check(pieces[-1][1].value == 0, 'right tail is zero')
    for (i, f), (j, _) in zip(pieces, pieces[1:]):
        H.check(i.upper == j.lower, 'no gaps')
    for i, f in pieces[1:-1]:
        area = sum((s.c * (s.hi - s.lo) for s in sf[1:-1] if i.lower <= s.lo and s.hi <= i.upper), 0.)
        width = sum(s.hi - s.lo for s in sf[1:-1] if i.lower <= s.lo and s.hi <= i.upper)
        H.check(width == i.upper - i.lower, 'pieces are unions of the original pieces')
        H.close(f.value * width, area, 'mean height', tol=1e-2)


@case('F07', 'constant-4', 'real', bound='densities of 4 constant pieces of width 1 with symbolic heights between zero tails, all numbers of segments', query_ms=4000)
def approximate_const4(H):
    b = (0., 1., 2., 3., 4.)
    n = H.choice((5, 4, 3))
    sf = [Seg(-H.inf, b[0], EXC, EXC, 0., 0.)]
    sf += [Seg(p, q, INC, EXC, 0., H.float('c%d' % i, 0., YMAX)) for i, (p, q) in enumerate(zip(b, b[1:]))]
    sf += [Seg(b[-1], H.inf, INC, EXC, 0., 0.)]
    f = build(sf)
    g = f.approximate(n_segments=n, replace_by=ConstantFunction)
    wellformed(H, g, 'approximation')
    H.check(len(g) <= n, 'at most the requested number of pieces')
    mean_pieces(H, g, b, sf)


# ---- F08 convolution -----------------------------------------------------------------------------
@case('F08', 'boxes', 'real', bound='two densities of one constant piece each', query_ms=4000)
def convolution(H):
    sf, sg = segments(H, 'f', '0c0', 1, 1), segments(H, 'g', '0c0', 1, 1)
    f, g = build(sf), build(sg)
    nf, ng = snapf(f), snapf(g)
    h = f.convolution(g)
    a, b, c, d = sf[1].lo, sf[1].hi, sg[1].lo, sg[1].hi
    z = H.float('z', -2 * XMAX, 2 * XMAX)
    # overlap of [a, b] and [z - d, z - c]
    lo = a if a > z - d else z - d
    hi = b if b < z - c else z - c
    want = sf[1].c * sg[1].c * (hi - lo) if lo < hi else 0.
    v = evaluate(h, z)
    H.check(v is not None, 'defined everywhere')
    H.close(v, want, 'convolution', tol=1e-2)
    unchanged(H, f, nf, 'first operand unchanged')
    unchanged(H, g, ng, 'second operand unchanged')


@case('F08', 'two-pieces', 'real', bound='a density of two constant pieces (unit knots) with one of one piece', query_ms=4000)
def convolution2(H):
    sf = [Seg(-H.inf, 0., EXC, EXC, 0., 0.), Seg(0., 1., INC, EXC, 0., H.float('f.c1', 0., 4.)), Seg(1., 3., INC, EXC, 0., H.float('f.c2', 0., 4.)),
          Seg(3., H.inf, INC, EXC, 0., 0.)]
    sg = segments(H, 'g', '0c0', 1, 1)
    f, g = build(sf), build(sg)
    h = f.convolution(g) if H.flag() else g.convolution(f)
    c, d = sg[1].lo, sg[1].hi
    z = H.float('z', -2 * XMAX, 2 * XMAX)
    want = 0.
    for s in sf[1:3]:
        lo = s.lo if s.lo > z - d else z - d
        hi = s.hi if s.hi < z - c else z - c
        if lo < hi:
            want = want + s.c * sg[1].c * (hi - lo)
    v = evaluate(h, z)
    H.check(v is not None, 'defined everywhere')
    H.close(v, want, 'convolution', tol=1e-2)


# ---- F09 elementary functions --------------------------------------------------------------------
@case('F09', 'arithmetic', 'real', bound='constant, linear, quadratic functions, parameters in [-8, 8]')
def elem(H):
    a, b, c, d = (H.float(n, -YMAX, YMAX) for n in 'abcd')
    x = H.float('x', -XMAX, XMAX)
    f = H.choice((ConstantFunction(a), LinearFunction(a, b), QuadraticFunction(a, b, 1.)))
    g = H.choice((ConstantFunction(c), LinearFunction(c, d)))
    u, v = f.eval(x), g.eval(x)
    k = H.choice('+*')
    if k == '*' and isinstance(f, QuadraticFunction) and isinstance(g, LinearFunction):
        return
    h = f + g if k == '+' else f * g
    H.close(h.eval(x), u + v if k == '+' else u * v, 'pointwise ' + k, tol=1e-2)
    H.close(f.eval(x), u, 'operand unchanged')
    H.close(g.eval(x), v, 'operand unchanged')


@case('F09', 'lines', 'real', bound='linear functions, parameters in [-8, 8]')
def lines(H):
    x1, y1, x2, y2 = (H.float(n, -YMAX, YMAX) for n in ('x1', 'y1', 'x2', 'y2'))
    x = H.float('x', -XMAX, XMAX)
    H.assume(H.any(x2 - x1 >= GAP, x1 - x2 >= GAP))
    f = LinearFunction.from_points((x1, y1), (x2, y2))
    H.close(f.eval(x1), y1, 'line through two points')
    H.close(f.eval(x2), y2, 'line through two points')
    m = H.float('m', -YMAX, YMAX)
    c = H.float('c', -YMAX, YMAX)
    d = H.float('d', -YMAX, YMAX)
    g = LinearFunction(m, c)
    H.close(g.differentiate().eval(x), m, 'slope')
    H.close(g.xshift(d).eval(x), g.eval(x + d), 'shift')
    H.close(g.xmirror().eval(x), g.eval(-x), 'mirror')
    H.close(g.hmirror().eval(x), -g.eval(x), 'horizontal mirror')
    H.close(g.simplify().eval(x), g.eval(x), 'simplify')
    if m >= GAP:
        H.close(g.eval(g.root()), 0., 'root')
        H.close(g.invert().eval(g.eval(x)), x, 'inverse')


@case('F09', 'crossing', 'real', bound='constant and linear functions')
def crossing(H):
    a, b, c, d = (H.float(n, -YMAX, YMAX) for n in 'abcd')
    x = H.float('x', -XMAX, XMAX)
    f = H.choice((ConstantFunction(a), LinearFunction(a, b)))
    g = H.choice((ConstantFunction(c), LinearFunction(c, d)))
    s = f.intersection(g)
    if s.contains_value(x):
        H.close(f.eval(x), g.eval(x), 'functions agree where they cross')
    elif s.isempty():
        H.check(f.eval(x) != g.eval(x), 'no crossing means different values')
    else:
        t = f.eval(x) - g.eval(x)
        H.check(H.any(t > 0, t < 0), 'all crossings are found')


@case('F09', 'quadratic', 'real', bound='quadratic functions, parameters in [-8, 8]', query_ms=4000)
def quadratic(H):
    a, b, c = (H.float(n, -YMAX, YMAX) for n in 'abc')
    H.assume(H.any(a >= GAP, a <= -GAP))
    f = QuadraticFunction(a, b, c)
    x = H.float('x', -XMAX, XMAX)
    r = f.roots()
    for i in range(len(r)):
        H.close(f.eval(r[i]), 0., 'roots', tol=1e-2)
    if len(r) == 0:
        H.check(f.eval(x) != 0, 'no roots')
    H.close(f.differentiate().eval(x), 2 * a * x + b, 'derivative', tol=1e-3)
    v = f.argvertex()
    if a > 0:
        H.le(f.eval(v), f.eval(x), 'vertex', tol=1e-2)
    else:
        H.le(f.eval(x), f.eval(v), 'vertex', tol=1e-2)


@case('F09', 'quadratic-points', 'real', bound='3 points with distinct coordinates', query_ms=4000)
def quadratic_points(H):
    xs = knots(H, 'p', 3, -4., 4., gap=.5)
    ys = [H.float('y%d' % i, -4., 4.) for i in range(3)]
    f = QuadraticFunction.from_points(*zip(xs, ys))
    for x, y in zip(xs, ys):
        H.close(f.eval(x), y, 'parabola through three points', tol=1e-2)


@case('F09', 'numbers', 'real', bound='constant, linear, quadratic functions with a number on either side')
def elem_numbers(H):
    a, b, c = (H.float(n, -YMAX, YMAX) for n in 'abc')
    x = H.float('x', -XMAX, XMAX)
    f = H.choice((ConstantFunction(a), LinearFunction(a, b), QuadraticFunction(a, b, 1.)))
    u = f.eval(x)
    k = H.choice(('f+c', 'c+f', 'f*c', 'c*f', 'f-c', 'c-f', 'f-g', 'g-f'))
    if '-' in k and not isinstance(f, LinearFunction):
        return
    g = H.choice((ConstantFunction(c), LinearFunction(c, 2.))) if 'g' in k else None
    v = c if g is None else g.eval(x)
    h, want = {'f+c': lambda: (f + c, u + v), 'c+f': lambda: (c + f, u + v), 'f*c': lambda: (f * c, u * v), 'c*f': lambda: (c * f, u * v),
               'f-c': lambda: (f - c, u - v), 'c-f': lambda: (c - f, v - u), 'f-g': lambda: (f - g, u - v), 'g-f': lambda: (g - f, v - u)}[k]()
    H.close(h.eval(x), want, 'pointwise ' + k, tol=1e-2)
    H.close(f.eval(x), u, 'operand unchanged')


@case('F09', 'undefined', 'real', bound='every kind of elementary function')
def elem_undefined(H):
    a, b, x, d = (H.float(n, -YMAX, YMAX) for n in 'abxd')
    f = H.choice((ConstantFunction(a), LinearFunction(a, b), QuadraticFunction(a, b, 1.), Undefined()))
    w = Undefined()
    for h in (f + w, w + f, f * w, w * f, w.copy(), w.differentiate(), w.xshift(d), w.xmirror(), w + a, w * a):
        H.check(H.is_nan(h.eval(x)), 'undefined stays undefined')
    H.check(w == Undefined(), 'undefined functions are equal')


@case('F09', 'crosses', 'real', bound='constant and linear functions')
def crosses(H):
    a, b, c, d = (H.float(n, -YMAX, YMAX) for n in 'abcd')
    f = H.choice((ConstantFunction(a), LinearFunction(a, b)))
    g = H.choice((ConstantFunction(c), LinearFunction(c, d)))
    s = f.intersection(g)
    H.iff(bool(f.intersects(g)), not s.isempty(), 'functions intersect when they have a crossing')
    H.iff(bool(g.intersects(f)), not s.isempty(), 'functions intersect when they have a crossing')


@case('F09', 'knots', 'real', bound='hinges, jumps and impulses of either direction')
def knot_functions(H):
    from jpt.base.functions import Hinge, Jump
    k, w, x = H.float('k', -YMAX, YMAX), H.float('w', -YMAX, YMAX), H.float('x', -XMAX, XMAX)
    al = H.choice((1, -1))
    f = Hinge(k, al, w)
    t = k - x if al == 1 else x - k
    H.close(f.eval(x), w * t if t > 0 else 0., 'hinge')
    d = f.differentiate()
    H.assume(H.neg(x == k))
    H.close(d.eval(x), (-w if al == 1 else w) if t > 0 else 0., 'slope of a hinge')
    j = Jump(k, al, w)
    H.close(j.eval(x), w if t > 0 else 0., 'jump')
    i = j.differentiate()
    H.check(i.eval(x) == 0, 'impulse away from its position')
    H.check(i.eval(k) == w, 'impulse at its position')
    H.check(not f.is_invertible() and not i.is_invertible(), 'not invertible')


@case('F09', 'many-points', 'real', bound='elementary and piecewise functions at 2 points')
def many_points(H):
    a, b = H.float('a', -YMAX, YMAX), H.float('b', -YMAX, YMAX)
    xs = [H.float('x%d' % i, -XMAX, XMAX) for i in range(2)]
    k = H.choice(('c', 'l', 'q', 'p'))
    if k == 'p':
        f = build(segments(H, 'f', 'lc', 1, 1))
    else:
        f = {'c': ConstantFunction(a), 'l': LinearFunction(a, b), 'q': QuadraticFunction(a, b, 1.)}[k]
    arr = H.array(xs)
    out = H.array([0., 0.]) if H.flag() else None
    r = f.multi_eval(arr, out) if out is not None else f.multi_eval(arr)
    for i in range(2):
        H.same(r[i], f.eval(xs[i]), 'values at many points')
        if out is not None:
            H.same(out[i], r[i], 'written into the given array')


@case('F02', 'knots', 'real', bound='3 points')
def knots_of(H):
    xs = knots(H, 'p', 3)
    ys = [H.float('y%d' % i, -YMAX, YMAX) for i in range(3)]
    f = PiecewiseFunction.from_points(list(zip(xs, ys)))
    ks = f.knots()
    H.check(len(ks) == 3, 'as many knots as points')
    for (kx, ky), x, y in zip(ks, xs, ys):
        H.close(kx, x, 'position of a knot')
        H.close(ky, y, 'value at a knot')


@case('F02', 'extend', 'real', bound='functions of 1 or 2 pieces on an interval')
def extend(H):
    """continuing a function beyond a point of its last (first) piece"""
    sf = segments(H, 'f', H.choice(('c', 'l', 'cl')), ends=H.choice((None, 'closed')))
    f = build(sf)
    right = H.flag()
    g = ConstantFunction(H.float('g', -YMAX, YMAX))
    p = sf[-1] if right else sf[0]
    x, z = H.float('x', -XMAX, XMAX), H.float('z', -2 * XMAX, 2 * XMAX)
    H.assume(x >= p.lo)
    H.assume(x <= p.hi)
    lo, hi = p.lo, p.hi
    same = isinstance(p.m, float) and H.all(True, p.c == g.value)
    if same:
        return
    (f.ensure_right if right else f.ensure_left)(g, x)
    wellformed(H, f, 'extended function')
    i = f.intervals[-1 if right else 0]
    H.check(i.upper == H.inf if right else i.lower == -H.inf, 'defined up to infinity')
    t = i.lower if right else i.upper
    H.check(H.all(lo <= t, t <= x) if right else H.all(x <= t, t <= hi), 'continued from within the piece')
    if z == t:
        return
    if z > t if right else z < t:
        H.close(f.eval(z), g.value, 'continuation')
    else:
        agree(H, f, z, value(sf, z), 'original part')
