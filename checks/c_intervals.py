"""Real-valued sets: set algebra, normal form, predicates, decomposition, serialisation."""
from harness import case

INC, EXC = 1, 2


# ---- inputs and the reference semantics ---------------------------------------------------------
def interval(H, n, inf=True):
    """an arbitrary interval, finite or (half-)infinite, possibly empty"""
    from jpt.base.intervals import ContinuousSet
    kind = H.choice(('ff', 'mf', 'fp', 'mp') if inf else ('ff',))
    lo = -H.inf if kind[0] == 'm' else H.float(n + '.lo')
    hi = H.inf if kind[1] == 'p' else H.float(n + '.hi')
    if kind == 'ff':
        H.assume(lo <= hi)
    left = EXC if kind[0] == 'm' else H.int(n + '.l', INC, EXC)
    right = EXC if kind[1] == 'p' else H.int(n + '.r', INC, EXC)
    return ContinuousSet(lo, hi, left, right)


def realset(H, n, k, inf=True):
    from jpt.base.intervals import RealSet
    r = RealSet()
    r.intervals = [interval(H, '%s%d' % (n, i), inf and (i in (0, k - 1))) for i in range(k)]
    return r


def numset(H, n, k, inf=True):
    return interval(H, n, inf) if k == 0 else realset(H, n, k, inf)


def parts(s):
    return list(s.intervals) if hasattr(s, 'intervals') else [s]


def snap(s):
    return [(i.lower, i.upper, i.left, i.right) for i in parts(s)]


def mem1(H, t, x):
    lo, hi, l, r = t
    return H.all(H.any(lo < x, H.all(lo == x, l == INC)), H.any(x < hi, H.all(hi == x, r == INC)))


def mem(H, sn, x):
    """x in the union of the snapshot's intervals (the meaning of a set)"""
    return H.any(False, *[mem1(H, t, x) for t in sn])


def empty1(H, t):
    lo, hi, l, r = t
    if isinstance(lo, float) and lo == -H.inf or isinstance(hi, float) and hi == H.inf:
        return False
    # no double lies strictly between two neighbours
    return H.any(H.all(lo == hi, H.neg(H.all(l == INC, r == INC))), H.all(H.succ(lo) == hi, l == EXC, r == EXC))


def empty(H, sn):
    return H.all(True, *[empty1(H, t) for t in sn])


def low(H, t):
    lo, hi, l, r = t
    if l == INC:
        return lo
    return lo if isinstance(lo, float) and lo == -H.inf else H.succ(lo)


def high(H, t):
    lo, hi, l, r = t
    if r == INC:
        return hi
    return hi if isinstance(hi, float) and hi == H.inf else H.pred(hi)


def unchanged(H, s, sn, label):
    now = snap(s)
    H.check(len(now) == len(sn), label)
    for a, b in zip(now, sn):
        H.check(H.all(a[0] == b[0], a[1] == b[1], a[2] == b[2], a[3] == b[3]), label)


# ---- I01 set algebra -----------------------------------------------------------------------------
OPS = {
    'union': (lambda a, b: a.union(b), lambda H, p, q: H.any(p, q)),
    'intersection': (lambda a, b: a.intersection(b), lambda H, p, q: H.all(p, q)),
    'difference': (lambda a, b: a.difference(b), lambda H, p, q: H.all(p, H.neg(q))),
}


def algebra(H, op, ka, kb):
    f, spec = OPS[op]
    A, B = numset(H, 'a', ka), numset(H, 'b', kb)
    x = H.float('x')
    sa, sb = snap(A), snap(B)
    C = f(A, B)
    H.iff(mem(H, snap(C), x), spec(H, mem(H, sa, x), mem(H, sb, x)), op)
    unchanged(H, A, sa, 'first operand unchanged')
    unchanged(H, B, sb, 'second operand unchanged')


def normal(H, C, label):
    """pairwise disjoint, ascending, non-empty pieces (an empty result is one empty interval)"""
    sn = snap(C)
    if len(sn) == 1:
        return
    H.check(len(sn) > 1, label + ': no pieces')
    for t in sn:
        H.check(H.neg(empty1(H, t)), label + ': empty piece')
    for t, u in zip(sn, sn[1:]):
        # every element of the one lies below every element of the next
        H.check(H.any(t[1] < u[0], H.all(t[1] == u[0], H.any(t[3] == EXC, u[2] == EXC)),
                      H.all(t[1] == H.succ(u[0]), t[3] == EXC, u[2] == EXC)), label + ': order')
        # neighbours that touch must have been merged
        H.check(H.neg(H.all(t[1] == u[0], t[3] + u[2] == 3)), label + ': touching pieces')


for _op in OPS:
    for _ka, _kb in ((0, 0), (2, 0), (2, 2), (0, 2), (3, 0)):
        if _op == 'union' and _ka == 0 and _kb > 0:
            continue
        if _op == 'intersection' and _ka == 0 and _kb > 0:
            continue

        def _f(H, op=_op, ka=_ka, kb=_kb):
            algebra(H, op, ka, kb)
        case('I01', '%s-%s%s' % (_op, _ka or 'C', _kb or 'C'), 'rank', bound='operands of <= %d and %d intervals with arbitrary double or '
             'infinite ends, |x| <= 2^50' % (max(_ka, 1), max(_kb, 1)))(_f)


@case('I01', 'complement', 'rank', bound='sets of 1 or 2 intervals')
def complement(H):
    k = H.choice((0, 2))
    A = numset(H, 'a', k)
    x = H.float('x')
    sa = snap(A)
    C = A.complement()
    H.iff(mem(H, snap(C), x), H.neg(mem(H, sa, x)), 'complement')
    unchanged(H, A, sa, 'operand unchanged')


@case('I01', 'operators', 'rank', bound='two intervals')
def operators(H):
    A, B = interval(H, 'a'), interval(H, 'b')
    x = H.float('x')
    sa, sb = snap(A), snap(B)
    k = H.choice('|&-')
    C = A | B if k == '|' else (A & B if k == '&' else A - B)
    p, q = mem(H, sa, x), mem(H, sb, x)
    H.iff(mem(H, snap(C), x), H.any(p, q) if k == '|' else H.all(p, q) if k == '&' else H.all(p, H.neg(q)), 'operator ' + k)


@case('I01', 'intersection-ends', 'rank', bound='two intervals, requested end types')
def intersection_ends(H):
    """re-expressing the ends of an intersection does not change its elements"""
    A, B = interval(H, 'a', inf=False), interval(H, 'b')
    x = H.float('x')
    l, r = H.choice((0, INC, EXC)), H.choice((0, INC, EXC))
    sa, sb = snap(A), snap(B)
    C = A.intersection(B, left=l, right=r)
    H.iff(mem(H, snap(C), x), H.all(mem(H, sa, x), mem(H, sb, x)), 'intersection with requested ends')


@case('I01', 'intersections', 'rank', bound='two sets of 2 disjoint intervals')
def intersections(H):
    A, B = realset(H, 'a', 2), realset(H, 'b', 2)
    x = H.float('x')
    for S in (A, B):
        H.assume(H.any(S.intervals[0].upper < S.intervals[1].lower,
                       H.all(S.intervals[0].upper == S.intervals[1].lower,
                             H.any(S.intervals[0].right == EXC, S.intervals[1].left == EXC))))
    sa, sb = snap(A), snap(B)
    C = A.intersections(B)
    H.iff(mem(H, snap(C), x), H.all(mem(H, sa, x), mem(H, sb, x)), 'pairwise intersections')


# ---- I02 normal form -----------------------------------------------------------------------------
@case('I02', 'simplify-2', 'rank', bound='sets of 2 arbitrary intervals')
def simplify2(H):
    simplify(H, 2)


@case('I02', 'simplify-3', 'rank', bound='sets of 3 arbitrary intervals')
def simplify3(H):
    simplify(H, 3)


def simplify(H, k):
    A = realset(H, 'a', k)
    x = H.float('x')
    sa = snap(A)
    C = A.simplify()
    normal(H, C, 'simplify')
    H.iff(mem(H, snap(C), x), mem(H, sa, x), 'simplify keeps the elements')
    unchanged(H, A, sa, 'simplify leaves the operand alone')


for _op in OPS:
    for _ka, _kb in ((2, 2), (0, 0), (2, 0)):
        def _f(H, op=_op, ka=_ka, kb=_kb):
            A, B = numset(H, 'a', ka), numset(H, 'b', kb)
            if ka == 0 and kb == 0 and op == 'difference':
                H.assume(H.neg(empty(H, snap(A))))
            if op == 'difference':      # A minus nothing is A as it stands
                H.assume(H.neg(empty(H, snap(B))))
            normal(H, OPS[op][0](A, B), op)
        case('I02', 'normal-%s-%s%s' % (_op, _ka or 'C', _kb or 'C'), 'rank', bound='<= %d and %d intervals' % (max(_ka, 1), max(_kb, 1)))(_f)


@case('I02', 'simplify-idempotent', 'rank', bound='sets of 2 intervals')
def idem(H):
    A = realset(H, 'a', 2)
    B = A.simplify()
    C = B.simplify()
    sb, sc = snap(B), snap(C)
    H.check(len(sb) == len(sc), 'idempotent')
    for a, b in zip(sb, sc):
        H.check(H.all(a[0] == b[0], a[1] == b[1], a[2] == b[2], a[3] == b[3]), 'idempotent')


# ---- I03 predicates ------------------------------------------------------------------------------
@case('I03', 'emptiness', 'rank', bound='1 or 2 intervals')
def emptiness(H):
    A = numset(H, 'a', H.choice((0, 2)))
    sa = snap(A)
    e = A.isempty()
    H.observe('empty', bool(e))
    H.iff(e, empty(H, sa), 'isempty')
    H.iff(bool(A), H.neg(empty(H, sa)), 'truth value')


@case('I03', 'membership', 'rank', bound='1 or 2 intervals, any value')
def membership(H):
    A = numset(H, 'a', H.choice((0, 2)))
    x = H.float('x')
    sa = snap(A)
    m = A.contains_value(x)
    H.observe('in', bool(m))
    H.iff(m, mem(H, sa, x), 'contains_value')
    H.iff(x in A, mem(H, sa, x), 'in')


@case('I03', 'containment', 'rank', weight=2, bound='two intervals')
def containment(H):
    A, B = interval(H, 'a'), interval(H, 'b')
    x = H.float('x')
    sa, sb = snap(A), snap(B)
    H.assume(H.neg(empty(H, sb)))
    c = A.contains_interval(B)
    if c:
        H.implies(mem(H, sb, x), mem(H, sa, x), 'containment is sound')
    else:
        la, ha, lb, hb = low(H, sa[0]), high(H, sa[0]), low(H, sb[0]), high(H, sb[0])
        H.check(H.any(lb < la, hb > ha, empty(H, sa)), 'containment is complete')


@case('I03', 'containment-sets', 'rank', bound='set of 2 intervals vs interval or set')
def containment_sets(H):
    A = realset(H, 'a', 2, inf=False)
    B = numset(H, 'b', H.choice((0, 2)), inf=False)
    x = H.float('x')
    sa, sb = snap(A), snap(B)
    if A.contains_interval(B):
        H.implies(mem(H, sb, x), mem(H, sa, x), 'containment of sets is sound')
    if interval(H, 'c').contains_interval(A):
        pass


@case('I03', 'intersects', 'rank', weight=2, bound='two intervals or sets of 2')
def intersects(H):
    A = numset(H, 'a', H.choice((0, 2)))
    B = numset(H, 'b', H.choice((0, 2)))
    x = H.float('x')
    sa, sb = snap(A), snap(B)
    i = A.intersects(B)
    d = A.isdisjoint(B)
    H.iff(d, H.neg(bool(i)), 'disjoint is the negation of intersects')
    if not i:
        H.check(H.neg(H.all(mem(H, sa, x), mem(H, sb, x))), 'disjoint sets share no element')
    elif len(sa) == 1 and len(sb) == 1:
        H.check(H.all(low(H, sa[0]) <= high(H, sb[0]), low(H, sb[0]) <= high(H, sa[0])), 'intersecting sets share an element')


@case('I03', 'extremes', 'rank', bound='1 or 2 intervals')
def extremes(H):
    A = numset(H, 'a', H.choice((0, 2)))
    x = H.float('x')
    sa = snap(A)
    H.assume(H.neg(empty(H, sa)))
    f = A.fst()
    if not any(isinstance(t[0], float) and t[0] == -H.inf for t in sa):
        H.check(mem(H, sa, f), 'the first value is an element')
        H.implies(mem(H, sa, x), f <= x, 'no element lies below the first value')
    if len(sa) == 1:
        lo, hi = A.min, A.max
        H.implies(mem(H, sa, x), H.all(lo <= x, x <= hi), 'min and max bound the elements')
        if not (isinstance(lo, float) and lo == -H.inf):
            H.check(mem(H, sa, lo), 'min is attained')
        if not (isinstance(hi, float) and hi == H.inf):
            H.check(mem(H, sa, hi), 'max is attained')
        p = A.any_point()
        H.check(mem(H, sa, p), 'any_point is an element')


@case('I03', 'size', 'rank', bound='1 or 2 disjoint intervals')
def size(H):
    A = interval(H, 'a')
    sa = snap(A)
    s = A.size()
    H.observe('size', s)
    e = empty(H, sa)
    if e:
        H.check(s == 0, 'an empty set has size 0')
    else:
        single = H.all(low(H, sa[0]) == high(H, sa[0]))
        if single:
            H.check(s == 1, 'a one-element set has size 1')
        else:
            H.check(s == H.inf, 'a larger set has infinite size')


@case('I03', 'equality', 'rank', weight=2, bound='two sets of <= 2 intervals')
def equality(H):
    A = numset(H, 'a', H.choice((0, 2)))
    B = numset(H, 'b', H.choice((0, 2)))
    x = H.float('x')
    sa, sb = snap(A), snap(B)
    if A == B:
        H.iff(mem(H, sa, x), mem(H, sb, x), 'equal sets have the same elements')
        H.check(B == A, 'equality is symmetric')
    unchanged(H, A, sa, 'comparison leaves the operand alone')


@case('I03', 'equality-complete', 'rank', bound='two intervals')
def equality_c(H):
    A, B = interval(H, 'a'), interval(H, 'b')
    sa, sb = snap(A), snap(B)
    if A != B:
        H.check(H.neg(H.all(empty(H, sa), empty(H, sb))), 'empty sets are equal')
        H.check(H.any(empty(H, sa), empty(H, sb), H.neg(H.all(low(H, sa[0]) == low(H, sb[0]), high(H, sa[0]) == high(H, sb[0])))),
                'sets with the same elements are equal')


@case('I03', 'hash', 'rank', bound='two intervals or sets of 2')
def hashes(H):
    k = H.choice((0, 2))
    A, B = numset(H, 'a', k, inf=False), numset(H, 'b', k, inf=False)
    if A == B:
        H.check(H.hash_equal(A, B), 'equal sets hash equally')


@case('I03', 'infinite-ends', 'rank', bound='1 or 2 intervals')
def infinite(H):
    A = numset(H, 'a', H.choice((0, 2)))
    sa = snap(A)
    n = any(isinstance(t[0], float) and t[0] == -H.inf for t in sa)
    p = any(isinstance(t[1], float) and t[1] == H.inf for t in sa)
    H.iff(A.isninf(), n, 'unbounded below')
    H.iff(A.ispinf(), p, 'unbounded above')
    H.iff(A.isinf(), n or p, 'unbounded')


@case('I03', 'contiguous', 'rank', bound='two intervals')
def contiguous(H):
    A, B = interval(H, 'a'), interval(H, 'b')
    x = H.float('x')
    sa, sb = snap(A), snap(B)
    H.assume(H.neg(H.any(empty(H, sa), empty(H, sb))))
    if A.contiguous(B):
        H.check(H.neg(H.all(mem(H, sa, x), mem(H, sb, x))), 'contiguous intervals do not overlap')
        lo = A.lower if A.lower <= B.lower else B.lower
        hi = A.upper if A.upper >= B.upper else B.upper
        H.implies(H.all(lo < x, x < hi), H.any(mem(H, sa, x), mem(H, sb, x)), 'contiguous intervals leave no gap')


# ---- I04 decomposition and re-expression ---------------------------------------------------------
@case('I04', 'chop', 'rank', weight=2, bound='one interval, 2 cut points')
def chop(H):
    A = interval(H, 'a')
    pts = [H.float('p0'), H.float('p1')]
    x = H.float('x')
    sa = snap(A)
    pieces = list(A.chop(pts))
    sp = [snap(p)[0] for p in pieces]
    H.iff(mem(H, sp, x), mem(H, sa, x), 'the pieces cover the interval')
    for t, u in zip(sp, sp[1:]):
        H.check(H.all(t[1] == u[0], t[3] == EXC, u[2] == INC), 'pieces are consecutive and disjoint')
    for t in sp:
        H.check(H.neg(empty1(H, t)), 'no piece is empty')
    for p in pts:
        for t in sp:
            H.check(H.neg(H.all(t[0] < p, mem1(H, t, p))), 'cut points start pieces')
    unchanged(H, A, sa, 'chop leaves the interval alone')


@case('I04', 'xmirror', 'rank', bound='1 or 2 intervals')
def xmirror(H):
    A = numset(H, 'a', H.choice((0, 2)))
    x = H.float('x')
    sa = snap(A)
    B = A.xmirror()
    H.iff(mem(H, snap(B), -x), mem(H, sa, x), 'mirror image')
    unchanged(H, A, sa, 'xmirror leaves the operand alone')


@case('I04', 'ends', 'rank', bound='one interval, any requested end types')
def ends(H):
    A = interval(H, 'a')
    x = H.float('x')
    l, r = H.choice((-1, INC, EXC)), H.choice((-1, INC, EXC))
    sa = snap(A)
    H.assume(H.neg(empty(H, sa)))
    B = A.ends(l, r)
    sb = snap(B)
    H.iff(mem(H, sb, x), mem(H, sa, x), 'ends keeps the elements')
    if l != -1:
        H.check(sb[0][2] == l, 'requested left end')
    if r != -1:
        H.check(sb[0][3] == r, 'requested right end')
    unchanged(H, A, sa, 'ends leaves the operand alone')


@case('I04', 'boundaries', 'rank', bound='one finite interval')
def boundaries(H):
    A = interval(H, 'a', inf=False)
    x = H.float('x')
    l, r = H.choice((0, INC, EXC)), H.choice((0, INC, EXC))
    sa = snap(A)
    H.assume(H.neg(empty(H, sa)))
    B = A.boundaries(l, r)
    sb = snap(B)
    H.iff(mem(H, sb, x), mem(H, sa, x), 'boundaries keeps the elements')
    if l:
        H.check(sb[0][2] == l, 'requested left end')
    if r:
        H.check(sb[0][3] == r, 'requested right end')


@case('I04', 'copy', 'rank', bound='1 or 2 intervals')
def copies(H):
    A = numset(H, 'a', H.choice((0, 2)))
    B = A.copy()
    sa = snap(A)
    unchanged(H, B, sa, 'copy is identical')
    for i in parts(B):
        i.lower, i.upper = 0., 0.
    unchanged(H, A, sa, 'copy is independent')


@case('I04', 'comparator', 'rank', bound='two non-empty disjoint intervals')
def comparator(H):
    from jpt.base.intervals import ContinuousSet
    A, B = interval(H, 'a'), interval(H, 'b')
    x, y = H.float('x'), H.float('y')
    sa, sb = snap(A), snap(B)
    H.assume(H.neg(H.any(empty(H, sa), empty(H, sb))))
    if not A.intersects(B):
        c = ContinuousSet.comparator(A, B)
        H.implies(H.all(mem(H, sa, x), mem(H, sb, y)), x < y if c < 0 else y < x, 'ordering of disjoint intervals')


# ---- I05 serialisation ---------------------------------------------------------------------------
@case('I05', 'json', 'rank', bound='1, 2 or 3 intervals')
def json_(H):
    k = H.choice((0, 1, 2, 3))
    A = numset(H, 'a', k)
    sa = snap(A)
    B = type(A).from_json(H.json(A.to_json()))
    H.check(type(B) is type(A), 'type')
    unchanged(H, B, sa, 'JSON round trip')


@case('I05', 'pickle', 'rank', bound='1 or 2 intervals')
def pickle_(H):
    A = numset(H, 'a', H.choice((0, 1, 2)))
    sa = snap(A)
    B = H.pickle(A)
    H.check(type(B) is type(A), 'type')
    unchanged(H, B, sa, 'pickle round trip')


@case('I05', 'text', 'rank', bound='the documented notations over fixed end points, one arbitrary number')
def text(H):
    from jpt.base.intervals import ContinuousSet, RealSet
    ld = H.choice(('[', '(', ']'))
    lo, tlo = H.choice(((-2., '-2'), (.5, '0.5'), (1e3, ' 1e3'), (-H.inf, '-∞'), (-H.inf, '-inf')))
    hi, thi = H.choice(((1001., '1001.0'), (2e3, '2E3 '), (H.inf, '∞'), (H.inf, 'inf')))
    rd = H.choice((']', ')', '['))
    H.assume(not (lo == -H.inf and ld == '[') and not (hi == H.inf and rd == ']'))
    t = ld + tlo + ',' + thi + rd
    spec = (lo, hi, INC if ld == '[' else EXC, INC if rd == ']' else EXC)
    k = H.choice((0, 1, 2))
    A = ContinuousSet.parse(t) if k == 0 else RealSet(t) if k == 1 else RealSet([t, '[-7,-6)'])
    x = H.float('x')
    m = mem1(H, spec, x)
    H.iff(mem(H, snap(A), x), m if k < 2 else H.any(m, H.all(-7 <= x, x < -6)), 'the parsed set is what the text denotes')
    if k == 0:
        for n in ('par', 'sq'):
            H.iff(mem(H, snap(ContinuousSet.parse(A.pfmt(notation=n))), x), mem(H, snap(A), x), 'text round trip')


@case('I05', 'text-rejected', 'rank', bound='five malformed texts')
def text_rejected(H):
    from jpt.base.intervals import ContinuousSet
    t = H.choice(('', '1,2', '[1;2]', '[1,2', '{1,2}'))
    try:
        ContinuousSet.parse(t)
    except ValueError:
        return
    H.fail('malformed text is rejected')


@case('I01', 'operators-sets', 'rank', bound='interval and set of 2, in either order')
def operators_sets(H):
    A, B = interval(H, 'a'), realset(H, 'b', 2)
    if H.flag():
        A, B = B, A
    x = H.float('x')
    sa, sb = snap(A), snap(B)
    k = H.choice('|&')
    C = A | B if k == '|' else A & B
    p, q = mem(H, sa, x), mem(H, sb, x)
    H.iff(mem(H, snap(C), x), H.any(p, q) if k == '|' else H.all(p, q), 'operator ' + k)
    unchanged(H, A, sa, 'first operand unchanged')
    unchanged(H, B, sb, 'second operand unchanged')


@case('I01', 'constants', 'rank', bound='every number')
def constants(H):
    from jpt.base.intervals import ContinuousSet, RealSet, R, EMPTY
    x = H.float('x')
    for s, v in ((ContinuousSet.allnumbers(), True), (R, True), (ContinuousSet.emptyset(), False), (RealSet.emptyset(), False),
                 (EMPTY, False), (RealSet([R]), True), (RealSet([EMPTY]), False)):
        H.iff(mem(H, snap(s), x), v, 'all numbers and no numbers')
        H.iff(s.contains_value(x), v, 'all numbers and no numbers')
        H.check(bool(s.isempty()) != v, 'emptiness of constants')


@case('I02', 'private', 'rank', bound='sets of 2 intervals')
def private(H):
    """working on the result of an operation changes neither the operands nor later results"""
    from jpt.base.intervals import ContinuousSet
    A = numset(H, 'a', H.choice((0, 2)))
    B = interval(H, 'b')
    sa, sb = snap(A), snap(B)
    x = H.float('x')
    k = H.choice(('u', 'i', 'd', 's', 'x'))
    C = A.union(B) if k == 'u' else A.intersection(B) if k == 'i' else A.difference(B) if k == 'd' else \
        A.simplify() if k == 's' else A.xmirror()
    for p in parts(C):
        if not (len(parts(C)) == 1 and p.isempty()):      # the empty set itself is a shared constant
            p.lower, p.upper = 1., 2.
    unchanged(H, A, sa, 'the operand is not shared with the result')
    unchanged(H, B, sb, 'the operand is not shared with the result')


@case('I03', 'containment-joined', 'rank', weight=2, bound='set of 2 intervals, one interval')
def containment_joined(H):
    """an interval that lies in the union of two touching or overlapping intervals is contained in the set"""
    A, B = realset(H, 'a', 2, inf=False), interval(H, 'b', inf=False)
    sa, sb = snap(A), snap(B)
    H.assume(H.neg(empty(H, sb)))
    x, y = sa
    for u, v in ((x, y), (y, x)):       # neighbouring doubles count as a gap
        H.assume(H.any(u[1] == v[0], H.neg(H.succ(high(H, u)) == low(H, v))))
    if not A.contains_interval(B):
        ws = [low(H, sb[0]), high(H, sb[0]), H.succ(high(H, x)), H.succ(high(H, y))]
        H.check(H.any(*[H.all(mem(H, sb, w), H.neg(mem(H, sa, w))) for w in ws]), 'some element lies outside')


@case('I03', 'set-measures', 'rank', bound='sets of 2 intervals')
def set_measures(H):
    A = realset(H, 'a', 2)
    sa = snap(A)
    s = A.size()
    H.observe('size', s)
    e = [empty1(H, t) for t in sa]
    one = [H.all(H.neg(e[i]), low(H, t) == high(H, t)) for i, t in enumerate(sa)]
    if H.all(*e):
        H.check(s == 0, 'an empty set has size 0')
        H.check(A.any_point() is None and H.is_nan(A.fst()), 'an empty set has no points')
        return
    p = A.any_point()
    H.check(mem(H, sa, p), 'any_point is an element')
    H.check(A.min == A.fst(), 'min is the first element')
    if H.all(H.any(e[0], one[0]), H.any(e[1], one[1])):
        u, v = low(H, sa[0]), low(H, sa[1])
        both = H.all(one[0], one[1], H.neg(u == v))
        # two neighbouring doubles may be merged to one interval of more than one element
        H.check(H.any(s == (2 if both else 1), H.all(both, s == H.inf, H.any(H.succ(u) == v, H.succ(v) == u))), 'sets of one or two elements')
    else:
        H.check(s == H.inf, 'a larger set has infinite size')


@case('I03', 'inequality', 'rank', bound='two intervals or sets of 2')
def inequality(H):
    k = H.choice((0, 2))
    A, B = numset(H, 'a', k), numset(H, 'b', H.choice((0, k)))
    e, n = A == B, A != B
    H.iff(e, H.neg(n), 'unequal is the negation of equal')


@case('I04', 'chop-set', 'rank', weight=2, bound='set of 2 intervals, 1 cut point')
def chop_set(H):
    A = realset(H, 'a', 2)
    p, x = H.float('p'), H.float('x')
    sa = snap(A)
    sp = [snap(q)[0] for q in A.chop([p])]
    H.iff(mem(H, sp, x), mem(H, sa, x), 'the pieces cover the set')
    for t, u in zip(sp, sp[1:]):
        H.check(H.any(t[1] < u[0], H.all(t[1] == u[0], H.any(t[3] == EXC, u[2] == EXC)),
                      H.all(t[1] == H.succ(u[0]), t[3] == EXC, u[2] == EXC)), 'pieces are ordered and disjoint')
    for t in sp:
        H.check(H.any(empty(H, sa), H.neg(empty1(H, t))), 'no piece is empty')
        H.check(H.neg(H.all(t[0] < p, mem1(H, t, p))), 'cut points start pieces')
    unchanged(H, A, sa, 'chop leaves the set alone')


@case('I04', 'linspace', 'real', weight=2, bound='one interval, 2 to 5 points (1 for the middle)')
def linspace(H):
    A = interval(H, 'a')
    sa = snap(A)
    lo, hi = sa[0][0], sa[0][1]
    H.assume(H.neg(empty(H, sa)))
    li, ui = isinstance(lo, float) and lo == -H.inf, isinstance(hi, float) and hi == H.inf
    n = H.choice((1, 2, 3, 4, 5))
    st = H.choice((1., .5))
    out = H.array([0.] * n) if H.flag() else None
    r = A.linspace(n, default_step=st, result=out)
    r = [r[i] for i in range(n)]
    if out is not None:
        for i in range(n):
            H.check(out[i] == r[i], 'written into the given array')
    for v in r:
        H.check(mem(H, sa, v), 'points lie in the interval')
    if n == 1:
        if not li and not ui:
            H.close(r[0], (lo + hi) / 2, 'one point is the middle')
        return
    if not li and not ui:
        H.close(r[0], lo, 'first point')
        H.close(r[-1], hi, 'last point')
        d = (hi - lo) / (n - 1)
    else:
        d = st
        if not li:
            H.close(r[0], lo, 'first point')
        elif not ui:
            H.close(r[-1], hi, 'last point')
        else:
            H.check(H.any(*[v == 0 for v in r]), 'centred at zero')
            H.check(r[0] <= 0 <= r[-1], 'centred at zero')
    for a, b in zip(r, r[1:]):
        H.close(b - a, d, 'evenly spaced')
    unchanged(H, A, sa, 'the interval stays as it is')


@case('I03', 'width', 'real', bound='one interval')
def width(H):
    A = interval(H, 'a')
    sa = snap(A)
    lo, hi = sa[0][0], sa[0][1]
    H.assume(H.neg(empty(H, sa)))
    H.close(A.width, hi - lo, 'width')
    H.close(A.range(), hi - lo, 'range')
