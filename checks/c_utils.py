"""U01 sorting, heaps, normalisation and the other helpers that everything else relies on"""
from harness import case
from jpt.base import cutils, utils
from jpt.base.utils import (Heap, normalized, list2interval, list2intset, list2set, setstr_int, mapstr, setstr, pairwise, prod,
                            none2nan, gini)
from jpt.base.intervals import ContinuousSet, INC, EXC


def psum(xs):
    r = 0.
    for x in xs:
        r = r + x
    return r


# ---------------------------------------------------------------- sorting
def check_sorted(H, xs, n, label='sort'):
    a = H.array(xs)
    i = H.intarray(list(range(len(xs))))
    cutils.test_sort(a, i, n)
    m = len(xs) if n == -1 else n
    for k in range(m - 1):
        H.check(a[k] <= a[k + 1], label + ': ascending')
    H.check(sorted(int(k) for k in i) == list(range(len(xs))), label + ': every sample once')
    for k in range(len(xs)):
        H.check(a[k] == xs[int(i[k])], label + ': samples stay with their values')
    for k in range(m, len(xs)):
        H.check(int(i[k]) == k, label + ': elements behind n stay')


for _n in (1, 2, 3, 4, 5, 6):
    case('U01', 'sort%d' % _n, 'rank', bound='%d numbers, in any order, repeated or not' % _n)(
        lambda H, n=_n: check_sorted(H, [H.float('x%d' % i) for i in range(n)], -1))
case('U01', 'sort-part', 'rank', bound='the first two to four of five numbers')(
    lambda H: check_sorted(H, [H.float('x%d' % i) for i in range(5)], H.choice((2, 3, 4))))


def killer(n):
    """numbers whose medians of three are bad pivots, so that sorting falls back to heapsort (McIlroy's adversary)"""
    gas = n
    val, solid, cand = [gas] * n, [0], [0]

    def cmp(x, y):
        if val[x] == gas and val[y] == gas:
            z = x if x == cand[0] else y
            val[z] = solid[0]
            solid[0] += 1
        if val[x] == gas:
            cand[0] = x
        elif val[y] == gas:
            cand[0] = y
        return val[x] - val[y]

    def median3(a, b, c):
        if cmp(a, b) < 0:
            return b if cmp(b, c) < 0 else c if cmp(a, c) < 0 else a
        if cmp(b, c) < 0:
            return a if cmp(a, c) < 0 else c
        return b

    def go(xs):
        while len(xs) > 1:
            pivot = median3(xs[0], xs[len(xs) // 2], xs[-1])
            i, l, r = 0, 0, len(xs)
            while i < r:
                k = 0 if xs[i] == pivot else cmp(xs[i], pivot)
                if k < 0:
                    xs[i], xs[l] = xs[l], xs[i]
                    i, l = i + 1, l + 1
                elif k > 0:
                    r -= 1
                    xs[i], xs[r] = xs[r], xs[i]
                else:
                    i += 1
            go(xs[:l])
            xs = xs[r:]

    go(list(range(n)))
    return val


def long_sort(H):
    n = H.choice((20, 40))
    xs = [float(v) for v in killer(n)]
    if H.flag():
        xs = list(reversed(xs))
    k = H.choice((0, 7, n - 1))
    xs[k] = H.float('x', -1., float(n))
    check_sorted(H, xs, -1, 'long sort')


case('U01', 'sort-long', 'rank', bound='20 or 40 numbers in an order that makes quicksort fall back to heapsort, one of them arbitrary')(long_sort)


# ---------------------------------------------------------------- heaps
class Item:
    def __init__(self, key, name):
        self.key, self.name = key, name


def heap(H):
    """any history of operations on a heap of up to four items"""
    inc = H.choice((1, -1))
    n0 = H.choice((0, 2, 3))
    n = [0]
    model = []

    def new():
        it = Item(H.float('k%d' % n[0]), n[0])
        n[0] += 1
        return it
    first = [new() for _ in range(n0)]
    h = Heap(data=list(first), key=lambda it: it.key, inc=inc)
    model += first
    for _ in range(3):
        op = H.choice(('push', 'pop', 'del', 'look') if model else ('push', 'look'))
        if op == 'push':
            it = new()
            h.push(it)
            model.append(it)
        elif op == 'pop':
            it = h.pop()
            H.check(any(it is m for m in model), 'pop: an item of the heap')
            for m in model:
                H.check(it.key <= m.key, 'pop: the least item')
                if m is not it:
                    older = m.name < it.name
                    # among equal items the oldest comes first (inc=1) or last (inc=-1)
                    H.check(H.any(it.key < m.key, older != (inc == 1)), 'pop: order of equal items')
            model = [m for m in model if m is not it]
        elif op == 'del':
            it = model[H.choice((0, len(model) - 1))]
            k = h.index(it)
            H.check(h[k] is it, 'index')
            del h[k]
            model = [m for m in model if m is not it]
        else:
            H.check(len(h) == len(model) and bool(h) == bool(model), 'size')
            H.check(sorted(it.name for it in h) == sorted(m.name for m in model), 'iteration')
            H.check([it.name for it in reversed(h)] == list(reversed([it.name for it in h])), 'reverse iteration')
            if model:
                for m in model:
                    H.check(h[0].key <= m.key, 'the least item is in front')
    prev = None
    for _ in range(len(model)):
        it = h.pop()
        if prev is not None:
            H.check(prev.key <= it.key, 'items come in ascending order')
            if prev.key == it.key:
                H.check((prev.name < it.name) == (inc == 1), 'order of equal items')
        prev = it
    H.check(len(h) == 0 and not h, 'all items')
    try:
        h.index(prev)
        H.fail('index of a missing item')
    except ValueError:
        pass


case('U01', 'heap', 'rank', bound='heaps of up to six items with arbitrary keys, three operations, then all pops')(heap)


# ---------------------------------------------------------------- normalisation
def norm(H):
    n = H.choice((1, 2, 3))
    xs = []
    for i in range(n):
        x = H.float('x%d' % i, -8., 8.)
        H.assume(H.any(x == 0, x >= 1. / 64, x <= -1. / 64))
        xs.append(x)
    kind = H.choice(('list', 'array', 'dict'))
    neg = H.flag()
    ident = H.flag()
    zeros = H.choice((0., .5))
    d = list(xs) if kind == 'list' else H.array(xs) if kind == 'array' else {'k%d' % i: x for i, x in enumerate(xs)}
    try:
        r = normalized(d, identity_on_zeros=ident, allow_neg=neg, zeros=zeros)
    except ValueError:
        H.check(H.any(H.all(not neg, H.any(*[x < 0 for x in xs])), H.all(not ident, *[x == 0 for x in xs])), 'only negative or zero weights are rejected')
        return
    if not neg:
        H.check(H.all(*[x >= 0 for x in xs]), 'negative weights are rejected')
    out = [r['k%d' % i] for i in range(n)] if kind == 'dict' else [r[i] for i in range(n)]
    H.check(len(r) == n, 'number of weights')
    for i, x in enumerate(xs):
        y = d['k%d' % i] if kind == 'dict' else d[i]
        H.check(x == y, 'the argument stays unchanged')
    z = psum([abs(x) for x in xs])
    if z == 0:
        H.check(ident, 'zero weights are rejected')
        for y in out:
            H.check(y == 0, 'zero weights stay')
        return
    H.close(psum([abs(y) for y in out]), 1., 'weights sum to 1')
    if zeros == 0:
        for x, y in zip(xs, out):
            H.close(y * z, x, 'proportions')
    else:
        least = None
        for x in xs:
            if x != 0 and (least is None or abs(x) < least):
                least = abs(x)
        full = psum([abs(x) if x != 0 else least * zeros for x in xs])
        for x, y in zip(xs, out):
            H.close(y * full, x if x != 0 else least * zeros, 'zeros replaced by a fraction of the least weight')


case('U01', 'normalized', 'real', bound='one to three weights (0 or at least 1/64), lists, arrays and dicts, all options')(norm)


@case('U01', 'normalized-int', 'real', bound='two or three integer weights up to 5')
def norm_int(H):
    n = H.choice((2, 3))
    xs = [H.choice((0, 1, 3, 5)) for _ in range(n)]
    z = sum(xs)
    H.assume(z > 0)
    kind = H.choice(('list', 'array'))
    r = normalized(xs if kind == 'list' else H.intarray(xs))
    for x, y in zip(xs, r):
        H.close(y * z, x * 1., 'proportions of integer weights')


# ---------------------------------------------------------------- numbers, intervals and sets
@case('U01', 'linspace', 'real', bound='any ends, up to five points')
def linspace(H):
    a, b = H.float('a', -8., 8.), H.float('b', -8., 8.)
    n = H.choice((1, 2, 3, 5))
    r = cutils.linspace(a, b, n)
    H.check(len(r) == n, 'number of points')
    for i in range(n):
        H.close(r[i], (a + b) * .5 if n == 1 else a + (b - a) * (i / (n - 1)), 'equally spaced points')


@case('U01', 'list2interval', 'rank', bound='any ends')
def l2i(H):
    a, b = H.float('a'), H.float('b')
    H.assume(a <= b)
    k, l = H.choice((a, None, ..., -H.inf)), H.choice((b, None, ..., H.inf))
    i = list2interval([k, l])
    x = H.float('x')
    H.iff(x in i, H.all(x >= a if k is a else True, x <= b if l is b else True), 'interval from a list')
    H.check(i.lower == (a if k is a else -H.inf) and i.upper == (b if l is b else H.inf), 'ends of an interval from a list')


@case('U01', 'list2intset', 'real', bound='bounds between -3 and 3')
def l2s(H):
    a, b, c = int(H.int('a', -3, 3)), int(H.int('b', -3, 3)), int(H.int('c', -4, 4))
    s = list2intset([a, b])
    H.check((c in s) == (a <= c <= b), 'set of the numbers between two bounds')
    try:
        list2intset([a, b, c])
        H.fail('three bounds')
    except ValueError:
        pass


@case('U01', 'text', 'real', bound='sets of integers between -1 and 4, other separators')
def text(H):
    s = {k for k in range(-1, 5) if H.int('m%d' % (k + 1), 0, 1) == 1}
    H.assume(bool(s))
    t = setstr_int(s)
    got = set()
    for part in t.split(', '):
        if '...' in part:
            a, b = part.split('...')
            got |= set(range(int(a), int(b) + 1))
        else:
            got.add(int(part))
    H.check(got == s, 'text of a set of integers')
    u = setstr_int(s, sep_inner='_', sep_outer=';')
    H.check(u.replace('_...', '...').replace('..._', '...').replace(';', ', ') == t, 'separators')
    seq = sorted(s)
    lim = int(H.int('lim', 0, 6))
    r = mapstr(seq, limit=lim)
    if not lim or lim >= len(seq):
        H.check(r == [str(k) for k in seq], 'text of a list')
    else:
        k = r.index('...')
        H.check(len(r) - 1 == max(lim // 2, 1) + lim // 2, 'text of a list: limit')
        H.check(r[:k] == [str(x) for x in seq[:k]] and r[k + 1:] == [str(x) for x in seq[len(seq) - (len(r) - k - 1):]], 'text of a list: both ends')
    H.check(setstr(seq, limit=lim, sep='|') == '|'.join(r), 'text of a set')


@case('U01', 'sequences', 'real', bound='up to four numbers')
def sequences(H):
    n = int(H.int('n', 1, 4))
    xs = [H.float('x%d' % i, -4., 4.) for i in range(n)]
    ps = list(pairwise(xs))
    H.check(len(ps) == n - 1 and all(p[0] is xs[i] and p[1] is xs[i + 1] for i, p in enumerate(ps)), 'consecutive pairs')
    z = 1.
    for x in xs:
        z = z * x
    if n <= 3:
        H.close(prod(xs), z, 'product')
    H.close(cutils.ifnan(xs[0], 7.), xs[0], 'numbers are kept')
    H.close(cutils.ifnan(H.nan, xs[0]), xs[0], 'nan is replaced')
    H.check(list2set(['a', 'b', 'a']) == {'a', 'b'}, 'set of a list')
    m = list(none2nan([None] + xs))
    H.check(m[0] != m[0] and all(a is b for a, b in zip(m[1:], xs)), 'None becomes nan')
    H.close(gini({k: x for k, x in enumerate(xs)}) * n, psum([x * (1. - x) for x in xs]), 'Gini impurity')
    H.close(gini(xs) * n, psum([x * (1. - x) for x in xs]), 'Gini impurity')
