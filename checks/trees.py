"""helpers for trees: hand-built trees with arbitrary parameters, and the joint distribution they stand for"""
import logging
import jpt.trees as T
from jpt.trees import JPT, DecisionNode, Leaf
from jpt.variables import (NumericVariable, SymbolicVariable, IntegerVariable, VariableMap, LabelAssignment,
                           ValueAssignment, Variable)
from dsts import probs, psum
from nums import *

logging.disable(logging.CRITICAL)

LA = ['a', 'b', 'c']
LI = [-1, 0, 1]
from jpt.distributions.univariate.multinomial import SymbolicType, Bool
from jpt.distributions.univariate.integer import IntegerType

A = SymbolicVariable('A', SymbolicType('TreeA', LA))
B = SymbolicVariable('B', SymbolicType('TreeB', ['u', 'v']))
X = NumericVariable('X', Numeric)
Y = NumericVariable('Y', Numeric)
XS = NumericVariable('X', NumericType('TreeX', [-1., 3.]))      # labels = 1 + 2 * values
I = IntegerVariable('I', IntegerType('TreeI', -1, 1))


class LeafSpec:
    def __init__(self, prior, **dists):
        self.prior, self.d = prior, dists


class Model:
    """variables, leaf specs in order of creation, and the tree"""
    def __init__(self, variables, leaves, jpt):
        self.variables, self.leaves, self.jpt = variables, leaves, jpt

    def joint(self, *events):
        """probability of the conjunction of events, dicts {variable name: event}"""
        r = 0.
        for l in self.leaves:
            r = r + self.in_leaf(l, *events)
        return r

    def in_leaf(self, l, *events):
        p = l.prior
        names = []
        for e in events:
            names += [n for n in e if n not in names]
        for n in names:
            p = p * pmeet(l.d[n], [e[n] for e in events if n in e])
        return p


class U:
    """union of two intervals"""
    def __init__(self, a, b):
        self.a, self.b = a, b


def union(H, name, gap=False):
    """two intervals [a, b] and [c, d) that may overlap, touch or be apart"""
    a, b, c, d = (H.float(name + x, -5., 5.) for x in 'abcd')
    H.assume(H.all(b - a >= W, d - c >= W, *([H.any(c - b >= W, a - d >= W)] if gap else [])))
    return U((a, b, INC, INC), (c, d, INC, EXC))


def pmeet(dist, evs):
    for i, e in enumerate(evs):
        if isinstance(e, U):
            rest = evs[:i] + evs[i + 1:]
            return pmeet(dist, rest + [e.a]) + pmeet(dist, rest + [e.b]) - pmeet(dist, rest + [e.a, e.b])
    return prob(dist, meet(evs))


def prob(dist, ev):
    if isinstance(dist, Spec):
        return 0. if ev is None else dist.p(*ev)
    return psum([dist[k] for k in sorted(ev)]) if ev else 0.


def meet(evs):
    r = evs[0]
    for e in evs[1:]:
        if isinstance(r, (set, frozenset)):
            r = r & e
            continue
        if r is None or e is None:
            return None
        lo, hi, a, b = r
        if e[0] > lo:
            lo, a = e[0], e[2]
        elif e[0] == lo and e[2] == EXC:
            a = EXC
        if e[1] < hi:
            hi, b = e[1], e[3]
        elif e[1] == hi and e[3] == EXC:
            b = EXC
        if lo > hi or lo == hi and (a == EXC or b == EXC):
            return None
        r = lo, hi, a, b
    return r


def distribution(H, var, d):
    if var.numeric:
        return var.domain().set(quantile(H, d))
    if var.symbolic:
        return var.domain().set(H.array(d))
    return var.domain().set(H.array(d))


def attach(H, jpt, node, parent, child):
    if parent is None:
        jpt.root = node
    else:
        parent.set_child(child, node)


def build(H, variables, shape, targets=None):
    """shape: LeafSpec | (variable, splits, left, right); splits: a number (numeric) or a pair of sets"""
    jpt = JPT(variables, targets=targets)
    leaves = []
    n = [0]

    def go(s, parent, child):
        idx = n[0]
        n[0] += 1
        if isinstance(s, LeafSpec):
            leaf = Leaf(idx, parent=parent, prior=s.prior)
            leaf.samples = 8
            for v in variables:
                leaf.distributions[v] = distribution(H, v, s.d[v.name])
            jpt.leaves[idx] = leaf
            attach(H, jpt, leaf, parent, child)
            s.idx = idx
            leaves.append(s)
            return
        var, split, left, right = s
        node = DecisionNode(idx, var, parent)
        node.samples = 16
        if var.numeric:
            node.splits = [ContinuousSet(-H.inf, split, EXC, EXC), ContinuousSet(split, H.inf, INC, EXC)]
        else:
            node.splits = [set(split[0]), set(split[1])]
        jpt.innernodes[idx] = node
        attach(H, jpt, node, parent, child)
        go(left, node, 0)
        go(right, node, 1)

    go(shape, None, None)
    for v in variables:
        ds = [l.distributions[v] for l in jpt.leaves.values()]
        if v.numeric:
            jpt.minimal_distances[v] = 1.
        jpt.priors[v] = ds[0]
    return Model(variables, leaves, jpt)


def interval(ev):
    if isinstance(ev, U):
        return RealSet([ContinuousSet(*ev.a), ContinuousSet(*ev.b)])
    return ContinuousSet(*ev)


def up(x):
    """label of a value of XS"""
    return x * 2. + 1.


def labels(var, ev):
    """event as the label-space object"""
    if var is XS:
        return interval(U(*[(up(a), up(b), l, r) for a, b, l, r in (ev.a, ev.b)]) if isinstance(ev, U) else (up(ev[0]), up(ev[1]), ev[2], ev[3]))
    if var.numeric:
        return interval(ev)
    ls = LA if var is A else ['u', 'v'] if var is B else LI
    return {ls[k] for k in ev}


def query(model, ev):
    return {n: labels(model.jpt.varnames[n], e) for n, e in ev.items()}


def snap(jpt):
    out = []
    for l in jpt.leaves.values():
        out.append((l.idx, l.prior, l.samples, [(v.name, list(d._params) if not v.numeric else snapq(d)) for v, d in l.distributions.items()],
                    [(v.name, s) for v, s in l._path], None if l.parent is None else l.parent.idx))
    for n in jpt.innernodes.values():
        out.append((n.idx, n.variable.name, list(n.splits), [c.idx for c in n.children]))
    return out


def flat(x):
    if isinstance(x, (list, tuple)):
        r = []
        for v in x:
            r += flat(v)
        return r
    return [x]


def unchanged(H, jpt, sn, label='the tree is modified'):
    a, b = flat(snap(jpt)), flat(sn)
    H.check(len(a) == len(b), label)
    for x, y in zip(a, b):
        H.check(x == y, label)


def cut(spec, ev):
    """masses of the parts of a distribution within an interval: [(mean, second moment, mass)]"""
    lo, hi, l, r = ev
    out = []
    for a, b, w in spec.pieces:
        x, y = (lo if lo > a else a), (hi if hi < b else b)
        if x < y:
            out.append(((x + y) * .5, (x * x + x * y + y * y) / 3., w * ((y - x) / (b - a))))
    for a, w in spec.atoms:
        if (lo < a or lo == a and l == INC) and (a < hi or a == hi and r == INC):
            out.append((a, a * a, w))
    return out


EVERY = (-float('inf'), float('inf'), EXC, EXC)


def moments(m, var, evs, values):
    """[E[V; ev], E[V^2; ev]] of the variable restricted to the evidence; values: numeric values of the states"""
    r1 = r2 = 0.
    for l in m.leaves:
        others = {n: e for n, e in evs.items() if n != var}
        w = m.in_leaf(l, others) if others else l.prior
        d = l.d[var]
        if isinstance(d, Spec):
            for a, b, p in cut(d, evs.get(var, EVERY)):
                r1, r2 = r1 + w * p * a, r2 + w * p * b
        else:
            for k in sorted(evs.get(var, range(len(d)))):
                r1, r2 = r1 + w * d[k] * values[k], r2 + w * d[k] * values[k] ** 2
    return r1, r2
