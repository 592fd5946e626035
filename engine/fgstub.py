"""stand-in for the external library ``factorgraph`` during symbolic execution: the exact marginals of a factor graph
without cycles (what loopy belief propagation converges to on such graphs).  Replays use the library itself."""
import itertools

import numpy as np


class RV:
    def __init__(self, name, n):
        self.name, self.n_opts = name, n

    def __str__(self):
        return self.name


class Graph:
    def __init__(self, *a, **kw):
        self.rvs, self.factors = {}, []

    def rv(self, name, n_opts, *a, **kw):
        self.rvs[name] = RV(name, n_opts)
        return self.rvs[name]

    def factor(self, rvs, name='', potential=None, **kw):
        names = [str(r) for r in rvs]
        assert tuple(self.rvs[n].n_opts for n in names) == np.shape(potential)
        self.factors.append((names, potential))

    def lbp(self, *a, **kw):
        return 1, True

    def _to_rv(self, f, name):
        """message of a factor to a variable"""
        names, pot = self.factors[f]
        msgs = {n: self._to_factor(n, f) for n in names if n != name}
        out = []
        for k in range(self.rvs[name].n_opts):
            r = 0.
            for idx in itertools.product(*[[k] if n == name else range(self.rvs[n].n_opts) for n in names]):
                p = pot[idx] if len(idx) > 1 else pot[idx[0]]
                for n, i in zip(names, idx):
                    if n != name:
                        p = p * msgs[n][i]
                r = r + p
            out.append(r)
        return out

    def _to_factor(self, name, f):
        out = [1.] * self.rvs[name].n_opts
        for i, (names, _) in enumerate(self.factors):
            if i != f and name in names:
                m = self._to_rv(i, name)
                out = [a * b for a, b in zip(out, m)]
        return out

    def rv_marginals(self, rvs=None, normalize=False):
        r = []
        for n, rv in self.rvs.items():
            m = self._to_factor(n, None)
            a = np.empty(len(m), dtype=object)
            for i, x in enumerate(m):
                a[i] = x
            r.append((rv, a))
        return r
