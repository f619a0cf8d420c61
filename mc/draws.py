"""Exploration of every sequence of random draws of a function (controlled nondeterminism)."""
from unittest import mock
import numpy as np


class NotExplorable(Exception):
    pass


class Draws:
    """Depth-first exploration of all outcomes of the random draws of a function."""

    def __init__(self, cells=None):
        self.script, self.trace = [], []
        self.cells = cells            # (value, probability) of a uniform draw

    def pick(self, options):
        i = len(self.trace)
        j = self.script[i] if i < len(self.script) else 0
        self.trace.append((j, len(options)))
        v, p = options[j]
        self.p *= p
        return v

    def choice(self, a, size=None, replace=True, p=None):
        n = int(a) if np.ndim(a) == 0 else len(a)
        if size is not None and int(np.prod(size)) != 1:
            raise NotExplorable
        p = np.full(n, 1.0 / n) if p is None else np.asarray(p, float)
        if p.shape != (n,) or abs(p.sum() - 1) > 1e-8 or np.any(p < 0):
            raise ValueError(f"not a distribution: {p}")
        j = self.pick([(k, p[k]) for k in range(n) if p[k] > 0])
        v = j if np.ndim(a) == 0 else a[j]
        return v if size is None else np.full(size, v)

    def uniform(self, low=0.0, high=1.0, size=None):
        if size is not None:
            return np.full(size, 0.5 * (low + high))
        return low + (high - low) * self.pick(self.cells)

    def random(self, size=None):
        return self.uniform(0.0, 1.0, size)

    def __getattr__(self, name):
        raise NotExplorable(name)

    def run(self, fn):
        """Yields (probability, result) of every execution; nothing if the draws cannot be controlled."""
        while True:
            self.trace, self.p = [], 1.0
            try:
                with mock.patch("numpy.random.choice", self.choice), mock.patch("numpy.random.seed", lambda *a: None), \
                        mock.patch("numpy.random.default_rng", lambda *a, **k: self):
                    r = fn()
            except NotExplorable:
                return
            if not self.trace and not self.script:
                yield None, r
                return
            yield self.p, r
            t = [list(x) for x in self.trace]
            while t and t[-1][0] + 1 >= t[-1][1]:
                t.pop()
            if not t:
                return
            t[-1][0] += 1
            self.script = [x[0] for x in t]


def same_distribution(rec, what, got, want, tol=1e-12):
    rec.true(f"{what}: reachable data", set(got) == set(want), only_generated=sorted(set(got) - set(want))[:3], only_model=sorted(set(want) - set(got))[:3])
    for k in want:
        rec.true(f"{what}: probability", abs(got[k] - want[k]) <= tol, data=k, got=got[k], want=want[k])
