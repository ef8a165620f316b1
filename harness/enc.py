"""Encoding of the values the code produces into what the specifications use:
points become natural numbers, reals become scaled integers."""
import itertools
import math

import numpy as np

BIG = 2 ** 30


def py(v):
    if isinstance(v, np.generic):
        return v.item()
    return v


def scale(v, k=1000):
    """A real in units of 1/k, clamped so that TLC can hold it."""
    v = float(v)
    if math.isnan(v):
        return -BIG - 1
    return int(max(-BIG, min(BIG, round(v * k))))


def _key(v):
    v = py(v)
    if isinstance(v, bool):
        return ("b", v)
    if isinstance(v, (int,)):
        return ("i", v)
    if isinstance(v, float):
        # integral floats and integers are the same point
        if not math.isfinite(v):
            return ("f", str(v))
        u = float("%.10e" % v)
        return ("i", int(u)) if u == int(u) else ("f", "%.10e" % v)
    if isinstance(v, (tuple, list)):
        return ("t", tuple(_key(u) for u in v))
    return ("s", str(v))


def keys(v):
    """All keys under which a value that is off by rounding may be known."""
    v = py(v)
    if isinstance(v, float) and math.isfinite(v):
        e = 3e-12 * max(abs(v), 1e-3)
        return list(dict.fromkeys([_key(v), _key(v - e), _key(v + e)]))
    return [_key(v)]


class Interner:
    def __init__(self):
        self.ids = {}
        self.vals = []

    def __call__(self, point, new=True):
        ks = [keys(v) for v in point]
        for k in itertools.product(*ks):
            if k in self.ids:
                return self.ids[k]
        if not new:
            return 0
        self.vals.append([py(v) for v in point])
        self.ids[tuple(k[0] for k in ks)] = len(self.vals)
        return len(self.vals)

    def many(self, points):
        return [self(p) for p in points]


class RowInterner:
    """Rows of the transformed space back to point ids."""
    def __init__(self, space, interner):
        self.space, self.interner = space, interner
        self.rows, self.known = {}, 0

    def _sync(self):
        vals = self.interner.vals
        for i in range(self.known, len(vals)):
            try:
                row = np.asarray(self.space.transform([vals[i]]), dtype=float)[0]
            except Exception:
                continue
            self.rows.setdefault(tuple(_key(float(v)) for v in row), i + 1)
        self.known = len(vals)

    def __call__(self, row):
        self._sync()
        for k in itertools.product(*[keys(float(v)) for v in row]):
            if k in self.rows:
                return self.rows[k]
        return 0


def errname(e):
    return type(e).__name__
