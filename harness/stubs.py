"""Recording surrogate: a regressor with integer predictions that logs what it
was trained on and what it was asked for."""
import numpy as np
from sklearn.base import BaseEstimator, RegressorMixin

LOG = []          # entries: ("fit", X, y) / ("pred", X, return_std)


def mix(X, salt):
    """A fixed integer for every row (insensitive to rounding)."""
    X = np.round(np.asarray(X, dtype=float), 7)
    w = np.array([0.7310585, 1.9341, 3.1337, 5.7721, 0.30103, 2.71828, 1.41421, 6.0221])
    w = np.resize(w, X.shape[1])
    h = np.abs(np.sin(np.round(X @ w, 5) * 12.9898 + salt) * 43758.5453)
    return np.floor((h - np.floor(h)) * 1000).astype(int)


class Stub(RegressorMixin, BaseEstimator):
    """mu in -8..8, std in {1, 2, 4}; `hist` makes predictions depend on the
    number of observations it was trained on."""
    def __init__(self, salt=0, hist=True):
        self.salt = salt
        self.hist = hist

    def fit(self, X, y):
        self.X_ = np.array(X, dtype=float)
        self.y_ = np.array(y, dtype=float)
        LOG.append(("fit", self.X_, self.y_))
        return self

    def predict(self, X, return_std=False):
        LOG.append(("pred", np.array(X, dtype=float), return_std))
        s = self.salt + (len(self.y_) if self.hist else 0)
        mu = (mix(X, s) % 17 - 8).astype(float)
        if return_std:
            return mu, 2.0 ** (mix(X, s + 77) % 3)
        return mu


class AcqStub(RegressorMixin, BaseEstimator):
    """Means in quarters, deviations in {1, 2, 4} (and 0 when `zero`); logs the
    rows it is asked to judge.  Trained on values that are not multiples of a
    quarter (logarithms of times) it plays the time model: log-means in
    {-1, 0, 1}, deviations in {1, 2}."""
    def __init__(self, salt=0, zero=False):
        self.salt = salt
        self.zero = zero

    def fit(self, X, y):
        y = np.array(y, dtype=float)
        self.n_ = len(y)
        self.time_ = bool(np.any(np.abs(y * 4 - np.round(y * 4)) > 1e-9))
        self.id_ = len(LOG)
        LOG.append({"fit": self, "X": np.array(X, dtype=float), "y": y, "rows": []})
        return self

    def mu4(self, X):
        s = self.salt + self.n_ + 31 * self.time_
        return (mix(X, s) % 3 - 1) * 4 if self.time_ else mix(X, s) % 65 - 32

    def sd(self, X):
        s = self.salt + self.n_ + 177 + 31 * self.time_
        if self.time_:
            return 1 + mix(X, s) % 2
        h = mix(X, s) % (4 if self.zero else 3)
        return np.where(h == 3, 0, 2 ** h)

    def predict(self, X, return_std=False):
        X = np.asarray(X, dtype=float)
        if return_std:
            LOG[self.id_]["rows"].extend(X)
            return self.mu4(X) / 4.0, self.sd(X).astype(float)
        return self.mu4(X) / 4.0


class FlatStub(AcqStub):
    """An AcqStub with gradients, all zero: every refinement ends where it
    starts.  Counts the refinements."""
    def predict(self, X, return_std=False, return_mean_grad=False, return_std_grad=False):
        if return_mean_grad:
            X = np.asarray(X, dtype=float)
            LOG[self.id_].setdefault("starts", set()).add(tuple(np.round(X[0], 9)))
            z = np.zeros(X.shape[1])
            return self.mu4(X) / 4.0, self.sd(X).astype(float), z, z.copy()
        return super().predict(X, return_std)
