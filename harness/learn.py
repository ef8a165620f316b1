"""Surrogate models: life cycles (R02), Gaussian processes (L01), forests and
quantiles (L02), kernels (L03)."""
import copy
import math
import pickle
import random
import warnings

import numpy as np

import core
from enc import scale

U = 10000


# ------------------------------------------------------------- kernels
def leaf(rng, d, smooth=False):
    from skopt.learning.gaussian_process import kernels as K
    def one():
        return rng.choice([.15, .3, 4.]) if rng.random() < .15 else round(rng.uniform(.4, 2), 2)
    ls = one() if rng.random() < .5 else [one() for _ in range(d)]
    k = rng.choice(["rbf", "m05", "m15", "m25", "mn", "rq", "ess", "dot", "const"])
    if smooth and k == "m05":
        k = "m25"
    if smooth and k == "ess" and d > 1:
        k = "rq"          # not positive definite
    if k == "rbf":
        return K.RBF(ls)
    if k[0] == "m":
        nu = {"05": .5, "15": 1.5, "25": 2.5, "n": rng.choice([3.5, 2.0, np.inf])}[k[1:]]
        return K.Matern(ls, nu=nu)
    if k == "rq":
        return K.RationalQuadratic(length_scale=round(rng.uniform(.5, 2), 2), alpha=rng.choice([.1, .2, .35, 10.]) if rng.random() < .4
                                   else round(rng.uniform(.5, 3), 2))
    if k == "ess":
        return K.ExpSineSquared(length_scale=round(rng.uniform(.7, 2), 2), periodicity=round(rng.uniform(1, 3), 2))
    if k == "dot":
        return K.DotProduct(sigma_0=round(rng.uniform(.1, 1), 2))
    return K.ConstantKernel(round(rng.uniform(.2, 2), 2))


def build(rng, d, depth, smooth=False):
    if depth == 0 or rng.random() < .25:
        return leaf(rng, d, smooth)
    r = rng.random()
    if r < .3:
        return build(rng, d, depth - 1, smooth) + build(rng, d, depth - 1, smooth)
    if r < .7:
        return build(rng, d, depth - 1, smooth) * build(rng, d, depth - 1, smooth)
    if r < .8:
        return build(rng, d, depth - 1, smooth) ** rng.choice([2, 3])
    if r < .9:
        return round(rng.uniform(.2, 1.5), 2) * build(rng, d, depth - 1, smooth)
    return build(rng, d, depth - 1, smooth) + round(rng.uniform(.2, 1), 2)


def kleaf(k, x, z):
    n = type(k).__name__
    if n == "HammingKernel":
        ls = np.resize(np.asarray(k.length_scale, dtype=float), len(x))
        return math.exp(-sum(l for l, a, b in zip(ls, x, z) if a != b))
    r = (np.asarray(x) - np.asarray(z)) / np.asarray(getattr(k, "length_scale", 1.))
    q = float(np.sum(r ** 2))
    if n == "RBF":
        return math.exp(-q / 2)
    if n == "Matern":
        d = math.sqrt(q)
        if k.nu == np.inf:
            return math.exp(-q / 2)
        if k.nu == .5:
            return math.exp(-d)
        if k.nu == 1.5:
            return (1 + math.sqrt(3) * d) * math.exp(-math.sqrt(3) * d)
        if k.nu == 2.5:
            return (1 + math.sqrt(5) * d + 5 / 3 * q) * math.exp(-math.sqrt(5) * d)
        from scipy.special import gamma, kv
        t = math.sqrt(2 * k.nu) * d
        return 1. if t < 1e-9 else 2 ** (1 - k.nu) / gamma(k.nu) * t ** k.nu * kv(k.nu, t)
    if n == "RationalQuadratic":
        return (1 + q / (2 * k.alpha)) ** -k.alpha
    if n == "ExpSineSquared":
        d = float(np.sqrt(np.sum((np.asarray(x) - np.asarray(z)) ** 2)))
        return math.exp(-2 * (math.sin(math.pi / k.periodicity * d) / k.length_scale) ** 2)
    if n == "DotProduct":
        return k.sigma_0 ** 2 + float(np.dot(x, z))
    if n == "ConstantKernel":
        return float(k.constant_value)
    if n == "WhiteKernel":
        return 0.
    raise ValueError(n)


def kval(k, x, z):
    n = type(k).__name__
    if n == "Sum":
        return kval(k.k1, x, z) + kval(k.k2, x, z)
    if n == "Product":
        return kval(k.k1, x, z) * kval(k.k2, x, z)
    if n == "Exponentiation":
        return kval(k.kernel, x, z) ** k.exponent
    return kleaf(k, x, z)


def term(k, x, z):
    n = type(k).__name__
    if n == "Sum":
        return ["+", term(k.k1, x, z), term(k.k2, x, z)]
    if n == "Product":
        return ["*", term(k.k1, x, z), term(k.k2, x, z)]
    if n == "Exponentiation":
        return ["^", term(k.kernel, x, z), int(k.exponent)]
    return ["leaf", scale(kleaf(k, x, z)), [scale(s) for s in slopes(lambda u: kleaf(k, u, z), x)]]


def kinks(k):
    """Whether a kernel is not differentiable at the training points."""
    return any(kinks(getattr(k, a)) for a in ("k1", "k2", "kernel") if hasattr(k, a)) or getattr(k, "nu", 1) == .5


def slopes(f, x, h=1e-5):
    x = np.asarray(x, dtype=float)
    return [(f(x + h * e) - f(x - h * e)) / (2 * h) for e in np.eye(len(x))]


def top(t):
    """Largest number in a term and its parts."""
    if t[0] == "leaf":
        return max([abs(t[1])] + [abs(g) for g in t[2]]) / 1000.
    if t[0] == "+":
        return top(t[1]) + top(t[2])
    if t[0] == "*":
        return max(2 * top(t[1]) * top(t[2]), top(t[1]), top(t[2]))
    return max(1, t[2] * top(t[1]) ** t[2])


def kernels(scn):
    rng = random.Random("kernel/%s" % scn["seed"])
    ev = []
    for _ in range(30):
        d = rng.choice([1, 2, 2, 3])
        k = build(rng, d, rng.choice([0, 1, 2, 3]))
        x = [rng.uniform(0, 1.2) for _ in range(d)]
        X = np.array([[rng.uniform(0, 1.2) for _ in range(d)] for _ in range(3)])
        if rng.random() < .3:
            X[1, 0] = x[0]
        if rng.random() < .3:          # close to a training point, or there
            X[2] = x
            if kinks(k) or rng.random() < .8:
                X[2, rng.randrange(d)] += rng.choice([-1, 1]) * rng.choice([.002, .004, .008, .02, .04])
        if kinks(k) and min(np.sqrt(((X - x) ** 2).sum(1))) < .0015:
            continue
        g = k.gradient_x(x if rng.random() < .5 else np.array(x), X)
        fin = k.gradient_x(X[0], X)
        v = k(np.array([x]), X)[0]
        for j in range(3):
            t = term(k, x, X[j])
            if top(t) > 30:
                continue
            sl = slopes(lambda u: k(np.array([u]), X[j:j + 1])[0, 0], x)
            ev.append({"op": "kernel", "t": t, "v": scale(v[j]), "g": [scale(q) for q in g[j]],
                       "fine": [scale(q, U) for q in g[j]], "slope": [scale(q, U) for q in sl],
                       "finite": bool(np.all(np.isfinite(fin))) and np.shape(fin) == np.shape(X)
                       and np.shape(g) == np.shape(X)})
    from skopt.learning.gaussian_process.kernels import HammingKernel
    for _ in range(6):
        d = rng.choice([1, 2, 3, 4])
        ls = [round(rng.uniform(.1, 1), 2) for _ in range(d)] if rng.random() < .6 else round(rng.uniform(.1, 1), 2)
        k = HammingKernel(ls)
        X = np.array([[rng.randrange(3) for _ in range(d)] for _ in range(4)], dtype=float)
        if rng.random() < .3:
            X = np.array([["abc"[int(q)] for q in r] for r in X])
        K, G = k(X, eval_gradient=True)
        K2 = k(X[:2], X)
        for i in range(2):
            for j in range(4):
                def at(th, i=i, j=j):
                    return k.clone_with_theta(th)(X)[i, j]
                ev.append({"op": "hamming", "v": scale(K[i, j] if rng.random() < .5 else K2[i, j], U),
                           "want": scale(kleaf(k, X[i], X[j]), U),
                           "g": [scale(q, U) for q in G[i, j]],
                           "slope": [scale(q, U) for q in slopes(at, k.theta)]})
    return {"cfg": {"ests": 1, "sets": []}, "ev": ev}


# ------------------------------------------------------------ Gaussian processes
def processes(scn):
    from skopt.learning import GaussianProcessRegressor
    rng = random.Random("gp/%s" % scn["seed"])
    ev = []
    for _ in range(12):
        d = rng.choice([1, 2, 2, 3])
        n = rng.randint(2, 6)
        kern = build(rng, d, rng.choice([0, 1, 2]), smooth=True) if rng.random() < .9 else None
        noise = rng.choice([None, None, round(rng.uniform(.1, .9), 3), "gaussian"])
        alpha = rng.choice([round(rng.uniform(.1, .9), 3), 1e-6]) if noise is None else rng.choice([1e-10, .05])
        norm = rng.random() < .5
        tune = rng.random() < .3
        off = rng.choice([0, 0, 0, 1])
        X = np.array([[rng.uniform(0, 1) for _ in range(d)] for _ in range(n)])
        y = np.array([rng.randint(-6, 6) / 4. for _ in range(n)]) + off
        if len(set(y)) == 1:
            y[0] += .5
        gp = GaussianProcessRegressor(kernel=kern, alpha=alpha, noise=noise, normalize_y=norm,
                                      random_state=rng.randrange(99), optimizer="fmin_l_bfgs_b" if tune else None)
        x = np.array([rng.uniform(-.1, 1.1) for _ in range(d)])
        z = np.array([rng.uniform(0, 1) for _ in range(d)])
        if kern is not None or rng.random() < .5:
            from skopt.learning.gaussian_process.kernels import RBF
            pk = kern if kern is not None else RBF(1.)
            m, s = gp.predict([x], return_std=True)
            c = gp.predict(np.array([x, z]), return_cov=True)[1]
            if max(kval(pk, x, x), kval(pk, z, z)) < 4:
                ev.append({"op": "prior", "mu": scale(m[0], U), "std": scale(s[0], U), "cov": scale(c[0, 1], U),
                           "kxx": scale(kval(pk, x, x), U), "k": scale(kval(pk, x, z), U)})
        gp.fit(X, y)
        kk = gp.kernel_
        s2 = (gp.noise_ or 0) + alpha
        P = np.vstack([[x, z], X])
        mu, C = gp.predict(P, return_cov=True)
        sd = gp.predict(P, return_std=True)[1]
        if rng.random() < .5:          # points on their own
            for i in range(len(P)):
                C[i, i] = gp.predict(P[i:i + 1], return_cov=True)[1][0, 0]
        if rng.random() < .5:
            sd = np.array([gp.predict(P[i:i + 1], return_std=True)[1][0] for i in range(len(P))])
        big = max(kval(kk, p, p) for p in P)
        nok = (gp.noise_ is None) if noise is None else abs(gp.noise_ - noise) < 1e-12 if noise != "gaussian" \
            else gp.noise_ > 0
        if big <= 2 and .05 <= s2 <= 1.5 and np.max(np.abs(y)) < 2.6 and np.max(np.abs(y - mu[2:])) < 4:
            for a, b in ((0, 1), (0, 0), (1, 2)):
                ev.append({"op": "post", "norm": norm, "noise": scale(s2, U), "ys": [scale(v, U) for v in y],
                           "mu": scale(mu[a], U), "mus": [scale(v, U) for v in mu[2:]],
                           "kx": [scale(kval(kk, P[a], q), U) for q in X],
                           "kz": [scale(kval(kk, P[b], q), U) for q in X], "k": scale(kval(kk, P[a], P[b]), U),
                           "c": scale(C[a, b], U), "cx": [scale(v, U) for v in C[a, 2:]],
                           "std": scale(sd[a], U), "cxx": scale(C[a, a], U), "nok": bool(nok)})
        far(gp, X, ev, rng)
        if min(np.sqrt(((X - x) ** 2).sum(1))) < .03 or s2 < .01 and (noise is not None or n > 4):
            continue
        f = lambda u: gp.predict([u])[0]
        g = lambda u: gp.predict([u], return_std=True)[1][0]
        out = gp.predict([x], return_std=True, return_mean_grad=True, return_std_grad=True)
        gm = gp.predict([x], return_mean_grad=True)[1] if rng.random() < .5 else out[2]
        e = {"op": "grad", "std": scale(out[1][0], U), "gm": [scale(v, U) for v in gm],
             "sm": [scale(v, U) for v in slopes(f, x, 1e-4)], "gs": [scale(v, U) for v in out[3]],
             "ss": [scale(v, U) for v in slopes(g, x, 1e-4)]}
        # rounding errors of the variance in the slope of the deviation
        e["sharp"] = bool(1e-15 * np.linalg.cond(gp.L_) ** 2 * big * gp.y_train_std_ ** 2
                          < 2e-8 * out[1][0]) and out[1][0] > 1e-4
        if max(abs(v) for v in e["sm"] + e["ss"]) < 100 * U:
            ev.append(e)
    return {"cfg": {"ests": 1, "sets": []}, "ev": ev}


def far(gp, X, ev, rng):
    """Deviations in one batch with the training points, where variances may
    be negative by rounding."""
    if rng.random() < .7:
        from skopt.learning import GaussianProcessRegressor
        from skopt.learning.gaussian_process.kernels import RBF, ConstantKernel, Matern
        k = rng.choice([RBF(.1), RBF(.3), Matern(.4, nu=2.5)])
        gp = GaussianProcessRegressor(ConstantKernel(rng.choice([1., 30., 100.])) * k, optimizer=None,
                                      alpha=rng.choice([1e-13, 1e-10]), normalize_y=rng.random() < .5)
        gp.fit(X, [rng.uniform(-8, 8) for _ in X])
    kk = gp.kernel_
    P = np.vstack([X, [[rng.uniform(-9, 9) for _ in X[0]] for _ in range(4)]])
    rng.shuffle(P)
    C = np.diag(gp.predict(P, return_cov=True)[1])
    sd = gp.predict(P, return_std=True)[1]
    keep = [i for i in range(len(P)) if C[i] > 1e-4 * kval(kk, P[i], P[i]) * gp.y_train_std_ ** 2 and C[i] < 1e5]
    if keep and np.linalg.cond(gp.L_) < 1e5:
        ev.append({"op": "far", "sd": [scale(sd[i], 100) for i in keep], "c": [scale(C[i], 100) for i in keep]})


# ------------------------------------------------------- forests, quantiles
def forests(scn):
    from skopt.learning import ExtraTreesRegressor, RandomForestRegressor
    from sklearn.ensemble._forest import _generate_sample_indices
    rng = random.Random("forest/%s" % scn["seed"])
    ev = []
    for _ in range(6):
        d, n = rng.randint(1, 3), rng.randint(2, 25)
        off = rng.choice([0, 0, -7, 1000, -20000])
        X = np.array([[rng.choice([rng.random(), .5]) for _ in range(d)] for _ in range(n)])
        y = np.array([rng.choice([rng.randint(0, 20), 3, 17]) for _ in range(n)], dtype=float)
        minv = rng.choice([0, 0, .25, 2, 10])
        kind = rng.choice([ExtraTreesRegressor, RandomForestRegressor])
        kw = {"n_estimators": rng.randint(1, 9), "min_samples_leaf": rng.choice([1, 1, 2, 3, 5]),
              "max_depth": rng.choice([None, None, 1, 3]), "min_variance": minv,
              "random_state": rng.randrange(99), "bootstrap": rng.random() < .5,
              "n_jobs": rng.choice([None, None, 2])}
        if kw["bootstrap"]:
            kw["oob_score"] = rng.random() < .2
        f = kind(**kw).fit(X.astype(rng.choice(["f4", "f8"])), y + off)
        Q = np.array([[rng.choice([rng.random(), .5]) for _ in range(d)] for _ in range(4)])
        m, s = f.predict(Q, return_std=True)
        if rng.random() < .5:
            m = f.predict(Q)
        if rng.random() < .5:
            s = [f.predict(q[None], return_std=True)[1][0] for q in Q]
        members = []
        for t in f.estimators_:
            idx = _generate_sample_indices(t.random_state, n, n) if kw["bootstrap"] else range(n)
            members.append((t.apply(X.astype("f4")), list(idx), t.apply(Q.astype("f4"))))
        for i in range(4):
            leaves = [[int(y[j]) for j in idx if of[j] == q[i]] for of, idx, q in members]
            ev.append({"op": "forest", "leaves": leaves, "minv": scale(minv), "mean": scale(m[i] - off),
                       "std": scale(s[i])})
    return {"cfg": {"ests": 1, "sets": []}, "ev": ev}


def quantiles(scn):
    from skopt.learning import GradientBoostingQuantileRegressor
    from sklearn.base import clone
    from sklearn.ensemble import GradientBoostingRegressor
    rng = random.Random("quant/%s" % scn["seed"])
    ev = []
    for _ in range(2):
        n = rng.randint(6, 25)
        X = np.array([[rng.random()] for _ in range(n)])
        y = np.array([rng.gauss(0, 3) for _ in range(n)]) + 4 * X[:, 0]
        qs = [.16, .5, .84] + rng.sample([.05, .3, .95], rng.randint(0, 2))
        rng.shuffle(qs)
        base = GradientBoostingRegressor(loss="quantile", n_estimators=rng.choice([3, 8]),
                                         max_depth=rng.choice([1, 3]), alpha=.7)
        given = rng.choice([list, tuple, np.array])(qs)
        r = GradientBoostingQuantileRegressor(quantiles=given, base_estimator=base,
                                              random_state=3, n_jobs=rng.choice([1, 2])).fit(X, y)
        Q = np.array([[rng.random()] for _ in range(5)])
        ref = [clone(base).set_params(alpha=q, random_state=3).fit(X, y).predict(Q) for q in qs]
        m, s = r.predict(Q, return_std=True)
        if rng.random() < .3:
            m, s = np.array([np.ravel(r.predict(q[None], return_std=True)) for q in Q]).T
        S = 100000
        ev.append({"op": "quant", "q": [scale(q) for q in qs], "ref": [[scale(v, S) for v in p] for p in ref],
                   "cols": [[scale(v, S) for v in p] for p in r.predict(Q, return_quantiles=True).T],
                   "plain": [scale(v, S) for v in r.predict(Q)], "mean": [scale(v, S) for v in m],
                   "std": [scale(v, S) for v in s]})
    return {"cfg": {"ests": 1, "sets": []}, "ev": ev}


# ----------------------------------------------------------- life cycles
def settings(rng, kind, d):
    from sklearn.ensemble import GradientBoostingRegressor
    rs = rng.randrange(50)
    if kind == "gp":
        k = build(rng, d, rng.choice([0, 1, 2]), smooth=True) if rng.random() < .8 else None
        return {"kernel": k, "noise": rng.choice([None, .2, "gaussian", "gaussian"]),
                "alpha": rng.choice([1e-4, .01]), "normalize_y": rng.random() < .6, "random_state": rs,
                "n_restarts_optimizer": rng.choice([0, 0, 2]),
                "optimizer": rng.choice(["fmin_l_bfgs_b", "fmin_l_bfgs_b", None])}
    if kind == "gbrt":
        b = GradientBoostingRegressor(loss="quantile", n_estimators=rng.choice([3, 6]),
                                      subsample=rng.choice([1., .6]), random_state=rng.choice([None, 5]))
        return {"base_estimator": b if rng.random() < .7 else None, "random_state": rs,
                "quantiles": rng.choice([[.16, .5, .84], [.5, .84, .16], (.84, .16, .5), [.3, .84, .5, .16], [.5]])}
    return {"n_estimators": rng.randint(1, 6), "random_state": rs, "min_samples_leaf": rng.choice([1, 2, 3]),
            "min_variance": rng.choice([0., .5]), "bootstrap": rng.random() < .5,
            "max_features": rng.choice([1., "sqrt"]), "warm_start": False}


def look(est):
    out = []
    for k, v in sorted(est.get_params(deep=True).items()):
        if hasattr(v, "theta"):
            v = (repr(v), [round(float(t), 12) for t in v.theta], np.asarray(v.bounds).tolist())
        elif isinstance(v, np.random.RandomState):
            v = hash(str(v.get_state()[1].tolist()))
        out.append((k, repr(v)))
    return repr(out)


def glob():
    s = np.random.get_state()
    return hash((s[1].tobytes(), s[2])), random.getstate()[1][-1]


def lives(scn):
    from skopt.learning import (ExtraTreesRegressor, GaussianProcessRegressor, GradientBoostingQuantileRegressor,
                                RandomForestRegressor)
    from skopt.utils import cook_estimator
    from sklearn.base import clone
    rng = random.Random("life/%s" % scn["seed"])
    kind = scn["kind"]
    cls = {"gp": GaussianProcessRegressor, "rf": RandomForestRegressor, "et": ExtraTreesRegressor,
           "gbrt": GradientBoostingQuantileRegressor}[kind]
    d = rng.randint(1, 3)
    sets = [settings(rng, kind, d) for _ in range(3)]
    datas = []
    for _ in range(3):
        n = rng.randint(3, 9)
        datas.append((np.array([[rng.random() for _ in range(d)] for _ in range(n)]),
                      np.array([rng.gauss(0, 2) for _ in range(n)]) + rng.choice([0, 50])))
    Q = np.array([[rng.random() for _ in range(d)] for _ in range(5)])
    S = 100000

    def make(s):
        s = {k: copy.deepcopy(v) for k, v in sets[s - 1].items()}
        if kind == "gp" and scn["cook"]:
            return cook_estimator("GP", space=[(0., 1.)] * d, **s)
        if scn["cook"] and kind != "gbrt":
            return cook_estimator(kind, **s)
        return cls(**s)
    N = 3
    est = {i + 1: make(1) for i in range(N)}
    state = {i + 1: [1, None] for i in range(N)}
    ev = []

    def fit(i, v):
        X, y = datas[v - 1]
        X, y = X.copy(), y.copy()
        if rng.random() < .2:
            X, y = X.tolist(), y.tolist()
        a, b, g = look(est[i]), (np.array(X), np.array(y)), glob()
        r = est[i].fit(X, y)
        ev.append({"op": "fit", "e": i, "v": v, "keep": look(est[i]) == a, "glob": glob() == g,
                   "data": bool(np.array_equal(X, b[0]) and np.array_equal(y, b[1])), "self": r is est[i]})
        state[i][1] = (state[i][0], v)
        if isinstance(X, np.ndarray) and rng.random() < .7:
            X[:] = rng.random()
            y[:] = -1

    def pred(i):
        a, g = look(est[i]), glob()
        p = est[i].predict(Q)
        if kind == "gbrt" and len(est[i].quantiles) == 1:
            def both(q):
                return est[i].predict(q), est[i].predict(q, return_quantiles=True)[:, 0]
        else:
            def both(q):
                return est[i].predict(q, return_std=True)
        m, s = both(Q)
        alone = [both(q[None]) for q in Q]
        if kind == "gp" and rng.random() < .3:
            est[i].predict(Q, return_cov=True)
            if type(est[i].kernel_).__name__ != "HammingKernel":
                est[i].predict(Q[:1], return_std=True, return_mean_grad=True, return_std_grad=True)
        ev.append({"op": "pred", "e": i, "mean": [scale(v, S) for v in m], "std": [scale(v, S) for v in s],
                   "pmean": [scale(v, S) for v in p], "amean": [scale(u[0][0], S) for u in alone],
                   "astd": [scale(u[1][0], S) for u in alone], "keep": look(est[i]) == a, "glob": glob() == g,
                   "rough": kind == "gp" and float(np.linalg.cond(est[i].L_)) > 1e4})

    def ready(i):
        return state[i][1] is not None and state[i][1][0] == state[i][0]
    for o in scn["ops"]:
        i, v = o["e"], o["v"]
        if o["op"] == "fit":
            fit(i, v)
        elif o["op"] == "set":
            est[i].set_params(**{k: copy.deepcopy(u) for k, u in sets[v - 1].items()})
            state[i][0] = v
            ev.append({"op": "set", "e": i, "v": v})
        elif o["op"] == "clone":
            est[v] = clone(est[i])
            state[v] = [state[i][0], None]
            ev.append({"op": "clone", "e": i, "v": v})
        else:
            est[v] = pickle.loads(pickle.dumps(est[i])) if rng.random() < .6 else copy.deepcopy(est[i])
            state[v] = list(state[i])
            ev.append({"op": "pickle", "e": i, "v": v})
        for j in range(1, N + 1):
            if ready(j) and rng.random() < .3:
                pred(j)
    for j in range(1, N + 1):
        if ready(j):
            pred(j)
            est[N + 1] = make(state[j][0])
            state[N + 1] = [state[j][0], None]
            ev.append({"op": "clone", "e": j, "v": N + 1})
            fit(N + 1, state[j][1][1])
            pred(N + 1)
    return {"cfg": {"ests": N + 1, "sets": [1] * N}, "ev": ev}


DRIVE = {"kernel": kernels, "gp": processes, "forest": forests, "quant": quantiles, "life": lives}


def drive(scn):
    warnings.simplefilter("ignore")
    return DRIVE[scn["what"]](scn)


EXPECT = {"R02": ["DeterminedBySettingsAndData", "RowsIndependent", "DeviationsAsked", "SettingsUnchanged",
                  "TrainingDataUnchanged", "GlobalStateUntouched", "FitReturnsSelf"],
          "L01": ["PosteriorMean", "PosteriorCovariance", "DeviationIsRootOfCovariance", "NoiseReported", "Prior",
                  "GradientOfTheMean", "GradientOfTheDeviation"],
          "L02": ["MeanOfTheTrees", "LawOfTotalVariance", "QuantilesInTheOrderGiven", "MedianIsPredicted",
                  "HalfTheQuantileRange"],
          "L03": ["Value", "Gradient", "GradientIsSlope", "FiniteAtTheTrainingPoint", "HammingValue",
                  "HammingHyperparameters"]}


def scns(ctx):
    s = lambda i: "%d/%d" % (ctx.seed, i)
    if ctx.pid == "R02":
        ops = core.generate(ctx, "MCLearn", "MCLearn_gen.cfg", num=ctx.n(40, 400), depth=10, seed=ctx.seed)
        rng = ctx.rng("life")
        ops = rng.sample(ops, min(len(ops), ctx.n(450, 8000)))
        return [{"what": "life", "seed": s(i), "kind": ["gp", "et", "gp", "rf", "gbrt"][i % 5], "ops": o,
                 "cook": rng.random() < .25} for i, o in enumerate(ops)]
    if ctx.pid == "L01":
        return [{"what": "gp", "seed": s(i)} for i in range(ctx.n(80, 2500))]
    if ctx.pid == "L02":
        return [{"what": w, "seed": s(i)} for i in range(ctx.n(80, 2500)) for w in ("forest", "quant")]
    return [{"what": "kernel", "seed": s(i)} for i in range(ctx.n(60, 2500))]


def run(ctx):
    core.model(ctx, "MCLearn", constants={"MaxLen": ctx.n(4, 5)})
    core.traces(ctx, "learn", "TraceLearn", drive, scns(ctx), EXPECT[ctx.pid])
