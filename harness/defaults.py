"""Settings left out (U03): every use of MCDefaults, next to the same use with
the defaults given and, for single settings, with another value."""
import ast
import contextlib
import io
import os
import random
import tempfile
import warnings

import numpy as np
from sklearn.base import BaseEstimator, RegressorMixin

import core

ROWS, STARTS = [0], [0]
REAL = [(-5.0, 5.0), (0.5, 60.0)]
LOOPS = ("base_minimize", "gp_minimize", "forest_minimize", "gbrt_minimize", "dummy_minimize")


class Fine(RegressorMixin, BaseEstimator):
    """A wavy surrogate with values of any size between -1 and 1, flat for
    those who ask for gradients; counts what it is asked for."""
    def __init__(self, salt=0):
        self.salt = salt

    def fit(self, X, y):
        self.n_ = len(y)
        self.phase_ = float(np.sum(y)) * 10
        return self

    def mean(self, X):
        s = 1 + self.salt + self.n_ + self.phase_
        return np.sin(X @ (1.7 + np.arange(X.shape[1])) * 3 + s) * np.cos(X[:, 0] * 2 - s)

    def predict(self, X, return_std=False, return_mean_grad=False, return_std_grad=False):
        X = np.asarray(X, dtype=float)
        ROWS[0] += len(X)
        sd = 0.2 + np.sin(X @ (2.3 + np.arange(X.shape[1])) * 5 + self.n_) ** 2
        if return_mean_grad:
            STARTS[0] += 1
            z = np.zeros(X.shape[1])
            return self.mean(X), sd, z, z.copy()
        return (self.mean(X), sd) if return_std else self.mean(X)


class Step(BaseEstimator):
    """Scores by its parameter; fails for large ones."""
    def __init__(self, a=1.0):
        self.a = a

    def fit(self, X, y):
        if self.a > 0.9:
            raise ArithmeticError
        return self

    def predict(self, X):
        return np.zeros(len(X))

    def score(self, X, y):
        return float(np.sin(9 * self.a)) + len(X) / 1e3


def plain(x):
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, np.ndarray):
        return plain(x.tolist())
    if isinstance(x, (float, np.floating)):
        return float(x)
    if isinstance(x, (int, np.integer)) and not isinstance(x, bool):
        return int(x)
    return x if x is None or isinstance(x, (str, bool)) else repr(x)


def value(x, rng):
    return round(float(np.sin(x[0]) + x[1] / 40.0), 6)


def optimizer(kw, rng, omit):
    from skopt import Optimizer
    rs = rng.randrange(1000)
    real = "base_estimator" in omit
    akw, okw = {}, {}
    base = {"n_initial_points": 4, "acq_func": "EI", "acq_optimizer": "lbfgs", "base_estimator": Fine(rs),
            "n_points": 300, "n_restarts_optimizer": 2, "xi": 0.1, "kappa": 2.5, "eta": 1.5,
            "strategy": "cl_mean", "fit": True}
    if {"kappa", "eta"} & omit:
        base["acq_func"] = "LCB" if "kappa" in omit else "gp_hedge"
    if "n_restarts_optimizer" in omit or "acq_optimizer" in omit:
        base["acq_optimizer"] = "lbfgs"
    if real and "acq_optimizer" not in omit:
        base["acq_optimizer"] = "sampling"
    for o in omit:
        base.pop(o, None)
    base.update(kw)
    tellkw = {"fit": base.pop("fit")} if "fit" in base else {}
    askkw = {"strategy": base.pop("strategy")} if "strategy" in base else {}
    for k in ("xi", "kappa", "eta"):
        if k in base:
            akw[k] = base.pop(k)
    for k in ("n_points", "n_restarts_optimizer"):
        if k in base:
            okw[k] = base.pop(k)
    o = Optimizer([tuple(d) for d in REAL], random_state=rs, acq_func_kwargs=akw, acq_optimizer_kwargs=okw, **base)
    xs = []
    for i in range((12 if "n_initial_points" in omit else 6) if real else 18):
        x = o.ask()
        xs.append(x)
        o.tell(x, value(x, rng), **tellkw)
    return xs, len(o.models), ROWS[0], STARTS[0], o.ask(n_points=3, **askkw), ROWS[0]


def loop(fn, kw, rng, omit):
    import skopt
    from skopt.optimizer import base_minimize
    rs = rng.randrange(1000)
    base = {"n_calls": 13, "n_initial_points": 5, "n_points": 300, "xi": 0.1, "kappa": 2.5,
            "n_restarts_optimizer": 2, "acq_func": "EI"}
    if "kappa" in omit:
        base["acq_func"] = "LCB"
    if "n_initial_points" in omit:
        base["n_calls"] = 15
    if len(omit) == 1 and not omit & {"n_calls", "n_initial_points", "base_estimator", "noise"} and rng.random() < .5:
        # ... after a long start
        base.update(n_calls=63, n_initial_points=54)
    if fn in ("dummy_minimize",):
        base = {"n_calls": 13}
    if fn in ("forest_minimize", "gbrt_minimize"):
        base.pop("n_restarts_optimizer")
    real = "noise" in omit or "base_estimator" in omit
    if fn != "dummy_minimize" and not real:
        base["base_estimator"] = Fine(rs)
    for o in omit:
        base.pop(o, None)
    base.update(kw)
    xs = []

    def f(x):
        xs.append(x)
        return value(x, rng)
    if real:
        stop = 12 if "n_initial_points" in omit else 9
        base["callback"] = lambda r: len(r.x_iters) >= stop
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        g = base_minimize if fn == "base_minimize" else getattr(skopt, fn)
        r = g(f, [tuple(d) for d in REAL], random_state=rs, **base)
    return xs, len(r.models), ROWS[0], STARTS[0], bool(out.getvalue())


def acquisition(fn, kw, rng, omit):
    import skopt.acquisition as A
    X = np.array([[rng.random(), rng.random()] for _ in range(1 if "return_grad" in omit else 7)])
    m = Fine(rng.randrange(99)).fit(X, X[:, 0])
    return getattr(A, fn)(X, m, **kw)


def dimension(fn, kw, rng, omit):
    import skopt.space as S
    base = {"transform": rng.choice(["normalize", "identity"]), "name": "n"}
    if fn == "Categorical":
        base["transform"] = rng.choice(["normalize", "onehot", "identity"])
        args, vals = (["a", "b", "c"],), ["a", "c", "b"]
    else:
        base.update(prior=rng.choice(["uniform", "log-uniform"]), base=rng.choice([2, 10]))
        args, vals = ((1, 64), [1, 8, 64, 5]) if fn == "Integer" else ((0.5, 64.0), [0.5, 2.0, 64.0])
    for o in omit:
        base.pop(o, None)
    d = getattr(S, fn)(*args, **{**base, **kw})
    return (repr(d), d.name, getattr(d, "base", None), d.prior, d.transform(vals), d.transformed_bounds,
            d.rvs(30, random_state=rng.randrange(99)))


def sampler(fn, kw, rng, omit):
    import skopt.sampler as S
    base = {"max_skip": 9} if "min_skip" in omit else {"iterations": 50} if fn == "Lhs" else {}
    if fn == "Lhs" and omit == {"iterations"}:
        base["criterion"] = rng.choice(["maximin", "correlation", "ratio"])
    for o in omit:
        base.pop(o, None)
    g = getattr(S, fn)(**{**base, **kw})
    rs, dims, n = rng.randrange(99), [(0.0, 1.0), (0.0, 1.0), (0.0, 1.0)], 4 if fn == "Sobol" else 12 if fn == "Grid" else 5
    return [g.generate(dims, n, random_state=rs + i) for i in range(3)]


def learner(fn, kw, rng, omit):
    import skopt.learning as L
    r = np.random.RandomState(rng.randrange(99))
    X, T = r.rand(40, 2), r.rand(5, 2)
    y = np.sin(5 * X[:, 0]) + r.rand(40) + 3
    ask = {k: kw.pop(k) for k in list(kw) if k.startswith("return_")}
    base = {"random_state": 3}
    if fn.startswith("Gaussian"):
        from skopt.learning.gaussian_process.kernels import RBF, ConstantKernel
        T = T[:1]
        base.update(kernel=ConstantKernel(1.0) * RBF(0.7), alpha=1e-6)
    if "min_variance" in omit and "return_std" not in omit:
        ask.setdefault("return_std", True)
    if "quantiles" in omit and not {"return_std", "return_quantiles"} & omit:
        ask["return_quantiles"] = True
    if ask.get("return_mean_grad"):
        ask["return_std"] = True
    for o in omit:
        base.pop(o, None)
    m = getattr(L, fn)(**{**base, **kw}).fit(X, y)
    return m.predict(T, **ask), str(getattr(m, "kernel_", ""))


def search(kw, rng, omit):
    from skopt import BayesSearchCV
    from skopt.space import Real
    base = {"n_iter": 6, "error_score": -1.0, "cv": 2}
    hi = 3.0 if "error_score" in omit else 0.9
    for o in omit:
        base.pop(o, None)
    steps = []
    # learned from in batches
    s = BayesSearchCV(Step(), {"a": Real(0.0, hi)}, random_state=rng.randrange(99),
                      optimizer_kwargs={"base_estimator": Fine(1), "acq_optimizer": "sampling", "acq_func": "EI",
                                        "n_initial_points": 3, "acq_optimizer_kwargs": {"n_points": 50}},
                      **{**base, **kw})
    X = np.arange(12.0)[:, None]
    try:
        s.fit(X, X[:, 0], callback=lambda r: steps.append(len(r.x_iters)) and False)
        err = ""
    except Exception as x:
        err = type(x).__name__
    cv = getattr(s, "cv_results_", {})
    return (err, steps, sorted(cv), [float(v) for v in cv.get("param_a", [])], hasattr(s, "best_estimator_"))


def stopper(fn, kw, rng, omit):
    from scipy.optimize import OptimizeResult
    import skopt.callbacks as C
    out = []
    for _ in range(20):
        v = [rng.randint(-4, 9) for _ in range(12)]
        s = getattr(C, fn)(3, **kw)
        for n in range(1, 13):
            out.append(bool(s(OptimizeResult(func_vals=np.array(v[:n]), x_iters=[[x] for x in v[:n]],
                                             fun=min(v[:n]), x=[min(v[:n])]))))
    return out


def result(rng):
    from skopt.optimizer import base_minimize
    return base_minimize(lambda x: value(x, rng), [tuple(d) for d in REAL], Fine(rng.randrange(99)), n_calls=6,
                         n_initial_points=3, n_points=50, acq_optimizer="sampling", random_state=rng.randrange(99))


def tool(fn, kw, rng, omit):
    import skopt
    import skopt.utils as U
    r = result(rng)
    ROWS[0] = 0
    if fn == "dump":
        d = tempfile.mkdtemp()
        p = os.path.join(d, "r.pkl")
        # functions which cannot be pickled cannot be stored
        r.specs["args"]["func"] = len
        skopt.dump(r, p, **kw)
        return sorted(skopt.load(p).specs["args"])
    if fn == "partial_dependence":
        from skopt.plots import partial_dependence
        np.random.seed(1)
        sp = r.space
        return partial_dependence(sp, r.models[-1], 0, **kw), ROWS[0]
    return getattr(U, fn)(r, random_state=rng.randrange(99), **kw), ROWS[0]


def use(fn, kw, seed, omit):
    rng = random.Random("defaults/%s/%s" % (fn, seed))
    ROWS[0] = STARTS[0] = 0
    omit = set(omit)
    kw = dict(kw)
    try:
        if fn == "Optimizer":
            r = optimizer(kw, rng, omit)
        elif fn in LOOPS:
            r = loop(fn, kw, rng, omit)
        elif fn.startswith("gaussian_"):
            r = acquisition(fn, kw, rng, omit)
        elif fn in ("Real", "Integer", "Categorical"):
            r = dimension(fn, kw, rng, omit)
        elif fn in ("Sobol", "Halton", "Hammersly", "Lhs", "Grid"):
            r = sampler(fn, kw, rng, omit)
        elif fn.endswith("Regressor"):
            r = learner(fn, kw, rng, omit)
        elif fn == "BayesSearchCV":
            r = search(kw, rng, omit)
        elif fn.endswith("Stopper"):
            r = stopper(fn, kw, rng, omit)
        else:
            r = tool(fn, kw, rng, omit)
    except Exception as x:
        r = "%s: %s" % (type(x).__name__, str(x)[:80])
    return plain(r)


def near(a, b):
    """Equal up to what the order of additions may change."""
    if isinstance(a, float) and isinstance(b, float):
        return a == b or abs(a - b) <= 1e-6 + 1e-5 * max(abs(a), abs(b)) or (a != a and b != b)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(near(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(near(a[k], b[k]) for k in a)
    return type(a) == type(b) and a == b


def drive(scn):
    ev = []
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for u in scn["do"]:
            o, s = u["omit"], u["seed"]
            e = {"op": "use", "fn": u["fn"], "omit": o, "given": "as given", "other": "", "third": ""}
            left = use(u["fn"], {}, s, o)
            given = use(u["fn"], {k: ast.literal_eval(u["default"][k]) for k in o}, s, o)
            e["left"] = "as given" if near(left, given) else "differs"
            e["answers"] = not isinstance(given, str)
            if e["left"] == "differs":
                e["seen"] = [repr(left)[:300], repr(given)[:300]]
            if len(o) == 1:
                other = use(u["fn"], {o[0]: ast.literal_eval(u["other"][o[0]])}, s, o)
                e["other"] = "as given" if near(other, given) else "differs"
                if u["third"] and o[0] in u["third"]:
                    third = use(u["fn"], {o[0]: ast.literal_eval(u["third"][o[0]])}, s, o)
                    e["third"] = "as given" if near(third, given) else "differs"
            ev.append(e)
    return {"cfg": {"n": len(ev)}, "ev": ev}


def run(ctx):
    rng = ctx.rng("defaults")
    uses = core.enumerate_states(ctx, "MCDefaults")
    single = [u for u in uses if len(u["omit"]) == 1]
    rest = [u for u in uses if len(u["omit"]) != 1]
    qs = [dict(u, seed=ctx.seed * 100 + i) for i in range(ctx.n(1, 6)) for u in single]
    rng.shuffle(rest)
    qs += [dict(u, seed=ctx.seed * 100 + i) for i in range(ctx.n(1, 6)) for u in rest[:ctx.n(200, 10 ** 6)]]
    rng.shuffle(qs)
    scns = [{"do": qs[i:i + 6]} for i in range(0, len(qs), 6)]
    core.traces(ctx, "defaults", "TraceDefaults", drive, scns, ["Answers", "LeftOutIsDefault", "SettingHonoured"])
