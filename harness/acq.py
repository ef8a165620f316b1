"""Acquisitions (A01, A02, O08): values and gradients on a grid, suggestions
against all candidates the surrogate was asked about, hedging."""
import copy
import random

import numpy as np

import core
import stubs
from enc import scale

SPACES = {"mixed": [(0.0, 10.0), (1, 60), ["a", "b", "c"]], "real2": [(-5.0, 5.0), (0.0, 1.0)],
          "log": [(1e-3, 10.0, "log-uniform"), (-1.0, 1.0)], "real1": [(0.0, 1.0)],
          "four": [(-1.0, 1.0), (1, 30), (0.0, 3.0), [True, False], (5, 9)],
          "big": [(0, 10 ** 6), (0.0, 1.0, "uniform")]}
REAL = ("real2", "log", "real1")
INF = 999


# ------------------------------------------------------------ values (A01)
class Given:
    """A surrogate with given predictions."""
    def __init__(self, mu, sd, gmu=None, gsd=None):
        self.v = mu, sd, gmu, gsd

    def predict(self, X, return_std=False, return_mean_grad=False, return_std_grad=False):
        mu, sd, gmu, gsd = self.v
        i = [int(r[0]) for r in np.asarray(X)]
        out = [np.array([mu[k] / 4.0 for k in i]), np.array([float(sd[k]) for k in i])]
        if not return_std:
            return out[0]
        if return_mean_grad:
            out.append(np.array(gmu, dtype=float) / 4.0)
        if return_std_grad:
            out.append(np.array(gsd, dtype=float) / 4.0)
        return tuple(out)


class Pair:
    def __init__(self, a, b):
        self.estimators_ = [a, b]


def values(scn):
    import skopt.acquisition as A
    rng = random.Random("acq/%s" % scn["seed"])
    ev = []
    for _ in range(scn["calls"]):
        n = rng.choice([1, 1, 2, 3, 7])
        mu = [rng.randint(-28, 28) for _ in range(n)]
        sd = [rng.choice([0, 1, 1, 2, 4]) for _ in range(n)]
        y4, xi4 = rng.randint(-20, 20), rng.choice([0, 0, 1, 2, 8])
        k4 = rng.choice([0, 1, 8, 7, INF])
        f = rng.choice(["EI", "PI", "LCB", "EIps", "PIps"])
        grad = rng.random() < .5
        X = [[k, 1.0] for k in range(n)]
        if grad:
            X = X[:1]
        gm, gs = [rng.randint(-8, 8) for _ in range(2)], [rng.randint(-8, 8) for _ in range(2)]
        m = Given(mu, sd, gm, gs)
        via = rng.choice(["direct", "wrapped"])
        kw = {}
        e0 = {"f": f, "y4": y4, "xi4": xi4, "k4": k4, "grad": grad}
        if f.endswith("ps"):
            mt, st = [4 * rng.randint(-1, 1) for _ in range(n)], [rng.choice([1, 2]) for _ in range(n)]
            gt, ht = [rng.randint(-4, 4) for _ in range(2)], [rng.randint(-4, 4) for _ in range(2)]
            m = Pair(m, Given(mt, st, gt, ht))
        if via == "direct" and f == "LCB":
            r = A.gaussian_lcb(X, m, kappa="inf" if k4 == INF else k4 / 4.0, return_grad=grad)
        elif via == "direct" and f in ("EI", "PI"):
            r = (A.gaussian_ei if f == "EI" else A.gaussian_pi)(
                X, m, y_opt=y4 / 4.0, xi=xi4 / 4.0, return_grad=grad)
        else:
            kw = {"xi": xi4 / 4.0, "kappa": "inf" if k4 == INF else k4 / 4.0}
            fn = A.gaussian_acquisition_1D if grad and rng.random() < .5 else A._gaussian_acquisition
            r = fn(X[0] if fn is A.gaussian_acquisition_1D else X, m, y4 / 4.0, f, return_grad=grad,
                   acq_func_kwargs=kw)
        v, g = r if grad else (r, None)
        sign = -1 if via == "wrapped" and f in ("EI", "PI") else 1
        for k in range(len(X)):
            e = dict(e0, mu4=mu[k], s=sd[k], got=scale(sign * np.asarray(v)[k], 10 ** 6))
            for c in (range(2) if grad else [0]):
                d = dict(e)
                if grad:
                    d["ggot"] = scale(sign * np.asarray(g).reshape(-1)[c], 10 ** 6)
                    d["a"], d["b"] = gm[c], gs[c]
                else:
                    d["ggot"] = d["a"] = d["b"] = 0
                if f.endswith("ps"):
                    d.update(op="ps", mt=mt[k] // 4, st=st[k], at=gt[c] if grad else 0, bt=ht[c] if grad else 0)
                else:
                    d["op"] = "val"
                ev.append(d)
    return {"cfg": {"chains": 1}, "ev": ev}


def estimator(name, rs=1):
    from skopt.utils import cook_estimator
    from skopt.learning import GaussianProcessRegressor
    if name == "GPd":
        return GaussianProcessRegressor(alpha=1e-6, normalize_y=True, random_state=rs)
    kw = {"n_estimators": 8} if name in ("RF", "ET") else {}
    return cook_estimator(name, space=[(0.0, 1.0), (0.0, 1.0)], random_state=rs, **kw)


def realvals(scn):
    """Acquisitions of real surrogates."""
    import skopt.acquisition as A
    rng = np.random.RandomState(scn["rs"])
    X = rng.rand(12, 2)
    y = np.round(np.sin(5 * X[:, 0]) + X[:, 1] * 2, 3)
    m = estimator(scn["est"])
    m.fit(X, y)
    Q = np.vstack([rng.rand(6, 2), X[:3]])
    ev = []
    for f, fn in (("EI", A.gaussian_ei), ("PI", A.gaussian_pi), ("LCB", A.gaussian_lcb)):
        kw = {"kappa": 1.5} if f == "LCB" else {"y_opt": float(y.min()), "xi": 0.05}
        r5 = lambda v: scale(np.round(v, 5), 10 ** 5)
        ev.append({"op": "real", "f": f, "together": [r5(v) for v in fn(Q, m, **kw)],
                   "alone": [r5(fn(Q[i:i + 1], m, **kw)[0]) for i in range(len(Q))]})
    return {"cfg": {"chains": 1}, "ev": ev}


class Rows:
    def __init__(self, mu, sd):
        self.mu, self.sd = np.array(mu, dtype=float), np.array(sd, dtype=float)

    def predict(self, X, return_std=False):
        i = np.asarray(X)[:, 0].astype(int)
        return self.mu[i], self.sd[i]


def tails(scn):
    """Unlikely improvements, next to each other and to certain points."""
    import skopt.acquisition as A
    rng = random.Random("tails/%s" % scn["seed"])
    ev = []
    for _ in range(20):
        m = [rng.choice([rng.randint(-3, 30), rng.randint(0, 8)]) for _ in range(rng.randint(2, 8))]
        nc = rng.choice([0, 0, 1, 2])
        y, xi, sd = rng.choice([0.0, -3.0, 250.0]), rng.choice([0.0, 0.5]), rng.choice([1.0, 0.25, 16.0])
        rows = [(y - xi + sd * v, sd) for v in m] + [(y + rng.randint(-1, 3), 0.0) for _ in range(nc)]
        f = rng.choice(["EI", "PI"])
        at = list(range(len(rows)))
        rng.shuffle(at)
        fn = {"EI": A.gaussian_ei, "PI": A.gaussian_pi}[f]
        got = np.empty(len(rows))
        got[at] = np.ravel(fn(np.array(at)[:, None], Rows(*zip(*rows)), y_opt=y, xi=xi))
        v = got[:len(m)]
        ev.append({"op": "tail", "f": f, "m": m, "ranks": [int(k) for k in np.unique(v, return_inverse=True)[1]],
                   "pos": [bool(x > 0) for x in v], "certain": [scale(x) for x in got[len(m):]]})
    return {"cfg": {"chains": 1}, "ev": ev}


# ------------------------------------------------- suggestions (A02, O08)
class Fits:
    """The trainings since the last look, value and time models joined."""
    def __init__(self, ps):
        self.ps, self.at = ps, 0

    def new(self):
        log = stubs.LOG[self.at:]
        self.at = len(stubs.LOG)
        if not self.ps:
            return [(f, None) for f in log]
        a = [f for f in log if not f["fit"].time_]
        b = [f for f in log if f["fit"].time_]
        return list(zip(a, b))


def key(r):
    return tuple(np.round(r, 7))


def fit_event(pair, prev, space, x, o, fresh=False):
    f, t = pair
    rows, seen = [], {}
    for r in f["rows"]:
        if key(r) not in seen:
            seen[key(r)] = len(rows) + 1
            rows.append(r)
    R = np.array(rows) if rows else np.zeros((0, 1))
    m = f["fit"]
    cols = [m.mu4(R), m.sd(R)] if rows else [[], []]
    if t is not None and rows:
        cols += [t["fit"].mu4(R) // 4, t["fit"].sd(R)]
    e = {"op": "fit", "o": o, "fresh": fresh, "starts": len(f.get("starts", ())), "y4": int(round(4 * min(f["y"]))), "count": len(rows),
         "rows": [[int(v) for v in c] for c in zip(*cols)], "pm": [], "sugg": -1}
    if prev is not None:
        e["pm"] = [int(v) for v in m.mu4(np.array(prev))]
    if x is not None:
        q = np.asarray(space.transform([x]), dtype=float)[0]
        d = np.max(np.abs(R - q), axis=1) if rows else np.array([])
        e["sugg"] = int(np.argmin(d)) + 1 if len(d) and d.min() < 1e-6 * max(1, np.abs(q).max()) else 0
    return e, rows


def suggest(scn):
    """A history of an optimizer with recording surrogates."""
    from skopt import Optimizer
    rng = random.Random("suggest/%s" % scn["seed"])
    stubs.LOG.clear()
    ps = scn["acq"].endswith("ps")
    fits = Fits(ps)
    akw = {"xi": scn["xi4"] / 4.0, "kappa": "inf" if scn["k4"] == INF else scn["k4"] / 4.0}
    if scn["eta"] is not None:
        akw["eta"] = scn["eta"]
    est = (stubs.FlatStub if scn["how"] == "lbfgs" else stubs.AcqStub)(salt=scn["salt"], zero=scn["zero"])
    opts = [Optimizer(copy.deepcopy(SPACES[scn["space"]]), est, n_initial_points=scn["ninit"],
                      acq_func=scn["acq"], acq_optimizer=scn["how"], random_state=scn["rs"],
                      model_queue_size=scn["q"] or None,
                      acq_func_kwargs=akw, acq_optimizer_kwargs={"n_points": scn["npts"],
                                            "n_restarts_optimizer": scn["restarts"]})]
    prev, n = [None], [0]
    ev = []
    # in the range of promising means: few ties for the hedging
    lo, hi = (-33, -26) if scn["acq"] == "gp_hedge" else (-32, 32)
    val = lambda: (rng.randint(lo, hi) / 4.0, rng.choice([0.7, 1.3])) if ps else rng.randint(lo, hi) / 4.0
    space = opts[0].space
    for _ in range(scn["steps"]):
        o = rng.randrange(len(opts))
        opt = opts[o]
        k = rng.choice(["tell", "tell", "tell", "tells", "batch", "copy", "own"] +
                       ["copy", "tell"] * (2 if scn.get("copies") else 0))
        if k == "copy" and len(opts) > 2:
            k = "tell"
        if k in ("tell", "own", "tells"):
            if k == "tells":
                xs = space.rvs(rng.randint(1, 3), random_state=rng.randrange(10 ** 6))
                opt.tell(xs, [val() for _ in xs])
                n[o] += len(xs)
            else:
                x = opt.ask() if k == "tell" else space.rvs(1, random_state=rng.randrange(10 ** 6))[0]
                opt.tell(x, val())
                n[o] += 1
        elif k == "copy":
            fits.new()
            opts.append(opt.copy(random_state=rng.randrange(1000)))
            prev.append(None)
            n.append(n[o])
            ev.append({"op": "copy", "o": o + 1, "to": len(opts)})
            o = len(opts) - 1
            opt = opts[o]
        elif k == "batch":
            if n[o] >= scn["ninit"]:
                fits.new()
                xs = opt.ask(n_points=rng.randint(1, 3), strategy=rng.choice(["cl_min", "cl_mean", "cl_max"]))
                for f in fits.new():
                    i = len(f[0]["y"]) - n[o]
                    # a lie can be off the grid of the values
                    if i < len(xs) and all(abs(4 * v - round(4 * v)) < 1e-9 for v in f[0]["y"]):
                        e, _ = fit_event(f, None, space, xs[i], 3)
                        e["o"], e["fresh"] = scn["chains"], True
                        if scn["acq"] != "gp_hedge" or scn["eta"] is None or scn["eta"] <= 100:
                            ev.append(e)
            continue
        new = fits.new()
        if new and n[o] >= scn["ninit"]:
            e, rows = fit_event(new[-1], prev[o], space, opt.ask(), o + 1, fresh=(k == "copy"))
            ev.append(e)
            prev[o] = rows
    return {"cfg": {"acq": scn["acq"], "xi4": scn["xi4"], "k4": scn["k4"], "npts": scn["npts"],
                    "eta": int(scn["eta"]) if scn["eta"] is not None else 1, "chains": scn["chains"],
                    "refined": min(scn["restarts"], scn["npts"]) if scn["how"] == "lbfgs" else 0}, "ev": ev}


def shares(scn):
    """Several hedging optimizers with the same eta."""
    from skopt import Optimizer
    rng = random.Random("shares/%s" % scn["seed"])
    stubs.LOG.clear()
    fits, ev = Fits(False), []
    for o in range(1, 61):
        akw = {} if scn["eta"] is None else {"eta": scn["eta"]}
        akw.update(xi=scn["xi4"] / 4.0, kappa=scn["k4"] / 4.0)
        opt = Optimizer(copy.deepcopy(SPACES["real2"]), stubs.AcqStub(salt=rng.randrange(200)), n_initial_points=1,
                        acq_func="gp_hedge", acq_optimizer="sampling", random_state=rng.randrange(10 ** 6),
                        acq_func_kwargs=akw, acq_optimizer_kwargs={"n_points": 60})
        prev = None
        for _ in range(12):
            opt.tell(opt.space.rvs(1, random_state=rng.randrange(10 ** 6))[0], rng.randint(-33, -26) / 4.0)
            e, prev = fit_event(fits.new()[-1], prev, opt.space, opt.ask(), o)
            ev.append(e)
    ev.append({"op": "shares"})
    return {"cfg": {"acq": "gp_hedge", "xi4": scn["xi4"], "k4": scn["k4"], "npts": 30, "refined": 0, "chains": 61,
                    "eta": 1 if scn["eta"] is None else int(scn["eta"])}, "ev": ev}


def minimise(scn):
    """Whole searches: every evaluated point against the candidates of the
    surrogate trained on everything before it."""
    import skopt
    rng = random.Random("minimise/%s" % scn["seed"])
    stubs.LOG.clear()
    ps = scn["acq"].endswith("ps")
    xs = []

    def f(x):
        xs.append(x)
        v = rng.randint(-32, 32) / 4.0
        return (v, rng.choice([0.7, 1.3])) if ps else v
    kw = {"n_calls": scn["ninit"] + scn["steps"], "n_initial_points": scn["ninit"], "acq_func": scn["acq"],
          "n_points": scn["npts"], "xi": scn["xi4"] / 4.0,
          "kappa": "inf" if scn["k4"] == INF else scn["k4"] / 4.0, "random_state": scn["rs"]}
    est = stubs.AcqStub(salt=scn["salt"], zero=scn["zero"])
    who, dims = scn["who"], copy.deepcopy(SPACES[scn["space"]])
    if who == "base":
        r = skopt.optimizer.base_minimize(f, dims, est, acq_optimizer="sampling", **kw)
    elif who == "gp":
        r = skopt.gp_minimize(f, dims, base_estimator=est, acq_optimizer=scn["how"], **kw)
    elif who == "forest":
        r = skopt.forest_minimize(f, dims, base_estimator=est, **kw)
    else:
        r = skopt.gbrt_minimize(f, dims, base_estimator=est, **kw)
    ev = []
    for pair in Fits(ps).new():
        i = len(pair[0]["y"])
        if i < len(xs):
            e, _ = fit_event(pair, None, r.space, xs[i], 1, fresh=True)
            ev.append(e)
    if len(ev) < scn["steps"]:
        ev.append({"op": "fit", "o": 1, "fresh": True, "y4": 0, "count": -1, "starts": 0, "rows": [[0, 1]], "pm": [], "sugg": -1})
    return {"cfg": {"acq": scn["acq"], "xi4": scn["xi4"], "k4": scn["k4"], "npts": scn["npts"], "eta": 1,
                    "chains": 1, "refined": 0}, "ev": ev}


def make_logging(cls):
    class Logging(cls):
        def predict(self, X, return_std=False, **kw):
            if return_std:
                stubs.LOG.append((self, np.array(X)))
            return super().predict(X, return_std=return_std, **kw)
    Logging.__name__ = cls.__name__
    return Logging


def choose(scn):
    """Real surrogates: the suggestion is the best candidate, or better when
    it is refined."""
    from skopt import Optimizer
    import skopt.acquisition as A
    rng = random.Random("choose/%s" % scn["seed"])
    e = estimator(scn["est"], rs=scn["rs"])
    e.__class__ = make_logging(type(e))
    akw = {"xi": scn["xi4"] / 4.0, "kappa": scn["k4"] / 4.0}
    opt = Optimizer(copy.deepcopy(SPACES[scn["space"]]), e, n_initial_points=3, acq_func=scn["acq"],
                    acq_optimizer=scn["how"], random_state=scn["rs"], acq_func_kwargs=akw,
                    acq_optimizer_kwargs={"n_points": scn["npts"], "n_restarts_optimizer": 3})
    ev, ys = [], []
    for i in range(scn["steps"]):
        x = opt.ask()
        y = round(sum(float(v) for v in x if not isinstance(v, str)) % 3 + rng.random(), 3) - 1.5
        ys.append(y)
        stubs.LOG.clear()
        opt.tell(x, y)
        if i < 2:
            continue
        X = [X for m, X in stubs.LOG if len(X) > 1]
        q = np.asarray(opt.space.transform([opt.ask()]), dtype=float)
        m = opt.models[-1]
        cost = lambda Z: A._gaussian_acquisition(Z, m, min(ys), scn["acq"], acq_func_kwargs=akw)
        if not X:
            continue
        c = cost(np.vstack(X))
        exact = scn["how"] == "sampling"
        span = float(np.max(c) - np.min(c)) or 1.0
        k = 10 ** 6 / span
        s = lambda v: int(round((float(v) - float(np.min(c))) * k))
        ev.append({"op": "choice", "exact": exact, "cost": s(cost(q)[0]), "cands": sorted(s(v) for v in c)[:5],
                   "tol": 300 if not exact else 100})
    return {"cfg": {"chains": 1}, "ev": ev}


def suggest_scns(ctx, n, acqs, minim=False):
    rng = ctx.rng("suggest", ",".join(acqs), minim)
    out = []
    for i in range(n):
        acq = rng.choice(acqs)
        s = {"seed": "%d/%d" % (ctx.seed, i), "acq": acq, "space": rng.choice(list(SPACES)),
             "xi4": rng.choice([0, 1, 4, 12]), "k4": rng.choice([0, 2, 8, INF]), "npts": rng.choice([5, 12, 25, 40]),
             "eta": rng.choice([None, 1000, 1000, 1000]) if acq == "gp_hedge" else None, "salt": rng.randrange(200),
             "zero": rng.random() < .3, "ninit": rng.randint(1, 3), "rs": rng.randrange(1000),
             "how": "sampling", "restarts": 5, "q": rng.choice([0, 0, 1, 2]),
             "steps": rng.randint(5, 12), "chains": 5}
        if not minim and acq in ("EI", "PI", "LCB") and rng.random() < .3:
            s["how"], s["space"] = "lbfgs", rng.choice(REAL)
            s["restarts"] = rng.choice([1, 2, 7])
        if minim:
            s["who"] = rng.choice(["base", "gp", "forest", "gbrt"])
            s["steps"] = rng.randint(2, 5)
        out.append(s)
    return out


def choose_scns(ctx, n):
    rng = ctx.rng("choose")
    out = []
    for i in range(n):
        est = rng.choice(["GP", "GPd", "ET", "RF", "GBRT"])
        how = rng.choice(["lbfgs", "lbfgs", "sampling"]) if est.startswith("GP") else "sampling"
        out.append({"seed": "%d/%d" % (ctx.seed, i), "est": est, "how": how, "rs": rng.randrange(1000),
                    "acq": rng.choice(["EI", "PI", "LCB"]), "xi4": rng.choice([0, 0, 1]), "k4": rng.choice([1, 8]),
                    "space": rng.choice(REAL if how == "lbfgs" else ("real2", "log", "mixed", "big")),
                    "npts": rng.choice([30, 60]), "steps": rng.randint(4, 7)})
        if est.startswith("GP") and out[-1]["space"] in ("mixed", "big") or \
                (est == "GP" and out[-1]["space"] == "real1"):
            out[-1]["space"] = rng.choice(["real2", "log"])
    return out


def run(ctx):
    pid = ctx.pid
    if pid != "O07":
        core.model(ctx, "MCAcquisition", constants={"MuMax": ctx.n(16, 60)})
        core.model(ctx, "MCHedge", constants={"Rounds": ctx.n(4, 5)})
    if pid == "A01":
        core.traces(ctx, "values", "TraceAcq", values,
                    [{"seed": "%d/%d" % (ctx.seed, i), "calls": 40} for i in range(ctx.n(60, 2000))],
                    ["EIValue", "PIValue", "LCBValue", "EIGradient", "PIGradient", "LCBGradient",
                     "PerSecondValue", "PerSecondGradient"])
        core.traces(ctx, "tails", "TraceAcq", tails,
                    [{"seed": "%d/%d" % (ctx.seed, i)} for i in range(ctx.n(60, 2000))],
                    ["UnlikelyOrdered", "UnlikelyPossible", "CertainHasNone"])
        core.traces(ctx, "real", "TraceAcq", realvals,
                    [{"rs": ctx.seed * 1000 + i, "est": e} for i in range(ctx.n(3, 60))
                     for e in ("GP", "GPd", "ET", "RF", "GBRT")], ["RowsIndependent", "Range"])
    elif pid == "O07":
        core.traces(ctx, "copies", "TraceAcq", suggest,
                    [dict(s, copies=True) for s in suggest_scns(ctx, ctx.n(120, 2500), ["EI", "PI", "LCB", "gp_hedge"])],
                    ["CopySuggestionIsOptimal", "CopyCandidateCount", "CopyRefinements", "CopyLargestGainWins"])
    elif pid == "A02":
        acqs = ["EI", "PI", "LCB", "gp_hedge", "EIps", "PIps"]
        core.traces(ctx, "suggest", "TraceAcq", suggest, suggest_scns(ctx, ctx.n(200, 5000), acqs),
                    ["SuggestionIsOptimal", "SuggestionIsCandidate", "CandidateCount"])
        core.traces(ctx, "minimise", "TraceAcq", minimise, suggest_scns(ctx, ctx.n(100, 2500), acqs, True),
                    ["SuggestionIsOptimal"])
        core.traces(ctx, "choose", "TraceAcq", choose, choose_scns(ctx, ctx.n(60, 1500)),
                    ["BestCandidateTaken", "RefinedFromCandidates"])
    else:
        core.traces(ctx, "shares", "TraceAcq", shares,
                    [{"seed": "%d/%d" % (ctx.seed, i), "eta": (0, None, 1, 0.0)[i % 4], "xi4": 8, "k4": 0} for i in range(ctx.n(8, 40))],
                    ["AlikeWithoutEta", "AheadMoreOften"])
        core.traces(ctx, "hedge", "TraceAcq", suggest, suggest_scns(ctx, ctx.n(250, 6000), ["gp_hedge"]),
                    ["LargestGainWins", "SuggestionIsProposal"])
