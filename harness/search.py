"""Cross-validated searches (B01, B02) with an estimator that records how it
is fitted and scores by its parameters."""
import random
import warnings

import numpy as np
from sklearn.base import BaseEstimator

import core
import stubs
from enc import py, scale


class Boom(Exception):
    pass


LOG = {"fits": [], "salt": 0, "vals": [0], "fail": None, "passed": [], "big": 0}
NAMES = ["a", "b", "c", "d", "e", "B", "a10", "a2", "f", "Z", "g", "a1", "u", "b_c"]
FULL = 12


def key(params):
    return repr(sorted((k, py(v)) for k, v in params.items() if v is not None))


class Judge(BaseEstimator):
    """Scores are whole multiples of 6, from the parameters and the split."""
    def __init__(self, a=None, b=None, c=None, d=None, e=None, B=None, a10=None, a2=None,
                 f=None, Z=None, g=None, a1=None, u=None, b_c=None):
        self.a, self.b, self.c, self.d = a, b, c, d
        self.e, self.B, self.a10, self.a2 = e, B, a10, a2
        self.f, self.Z, self.g, self.a1, self.u, self.b_c = f, Z, g, a1, u, b_c

    def fit(self, X, y=None, weight=None):
        k = key(self.get_params())
        f = 0 if len(X) == FULL else int(np.asarray(X)[0, 0])
        LOG["fits"].append((k, len(X) == FULL, f))
        LOG["passed"].append(weight)
        if LOG["fail"] is not None and len(X) != FULL and hashed(k + "!") % 5 == 0 and f == LOG["fail"]:
            raise Boom("fit")
        self.k_, self.f_ = k, f
        return self

    def score(self, X, y=None):
        return float(score(self.k_, self.f_))


def hashed(s):
    h = LOG["salt"]
    for ch in s:
        h = (h * 131 + ord(ch)) % 1000003
    return h


def score(k, f):
    return 6 * LOG["vals"][hashed(k) % len(LOG["vals"])] + 6 * (hashed(k + str(f)) % 3)


def space(rng, i):
    """Disjoint ranges, so that swapped values are noticed."""
    from skopt.space import Real, Integer, Categorical
    names = rng.sample(NAMES, rng.randint(1, 4) if rng.random() < .85 else rng.randint(5, len(NAMES)))
    out, dom = {}, {}
    for n in names:
        j = NAMES.index(n)
        k = rng.choice(["real", "int", "cat", "log", "treal", "tint", "list", "tlog", "bool", "num"])
        lo = 100 * (j + 1) + 10 * i
        nm = rng.choice([None, None, n])
        if k == "bool" and i:
            k = "cat"
        if k == "real":
            v, dom[n] = Real(lo, lo + 1.5, name=nm), (float, lo, lo + 1.5)
        elif k == "treal":
            v, dom[n] = (float(lo), lo + 1.5), (float, lo, lo + 1.5)
        elif k == "log":
            v, dom[n] = Real(lo, lo + 6.0, prior="log-uniform", name=nm), (float, lo, lo + 6)
        elif k == "tlog":
            v, dom[n] = (float(lo), lo + 6.0, "log-uniform"), (float, lo, lo + 6)
        elif k == "int":
            v, dom[n] = Integer(lo, lo + 4, name=nm), (int, lo, lo + 4)
        elif k == "tint":
            v, dom[n] = (lo, lo + 4), (int, lo, lo + 4)
        elif k == "cat":
            c = ["%s%d%s" % (n, i, x) for x in "xyz"]
            v, dom[n] = Categorical(c, name=nm), c
        elif k == "list":
            c = ["%s%d%s" % (n, i, x) for x in "pq"]
            v, dom[n] = c, c
        elif k == "bool":
            v, dom[n] = Categorical([True, False], name=nm), [True, False]
        else:
            c = [lo + .25, lo + .5, lo + .75]
            v, dom[n] = Categorical(c), c
        out[n] = v
    return out, dom


def inside(params, dom):
    if set(params) != set(dom):
        return False
    for k, v in params.items():
        d = dom[k]
        if isinstance(d, list):
            if not any(type(v) is type(c) and v == c for c in d):
                return False
        elif type(v) is not d[0] or not d[1] - 1e-9 <= v <= d[2] + 1e-9:
            return False
    return True


def look(v):
    if isinstance(v, dict):
        return [[k, look(u)] for k, u in v.items()]
    if isinstance(v, (list, tuple)):
        return [type(v).__name__] + [look(u) for u in v]
    return [repr(v), getattr(v, "name", None), getattr(v, "transform_", None)]


class Session:
    def __init__(self, scn):
        self.scn = scn
        self.rng = random.Random("search/%s" % scn["seed"])
        self.ids, self.ev = {}, []
        self.spaces = [space(self.rng, i) for i in range(len(scn["iters"]))]
        self.mark = 0

    def id(self, params):
        return self.ids.setdefault(key(params), len(self.ids) + 1)

    def fits(self):
        new = LOG["fits"][self.mark:]
        self.mark = len(LOG["fits"])
        return [self.ids.setdefault(k, len(self.ids) + 1) for k, full, f in new if not full]

    def scores(self):
        s = self.scn
        out = []
        firsts = self.firsts
        for k, i in self.ids.items():
            v = [int(s["escore"]) if LOG["fail"] == f and hashed(k + "!") % 5 == 0 else score(k, f) for f in firsts]
            out.append([i, v])
        return out

    def callback(self, i):
        def cb(res):
            sp = self.at()
            names = sorted(self.spaces[sp][0])
            ps = [dict(zip(names, x)) for x in res.x_iters]
            n = self.calls[i]
            self.calls[i] += 1
            ans = self.scn["ans"][i]
            r = {"none": None, "false": False, "go": False, "true": True, "stop": True,
                 "np": np.bool_(True)}[ans[n % len(ans)]]
            self.ev.append({"op": "cb", "i": i + 1, "fits": self.fits(), "xs": [self.id(p) for p in ps],
                            "ys": [scale(v, 1) for v in res.func_vals], "scores": self.scores(),
                            "ok": all(inside(p, self.spaces[sp][1]) for p in ps),
                            "best": self.id(dict(zip(names, res.x))), "fun": scale(res.fun, 1),
                            "ret": bool(r)})
            self.last = res
            return r
        return cb

    def at(self):
        """Subspace of the candidates evaluated last, by their parameters."""
        fits = [k for k, full, f in LOG["fits"] if not full]
        k = fits[-1]
        for i, (s, dom) in enumerate(self.spaces):
            if self.owner.get(k) == i:
                return i
        for i, (s, dom) in enumerate(self.spaces):
            names = {n for n, v in eval(k, {"inf": np.inf, "nan": np.nan})}
            if names == set(s) and all(self.within(v, dom[n]) for n, v in
                                       eval(k, {"inf": np.inf, "nan": np.nan})):
                self.owner[k] = i
                return i
        return 0

    @staticmethod
    def within(v, d):
        if isinstance(d, list):
            return v in d
        return not isinstance(v, (str, bool)) and d[1] - 1e-9 <= v <= d[2] + 1e-9

    def go(self):
        from skopt import BayesSearchCV
        from sklearn.model_selection import KFold
        s = self.scn
        rng = self.rng
        LOG.update(fits=[], passed=[], salt=rng.randrange(1000), vals=rng.choice([[0, 1], [-2, 0, 3, 5], [7]]),
                   fail=None)
        self.owner = {}
        X = np.arange(FULL, dtype=float).reshape(-1, 1) + 1
        y = np.zeros(FULL)
        cv = KFold(s["splits"])
        self.firsts = [int(X[tr[0], 0]) for tr, te in cv.split(X)]
        if s["fail"]:
            LOG["fail"] = self.firsts[s["fail"] % len(self.firsts)]
        args = []
        for (d, dom), n in zip(self.spaces, s["iters"]):
            args.append((d, n) if s["tuples"] else d)
        arg = args[0] if len(args) == 1 and not s["tuples"] and s["single"] else args
        kw = {"base_estimator": {"stub": stubs.Stub(salt=3), "dummy": "dummy", "et": "ET", "gp": "GP"}[s["who"]],
              "n_initial_points": s["ninit"], "acq_optimizer": "sampling",
              "acq_optimizer_kwargs": {"n_points": 40}}
        est = Judge()
        cbs = [self.callback(i) for i in range(len(s["ans"]))]
        w = s["weight"]
        more = {"fit_params": {"weight": 3}} if w in ("init", "both") else {}
        opt = BayesSearchCV(est, arg, n_iter=s["iters"][0] if not s["tuples"] else 99, n_points=s["npts"],
                            cv=cv if s["cvobj"] else s["splits"], refit=s["refit"], optimizer_kwargs=kw,
                            random_state=s["rs"], error_score=float(s["escore"]) if s["escore"] != "raise" else "raise",
                            return_train_score=s["train"], **more)
        call = {"weight": 5} if w in ("call", "both") else {}
        expect = {"": None, "init": 3, "call": 5, "both": 5}[w]
        own = lambda: [look(arg), look(kw), repr(est), look(more)]
        before = own()
        for leg in range(s["legs"]):
            self.calls = [0] * len(cbs)
            LOG["fits"].clear()
            LOG["passed"].clear()
            self.mark = 0
            total = opt.total_iterations
            cb = cbs[0] if len(cbs) == 1 and s["single"] else (cbs or None)
            try:
                r = opt.fit(X, y, callback=cb, **call)
            except Boom:
                self.ev.append({"op": "raised", "boom": True})
                continue
            fits = self.fits()
            res = opt.cv_results_
            rows = [dict(p) for p in res["params"]]
            which = [k for k, o in enumerate(opt.optimizer_results_) for _ in o.x_iters]
            e = {"op": "end", "total": total, "rows": [self.id(p) for p in rows], "fits": fits,
                 "ok": len(which) == len(rows) and all(inside(p, self.spaces[k][1]) for p, k in zip(rows, which))
                 and all(len(res["param_" + n]) == len(rows) for p in rows for n in p)
                 and all(py(res["param_" + n][i]) == p[n] for i, p in enumerate(rows) for n in p)
                 and r is opt,
                 "means": [scale(v, 1) for v in res["mean_test_score"]], "rank": [int(v) for v in res["rank_test_score"]],
                 "trank": [int(v) for v in res["rank_train_score" if s["train"] else "rank_test_score"]],
                 "opt": [{"xs": [self.id(dict(zip(sorted(self.spaces[k][0]), x))) for x in o.x_iters],
                          "ys": [scale(v, 1) for v in o.func_vals]} for k, o in enumerate(opt.optimizer_results_)],
                 "bi": int(opt.best_index_) + 1, "bp": self.id(opt.best_params_), "bs": scale(opt.best_score_, 1),
                 "refits": [self.ids.get(k, 0) for k, full, f in LOG["fits"] if full],
                 "same": own() == before, "passed": all(p == expect for p in LOG["passed"])}
            if s["refit"]:
                e["refits"] = e["refits"] if key(opt.best_estimator_.get_params()) == key(opt.best_params_) else [0]
            e["scores"] = self.scores()
            self.ev.append(e)
        return {"cfg": {"iters": s["iters"], "npts": s["npts"], "ncb": len(cbs), "splits": s["splits"],
                        "refit": s["refit"], "raises": bool(s["fail"]) and s["escore"] == "raise",
                        "again": not isinstance(s["rs"], str)}, "ev": self.ev}


def drive(scn):
    warnings.simplefilter("ignore")
    return Session(scn).go()


def scns(ctx, num):
    beh = core.enumerate_states(ctx, "MCSearch", "MCSearch_gen.cfg")
    rng = ctx.rng("search")
    rng.shuffle(beh)
    out = []
    for i in range(num):
        b = beh[i % len(beh)]
        c = dict(b["c"])
        ans = [e for e in b["env"] if e in ("none", "stop")]
        if rng.random() < .5:
            c["iters"] = [rng.randint(1, 7) for _ in range(rng.choice([1, 1, 2, 3]))]
            c["npts"] = rng.choice([1, 1, 2, 3, 5, 9])
            c["ncb"] = rng.choice([0, 1, 1, 2, 3])
            ans = [rng.choice(["none", "false", "none", "none", "false", "true", "np"]) for _ in range(12)]
        n = c["ncb"]
        tuples = rng.random() < .4
        if not tuples:
            c["iters"] = [c["iters"][0]] * len(c["iters"])
        fail = rng.random() < .25
        out.append({"seed": "%d/%d" % (ctx.seed, i), "iters": c["iters"], "npts": c["npts"],
                    "ans": [(ans[k::n] or ["none"]) for k in range(n)], "tuples": tuples,
                    "single": rng.random() < .5, "who": rng.choice(["stub", "stub", "stub", "dummy", "et", "gp"])
                    if i % 4 == 0 else rng.choice(["stub", "dummy"]),
                    "ninit": rng.choice([1, 2, 3]), "splits": rng.choice([2, 2, 3]), "cvobj": rng.random() < .4,
                    "refit": rng.random() < .6, "rs": rng.randrange(100), "fail": fail * rng.randint(1, 3),
                    "escore": rng.choice(["raise", -60, 12]) if fail else rng.choice(["raise", -60]),
                    "train": rng.random() < .2, "weight": rng.choice(["", "", "init", "call", "both"]),
                    "legs": rng.choice([1, 1, 2])})
    return out


EXPECT = {"B01": ["CallbackInOrder", "BatchSize", "EachCandidateOncePerSplit", "ResultSoFar", "BudgetUsed",
                  "TotalIterations", "RowsAreTheEvaluations", "ResultPerSubspace", "FitAgainIsTheSame",
                  "ErrorsOfTheEstimatorSurface"],
          "B02": ["NegatedMeanScores", "CandidatesFromTheirSpace", "BestSoFar", "MeanScores", "Ranks",
                  "BestCandidate", "RefitWithTheBest", "CallerUnchanged", "FitParametersPassed"]}


def run(ctx):
    core.model(ctx, "MCSearch", constants={"MaxIter": ctx.n(3, 4), "MaxSpaces": ctx.n(2, 3)})
    core.traces(ctx, "search", "TraceSearch", drive, scns(ctx, ctx.n(350, 6000)), EXPECT[ctx.pid])
