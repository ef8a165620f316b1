"""Minimisers: runs of base_minimize and its wrappers with recording
objectives and callbacks (M01-M04, C01, D02, S06)."""
import copy
import os
import random
import tempfile

import numpy as np

import core
import stubs
from enc import Interner, errname, scale

SPACES = {
    "mixed": [(0.0, 10.0), (1, 6), ["a", "b", "c"]],
    "ints": [(0, 9), (-3, 3)],
    "disc": [(0, 4), ["x", "y", "z"]],
    "real": [(-5.0, 5.0)],
    "log": [(1e-3, 10.0, "log-uniform"), (1, 100)],
}
DISCRETE = ("ints", "disc")


class Boom(Exception):
    pass


class BaseBoom(BaseException):
    pass


def points(name, n, rng):
    out = []
    for _ in range(n):
        p = []
        for d in SPACES[name]:
            if isinstance(d[0], str):
                p.append(rng.choice(d))
            elif isinstance(d[0], float):
                p.append(rng.choice([d[0], d[1], d[0] + (d[1] - d[0]) * rng.random()]))
            else:
                p.append(rng.randint(d[0], d[1]))
        out.append(p)
    return out


def distance(name, a, b):
    return sum((1 if u != v else 0) if isinstance(d[0], str) else abs(u - v)
               for d, u, v in zip(SPACES[name], a, b))


class Callback:
    """A callable that can be stored along with a result."""
    def __init__(self, fn):
        self.fn = fn

    def __call__(self, res):
        return self.fn(res)

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        return (str, ("callback",))


CALLERS = ("base", "gp", "gpstub", "forest", "foreststub", "gbrt", "gbrtstub", "dummy")


class Run:
    def __init__(self, scn):
        self.scn = scn
        self.rng = random.Random("minimize/%s" % scn["seed"])
        self.I = Interner()
        self.ev = []
        self.path = None

    # ------------------------------------------------------------ the clock
    def tick(self, dt):
        self.now += dt

    def objective(self, x):
        scn = self.scn
        self.ncall += 1
        if self.ncall == self.crash:
            self.ev.append({"op": "crash"})
            raise self.boom("objective failed")
        y = self.rng.choice(scn["vals"])
        dt = self.rng.randint(1, 4)
        self.tick(dt)
        self.ev.append({"op": "call", "x": self.I(x), "y": scale(y),
                        "inside": len(x) == len(SPACES[scn["space"]])})
        return (y, 2.0 ** self.rng.randint(-3, 3)) if self.ps else y

    def file(self):
        from skopt import load
        if not self.path or not os.path.exists(self.path):
            return {"xs": [], "ys": [], "ok": True, "func": False}
        try:
            r = load(self.path)
            return {"xs": self.I.many(r.x_iters), "ys": [scale(v) for v in r.func_vals], "ok": True,
                    "func": "func" in r.specs["args"]}
        except Exception:
            return {"xs": [], "ys": [], "ok": False, "func": False}

    def snapshot(self, r):
        if r is None:
            return {"xs": [], "ys": [], "x": 0, "fun": 0, "nm": 0}
        return {"xs": self.I.many(r.x_iters), "ys": [scale(v) for v in r.func_vals],
                "x": self.I(r.x), "fun": scale(r.fun), "nm": len(r.models)}

    def callback(self, i, spec, inner):
        decisions = spec.get("ans")

        def cb(res):
            self.round[i] = self.round.get(i, 0) + 1
            if inner is not None:
                ret = inner(res)
            else:
                ret = decisions[(self.round[i] - 1) % len(decisions)]
                ret = {"true": True, "false": False, "none": None, "np": np.bool_(True)}[ret]
            e = {"op": "cb", "i": i, "ret": bool(ret) if ret is not None else False}
            e.update(self.snapshot(res))
            e["file"] = self.file()
            e["times"] = self.times(i)
            e["timer"] = [int(round(t)) for t in inner.iter_time] if spec["k"] == "timer" else []
            e["dist"] = scale(distance(self.scn["space"], res.x_iters[-2], res.x_iters[-1])) \
                if len(res.x_iters) > 1 else -1
            self.ev.append(e)
            return ret
        return Callback(cb)

    def times(self, i):
        """Time between two calls of callback i, measured by our own clock."""
        last, out = self.marks.setdefault(i, [self.began, []])
        out.append(self.now - last)
        self.marks[i][0] = self.now
        return list(out)

    def callbacks(self, cbs):
        from skopt import callbacks as C
        out = []
        for i, s in enumerate(cbs, 1):
            inner = None
            if s["k"] == "save":
                inner = C.CheckpointSaver(self.path, **s.get("opts", {}))
            elif s["k"] == "deltax":
                inner = C.DeltaXStopper(s["a"])
            elif s["k"] == "deltay":
                inner = C.DeltaYStopper(s["a"], **({} if s["b"] == 5 else {"n_best": s["b"]}))
            elif s["k"] == "hollow":
                inner = C.HollowIterationsStopper(s["b"], s["a"])
            elif s["k"] == "deadline":
                inner = C.DeadlineStopper(s["a"])
            elif s["k"] == "threshold":
                inner = C.ThresholdStopper(s["a"])
            elif s["k"] == "timer":
                inner = C.TimerCallback()
            out.append(self.callback(i, s, inner))
        return out

    # ------------------------------------------------------------- one leg
    def leg(self, L, first):
        import skopt
        scn = self.scn
        self.ps = scn["acq"].endswith("ps")
        self.crash, self.ncall = L["crash"], 0
        self.boom = BaseBoom if L.get("base_exc") else Boom
        self.round, self.marks = {}, {}
        self.now = self.began = 1000
        core.Clock.now = lambda: self.now
        stubs.LOG.clear()
        x0 = copy.deepcopy(L["x0"])
        y0 = copy.deepcopy(L["y0"])
        given = y0 is not None
        if x0 is not None and len(x0) == 1 and L.get("flat"):
            x0 = x0[0]
            if given and L.get("scalar") and not self.ps:
                y0 = y0[0]
        if given and not self.ps and L.get("array") and isinstance(y0, list):
            y0 = np.array(y0)
        cbs = self.callbacks(L["cbs"])
        dims = copy.deepcopy(SPACES[scn["space"]])
        kw = {"n_calls": L["n"], "random_state": scn["rs"], "x0": x0, "y0": y0}
        if L["cbs"] or L.get("emptycb"):
            kw["callback"] = cbs[0] if len(cbs) == 1 and L.get("flat") else cbs
        if scn["q"]:
            kw["model_queue_size"] = scn["q"]
        if scn.get("verbose"):
            kw["verbose"] = True
        who = scn["who"]
        if scn["gen"]:
            kw["initial_point_generator"] = scn["gen"]
        if who != "dummy":
            kw["n_random_starts" if scn.get("nrs") else "n_initial_points"] = L["ninit"]
            kw["acq_func"] = scn["acq"]
            kw["n_points"] = 40
            if "xi" in scn:
                kw["xi"], kw["kappa"] = scn["xi"], scn["kappa"]
        if who == "base":
            kw["acq_optimizer"] = "sampling"
        if who.startswith("gp"):
            kw["acq_optimizer"] = "sampling" if who == "gpstub" else scn.get("acqopt", "auto")
            kw["n_restarts_optimizer"] = 1
        if who.endswith("stub"):
            kw["base_estimator"] = stubs.Stub(salt=3)
        if who == "forest":
            kw["base_estimator"] = scn.get("forest", "ET")
        args = [self.objective, dims] + ([stubs.Stub(salt=3)] if who == "base" else [])
        bad(L.get("bad", ""), args, kw)
        fn = {"base": skopt.optimizer.base_minimize, "gp": skopt.gp_minimize, "gpstub": skopt.gp_minimize,
              "forest": skopt.forest_minimize, "foreststub": skopt.forest_minimize,
              "gbrt": skopt.gbrt_minimize, "gbrtstub": skopt.gbrt_minimize,
              "dummy": skopt.dummy_minimize}[who]
        keep = {k: describe(v) for k, v in kw.items()}
        keepd = describe(args[1])
        n0 = 0 if x0 is None else len(L["x0"])
        ninit = L["ninit"]
        if who == "dummy":
            ninit = max(0, L["n"] - (0 if given else n0))
        c = {"nCalls": L["n"], "nInit": ninit, "x0": self.I.many(L["x0"] or []),
             "y0": [scale(v[0] if self.ps else v) for v in (L["y0"] or [])], "y0given": given,
             "nCb": len(L["cbs"]), "fits": who != "dummy", "q": scn["q"],
             "cbs": [{"k": s["k"], "a": scale(s["a"]) if s["k"] != "deadline" else s["a"], "b": s["b"],
                      "stores": s.get("opts", {}).get("store_objective", True)}
                     for s in L["cbs"]],
             "saver": next((i for i, s in enumerate(L["cbs"], 1) if s["k"] == "save"), 0),
             "bad": L.get("bad", ""), "resumed": not first}
        if first:
            self.cfg = c
        else:
            self.ev.append({"op": "resume", "c": c, "file": self.file()})
        self.result = None
        try:
            r = self.result = fn(*args, **kw)
            e = {"op": "end", "none": r is None}
            e.update(self.snapshot(r))
        except (Boom, BaseBoom):
            e = {"op": "raise", "err": "Boom", "mine": True}
        except Exception as ex:
            e = {"op": "raise", "err": errname(ex), "mine": False}
        e["same"] = keepd == describe(args[1]) and all(describe(kw[k]) == v for k, v in keep.items())
        e["file"] = self.file()
        self.ev.append(e)
        return c

    def replay(self):
        """The same search by hand: an ask/tell loop with the same seed."""
        from skopt import Optimizer
        scn, L = self.scn, self.scn["legs"][0]
        if scn["who"] in ("gp", "gbrt") or L["crash"] or L.get("bad") or \
                self.result is None:
            return
        ys = list(self.result.func_vals)
        xs = list(self.result.x_iters)
        ts = list(np.exp(self.result.log_time)) if self.ps else None
        val = (lambda i: (ys[i], ts[i])) if self.ps else (lambda i: ys[i])
        n0 = len(L["x0"] or [])
        ninit = self.cfg["nInit"] + n0
        base = {"forest": scn.get("forest", "ET"), "dummy": "dummy"}.get(scn["who"], stubs.Stub(salt=3))
        dims = copy.deepcopy(SPACES[scn["space"]])
        if scn["who"] == "gpstub":
            from skopt.utils import normalize_dimensions
            dims = normalize_dimensions(dims)
        o = Optimizer(dims, base, n_initial_points=ninit,
                      acq_func_kwargs={k: scn[k] for k in ("xi", "kappa") if k in scn},
                      initial_point_generator=scn["gen"] or "random",
                      acq_func=scn["acq"] if scn["who"] != "dummy" else "EI",
                      acq_optimizer="sampling", random_state=scn["rs"],
                      acq_optimizer_kwargs={"n_points": 40} if scn["who"] != "dummy" else None)
        got = []
        e = {"op": "replay", "xs": [], "want": self.I.many(xs), "err": ""}
        try:
            if n0:
                o.tell(xs[:n0], [val(i) for i in range(n0)])
                got += xs[:n0]
            for i in range(n0, len(xs)):
                x = o.ask()
                got.append(x)
                o.tell(x, val(i))
            e["xs"] = self.I.many(got)
        except Exception as ex:
            e["err"] = errname(ex) + ": " + str(ex)[:200]
        self.ev.append(e)

    def go(self):
        fd, self.path = tempfile.mkstemp(suffix=self.scn.get("suffix", ".pkl"))
        os.close(fd)
        os.unlink(self.path)
        try:
            legs = self.scn["legs"]
            self.leg(legs[0], True)
            self.replay()
            if len(legs) > 1:
                from skopt import load
                f = self.file()
                if f["xs"] and f["ok"]:
                    r = load(self.path)
                    L = dict(legs[1], x0=r.x_iters, y0=list(r.func_vals))
                    if self.ps:
                        L["y0"] = [(a, float(np.exp(t))) for a, t in zip(r.func_vals, r.log_time)]
                    self.leg(L, False)
        finally:
            core.Clock.now = None
            if os.path.exists(self.path):
                os.unlink(self.path)
        return {"cfg": self.cfg, "ev": self.ev}


def describe(v):
    """What the caller can see of an argument."""
    from sklearn.base import BaseEstimator
    if isinstance(v, (list, tuple)):
        return [type(v).__name__] + [describe(u) for u in v]
    if isinstance(v, np.ndarray):
        return ["array", v.tolist()]
    if isinstance(v, BaseEstimator):
        return ["est", id(v), sorted((k, repr(u)) for k, u in vars(v).items())]
    if callable(v) or isinstance(v, np.random.RandomState):
        return ["obj", id(v)]
    return ["val", repr(v)]


def bad(kind, args, kw):
    """Turn a valid call into an invalid one."""
    nd = len(args[1])
    if kind == "xdim":
        kw["x0"] = [p + [1] for p in (kw["x0"] or [[1] * nd])]
        kw["y0"] = None
    elif kind == "xtuple":
        kw["x0"] = tuple(tuple(p) for p in (kw["x0"] or [[1] * nd]))
    elif kind == "ylen":
        kw["y0"] = list(kw["y0"]) + [1.0]
    elif kind == "yobj":
        kw["y0"] = object()
    elif kind == "xout":
        kw["x0"] = kw["x0"][:-1] + [[10 ** 6] * nd]
    elif kind == "callback":
        kw["callback"] = 3
    elif kind == "callbacks":
        kw["callback"] = [kw["callback"][0] if isinstance(kw.get("callback"), list) and kw["callback"]
                          else (lambda r: None), "no"]
    elif kind == "dims":
        args[1][0] = (5.0, 5.0)
    elif kind == "acq":
        kw["acq_func"] = "EIx"
    elif kind == "gen":
        kw["initial_point_generator"] = "sobl"
    elif kind == "estimator":
        if len(args) > 2:
            args[2] = "GPX"
        else:
            kw["base_estimator"] = "GPX"
    elif kind == "nonregressor":
        from sklearn.svm import SVC
        if len(args) > 2:
            args[2] = SVC()
        else:
            kw["base_estimator"] = SVC()
    elif kind == "acqopt":
        kw["acq_optimizer"] = "newton"
    elif kind == "lbfgs":
        kw["acq_optimizer"] = "lbfgs"


BAD = {"base": ["xdim", "xtuple", "ylen", "yobj", "xout", "callback", "callbacks", "dims", "acq", "gen",
                "estimator", "nonregressor", "acqopt"],
       "gp": ["xout", "xdim", "ylen", "yobj", "callback", "dims", "acq", "gen", "acqopt"],
       "forest": ["xout", "xdim", "xtuple", "ylen", "callback", "callbacks", "dims", "acq", "gen", "estimator"],
       "dummy": ["xout", "xtuple", "ylen", "yobj", "callback", "callbacks", "dims", "gen"]}
BAD["gpstub"] = BAD["gp"]
BAD["foreststub"] = BAD["forest"]
BAD["gbrt"] = BAD["gbrtstub"] = ["xout", "xdim", "ylen", "callback", "dims", "acq", "gen", "nonregressor"]


def drive(scn):
    try:
        return Run(scn).go()
    except BaseBoom:
        raise RuntimeError("stray exception")


def cb_spec(rng, kind, k=None):
    k = k or rng.choice(kind)
    s = {"k": k, "a": 0, "b": 0}
    if k == "plain":
        s["ans"] = [rng.choice(["none", "false", "none", "none"]) for _ in range(6)]
        if rng.random() < .3:
            s["ans"][rng.randrange(6)] = rng.choice(["true", "true", "np"])
    elif k == "deltax":
        s["a"] = rng.choice([1, 2, 3, 4, 0.5])
    elif k == "deltay":
        s["a"], s["b"] = rng.choice([1, 2, 3, 0.5]), rng.choice([2, 3, 4, 5, 1])
    elif k == "hollow":
        s["a"], s["b"] = rng.choice([0, 0, 1, 2, -1]), rng.choice([1, 2, 3, 4])
    elif k == "deadline":
        s["a"] = rng.choice([8, 12, 20, 30, 3])
    elif k == "threshold":
        s["a"] = rng.choice([-3, -2, -1, 0, 1.5])
    elif k == "save":
        s["opts"] = rng.choice([{}, {}, {"store_objective": False}, {"compress": 3}])
        if rng.random() < .6:
            s["opts"] = dict(s["opts"], store_objective=rng.random() < .3)
    return s


def random_scns(ctx, n, kinds, who, pbad=0.0, legs=.5, crash=.25, spaces=None):
    rng = ctx.rng("minimize", ",".join(kinds), str(pbad))
    out = []
    for i in range(n):
        w = rng.choice(who)
        ps = w in ("base", "foreststub", "gpstub") and rng.random() < .15
        acq = rng.choice(["EIps", "PIps"]) if ps else rng.choice(["EI", "LCB", "PI"] + (
            ["gp_hedge"] if w in ("gp", "base", "gpstub") else []))
        sp = rng.choice(spaces or list(SPACES))
        ninit = rng.choice([1, 2, 3, 3, 4])
        n0 = rng.choice([0, 0, 0, 1, 1, 2, 3])
        given = n0 > 0 and rng.random() < .5
        if "hollow" in kinds and rng.random() < .3:
            # criteria that first see a longer history
            n0, given = rng.choice([5, 7, 9, 12]), True
        if n0 and rng.random() < .25:
            ninit = 0
        need = ninit + (0 if given else n0)
        ncalls = need + rng.choice([0, 1, 2, 3, 5, 8])
        if rng.random() < .5:
            ncalls = need + rng.randint(3, 9)
        vals = rng.choice([[-3, -2, -1, 0, 1, 2, 3], [0, 1], [5, 4, 3, 2.5, 1], [-0.5, 0.25, 7]])
        if w in ("gp", "gbrt", "forest"):
            ncalls = min(ncalls, need + 3)
        if w in STUBS + ["dummy"] and rng.random() < .02:
            ncalls = need + rng.choice([55, 105])
        x0 = points(sp, n0, rng) if n0 else None
        y0 = None
        if given:
            y0 = [rng.choice(vals) for _ in range(n0)]
            if ps:
                y0 = [(v, 2.0 ** rng.randint(-2, 2)) for v in y0]
        cbs = [cb_spec(rng, kinds) for _ in range(rng.choice([0, 1, 1, 2, 3] if pbad else [1, 1, 2, 3, 5]))]
        L = {"n": ncalls, "ninit": ninit, "x0": x0, "y0": y0, "cbs": cbs, "flat": rng.random() < .5,
             "scalar": rng.random() < .5, "array": rng.random() < .3, "emptycb": rng.random() < .3,
             "crash": rng.randint(1, max(1, ncalls)) if rng.random() < crash else 0,
             "base_exc": rng.random() < .2}
        s = {"seed": "%d/%s/%d" % (ctx.seed, ",".join(kinds), i), "who": w, "space": sp, "acq": acq,
             "vals": vals, "gen": rng.choice(["", "", "lhs", "random", "sobol", "grid"]),
             "q": rng.choice([0, 0, 1, 2, 3]), "rs": rng.randrange(1000), "nrs": rng.random() < .2,
             "verbose": rng.random() < .15, "forest": rng.choice(["ET", "RF"]), "legs": [L],
             "acqopt": rng.choice(["auto", "sampling", "lbfgs"]), "suffix": rng.choice([".pkl", ".pkl", ".gz"])}
        if rng.random() < .5:
            s["xi"], s["kappa"] = rng.choice([0.0, 0.5, 2.0, 5.0]), rng.choice([0.0, 0.5, 4.0])
        if w == "dummy":
            s["gen"] = rng.choice(["", "", "lhs", "random"])
        if rng.random() < pbad:
            L["crash"] = 0
            k = rng.choice(BAD[w] + ["short", "short", "nothing"])
            if k == "short" and w != "dummy":
                L["n"] = rng.randint(0, max(0, need - 1))
                if L["n"] >= need:
                    continue
            elif k == "short":
                if n0 < 2 or given:
                    continue
                L["n"] = rng.randint(1, n0 - 1)
            elif k == "nothing":
                L["x0"] = L["y0"] = None
                L["ninit"] = 0
                if w == "dummy":
                    L["n"] = 0
            else:
                if k == "ylen" and (not given or ps):
                    continue
                if k in ("xdim", "xout", "xtuple", "yobj") and not n0:
                    continue
                if k == "xtuple" and L["flat"]:
                    continue
                if k in ("ylen", "xout", "xdim"):
                    L["flat"] = L["scalar"] = False
                L["bad"] = k
        elif "save" in kinds and rng.random() < legs:
            if not any(c["k"] == "save" for c in cbs):
                cbs.insert(rng.randint(0, len(cbs)), cb_spec(rng, kinds, "save"))
            more = rng.randint(1, 4)
            s["legs"].append({"n": more, "ninit": rng.choice([0, 0, 1]), "x0": None, "y0": None,
                              "cbs": [cb_spec(rng, ["plain"]), cb_spec(rng, kinds, "save")],
                              "flat": False, "crash": rng.choice([0, 0, 2])})
        out.append(s)
    return out


def spec_scns(ctx, num):
    """Behaviours of MCMinimize: configuration, answers and crashes."""
    beh = core.enumerate_states(ctx, "MCMinimize", "MCMinimize_gen.cfg")
    rng = ctx.rng("minimize-spec")
    rng.shuffle(beh)
    out = []
    for i, b in enumerate(beh[:num]):
        c, env = b["c"], b["env"]
        w = rng.choice(["base", "foreststub", "gpstub", "gbrtstub"])
        sp = rng.choice(list(SPACES))
        n0 = len(c["x0"])
        calls = [e for e in env if e not in ("record", "go", "stop")]
        ans = [e for e in env if e in ("go", "stop")]
        nb = c["nCb"]
        cbs = []
        for k in range(nb):
            a = [{"go": rng.choice(["none", "false"]), "stop": rng.choice(["true", "np"])}[x]
                 for x in ans[k::nb]] or ["none"]
            cbs.append({"k": "plain", "a": 0, "b": 0, "ans": a})
        if nb and rng.random() < .3:
            # some more who do not mind
            for _ in range(rng.randint(1, 4)):
                cbs.insert(rng.randint(0, len(cbs)), {"k": "plain", "a": 0, "b": 0, "ans": [rng.choice(["none", "false"])]})
        L = {"n": c["nCalls"], "ninit": c["nInit"], "x0": points(sp, n0, rng) if n0 else None,
             "y0": [1.0] * n0 if c["y0given"] else None, "cbs": cbs, "flat": rng.random() < .5,
             "crash": calls.index("crash") + 1 if "crash" in calls else 0}
        out.append({"seed": "%d/spec/%d" % (ctx.seed, i), "who": w, "space": sp, "acq": "LCB",
                    "vals": [1, 2], "gen": "", "q": 0, "rs": i, "legs": [L]})
    return out


EXPECT = {
    "M01": ["CallAllowed", "ProvidedFirst", "BudgetUsed", "ResultHistory", "SurrogateAfterInitial", "BestOfResult"],
    "M02": ["EveryCallback", "CallbackInOrder", "CallbackSeesHistory", "StopsWhenAsked", "ErrorsReachTheCaller"],
    "M03": ["RejectedBeforeEvaluation"],
    "M04": ["SameAsAskTell"],
    "C01": ["DeltaX", "DeltaY", "Hollow", "Deadline", "Threshold", "Timer"],
    "D02": ["CheckpointIsCurrent", "ObjectiveAsAsked", "CheckpointSurvives", "ResumeHasEverything"],
    "S06": ["ArgumentsUnchanged"],
}
STUBS = ["base", "base", "foreststub", "gpstub", "gbrtstub"]


def run(ctx):
    pid = ctx.pid
    core.model(ctx, "MCMinimize", constants={"MaxCalls": ctx.n(4, 5), "MaxCb": 2, "MaxX0": ctx.n(2, 3)})
    if pid in ("M01", "M02"):
        scns = spec_scns(ctx, ctx.n(500, 20000))
        scns += random_scns(ctx, ctx.n(200, 4000), ["plain", "plain", "save"],
                            STUBS + ["dummy", "gp", "forest", "gbrt"])
    elif pid == "M03":
        scns = random_scns(ctx, ctx.n(700, 6000), ["plain"], STUBS + ["dummy", "dummy", "gp", "forest", "gbrt"],
                           pbad=.8)
    elif pid == "M04":
        scns = random_scns(ctx, ctx.n(250, 4000), ["plain"], STUBS + ["dummy", "forest"], crash=0)
    elif pid == "C01":
        scns = random_scns(ctx, ctx.n(1500, 9000), ["deltax", "deltay", "hollow", "deadline", "threshold", "timer"],
                           STUBS + ["dummy"] * 3, crash=.05, spaces=DISCRETE)
    elif pid == "S06":
        scns = random_scns(ctx, ctx.n(300, 4000), ["plain"], STUBS + ["dummy", "gp", "forest", "gbrt"], pbad=.3)
        import caller
        caller.run(ctx)
    elif pid == "D02":
        scns = random_scns(ctx, ctx.n(350, 5000), ["plain", "save", "save"], STUBS + ["dummy", "forest"],
                           legs=.8, crash=.6)
    core.traces(ctx, "minimize", "TraceMinimize", drive, scns, EXPECT[pid])
