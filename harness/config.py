"""What an optimizer is built from (O10): every request of MCConfig."""
import copy
import random
import warnings

import numpy as np

import core
import stubs
from enc import errname

SPACES = {"real": [(-5.0, 5.0), (1, 60)], "mixed": [(0.0, 10.0), ["a", "b", "c"], (1, 9)],
          "mostly": [["x", "y", "z"], (0.5, 8.0), [True, False]], "cats": [["x", "y", "z"], ["u", "v"]]}
SPELL = {"upper": str.upper, "lower": str.lower, "mixed": lambda s: s[:1].upper() + s[1:].lower()}
GRADS = [0]


def instance(kind, rs):
    from sklearn.ensemble import GradientBoostingRegressor
    from skopt.learning import (ExtraTreesRegressor, GaussianProcessRegressor,
                                GradientBoostingQuantileRegressor, RandomForestRegressor)
    from skopt.learning.gaussian_process.kernels import ConstantKernel, HammingKernel, Matern
    if kind == "GP":
        return GaussianProcessRegressor(ConstantKernel(1.0) * Matern(nu=1.5), alpha=1e-4, random_state=rs)
    if kind == "GPH":
        return GaussianProcessRegressor(ConstantKernel(2.0) * HammingKernel(length_scale=[.7, .8]), alpha=1e-4,
                                        random_state=rs)
    if kind == "RF":
        return RandomForestRegressor(n_estimators=4, random_state=rs)
    if kind == "ET":
        return ExtraTreesRegressor(n_estimators=4, random_state=rs)
    if kind == "GBRT":
        return GradientBoostingQuantileRegressor(base_estimator=GradientBoostingRegressor(n_estimators=4, loss="quantile"),
                                                 random_state=rs)
    return stubs.Stub(salt=rs)


def junk(kind):
    from sklearn.ensemble import RandomForestClassifier
    from sklearn.ensemble import RandomForestRegressor
    return {"classifier": RandomForestClassifier(), "object": object(), "number": 3,
            "class": RandomForestRegressor, "list": ["lhs"]}[kind]


def named(m):
    """Which surrogate a trained model is."""
    from skopt.learning import (ExtraTreesRegressor, GaussianProcessRegressor,
                                GradientBoostingQuantileRegressor, RandomForestRegressor)
    from skopt.learning.gaussian_process.kernels import HammingKernel
    if isinstance(m, GaussianProcessRegressor):
        return "GPH" if any(isinstance(v, HammingKernel) for v in m.kernel.get_params().values()) else "GP"
    for c, n in ((RandomForestRegressor, "RF"), (ExtraTreesRegressor, "ET"),
                 (GradientBoostingQuantileRegressor, "GBRT"), (stubs.Stub, "STUB")):
        if isinstance(m, c):
            return n
    return type(m).__name__


def scales(m):
    for v in m.kernel.get_params().values():
        if hasattr(v, "length_scale"):
            return int(np.size(v.length_scale))
    return 0


def build(r, rs):
    from sklearn.multioutput import MultiOutputRegressor
    from skopt import Optimizer
    from skopt.learning import GaussianProcessRegressor
    from skopt.space import Space
    rng = random.Random("config/%s" % rs)
    own, extra = None, {}
    if r["form"] == "name":
        base = SPELL[r["style"]]({"BAD": "gpr"}.get(r["kind"], r["kind"]))
        extra["n_jobs"] = rng.choice([1, 2])
    elif r["form"] == "junk":
        base = junk(r["kind"])
    else:
        base = own = instance(r["kind"], rng.randrange(100))
        if r["form"] == "wrapped":
            base = MultiOutputRegressor(base)
    e = {"op": "build", "r": r, "err": "", "refined": False, "insp": True, "surrogate": "none", "outer": "one",
         "settings": True, "norm": False, "scales": 0, "width": 0}
    dims = copy.deepcopy(SPACES[r["space"]])
    try:
        opt = Optimizer(dims, base, n_initial_points=2, acq_func=r["acq"], acq_optimizer=r["how"], random_state=rs,
                        acq_optimizer_kwargs={"n_points": 20, "n_restarts_optimizer": 2}, **extra)
    except Exception as x:
        return dict(e, err=errname(x))
    GRADS[0] = 0
    orig = GaussianProcessRegressor.predict

    def predict(self, X, *a, **k):
        GRADS[0] += bool(k.get("return_mean_grad", len(a) > 2 and a[2]))
        return orig(self, X, *a, **k)
    GaussianProcessRegressor.predict = predict
    try:
        sp = Space(SPACES[r["space"]])
        for i in range(3):
            y = rng.randint(-9, 9) / 2.0
            opt.tell(sp.rvs(1, random_state=rs + i)[0], (y, 1.5) if r["acq"].endswith("ps") else y)
        x = opt.ask()
        e["insp"] = len(x) == len(dims) and x in sp
    finally:
        GaussianProcessRegressor.predict = orig
    e["refined"] = GRADS[0] > 0
    e["norm"] = all(t == "normalize" for t in opt.space.get_transformer())
    e["width"] = int(opt.space.transformed_n_dims)
    if opt.models:
        m = opt.models[-1]
        if isinstance(m, MultiOutputRegressor):
            e["outer"] = "several"
            m = m.estimators_[0]
        e["surrogate"] = named(m)
        if own is not None:
            a, b = own.get_params(deep=False), m.get_params(deep=False)
            e["settings"] = {k: repr(v) for k, v in a.items()} == {k: repr(v) for k, v in b.items()}
        else:
            e["settings"] = getattr(m, "n_jobs", extra["n_jobs"]) == extra["n_jobs"] and \
                m.get_params()["random_state"] is not None
        if e["surrogate"] in ("GP", "GPH"):
            e["scales"] = scales(m)
    return e


def design(g, rs):
    from skopt import Optimizer
    from skopt import sampler as S
    from skopt.utils import cook_initial_point_generator
    classes = {"SOBOL": S.Sobol, "HALTON": S.Halton, "HAMMERSLY": S.Hammersly, "LHS": S.Lhs, "GRID": S.Grid}
    if g["form"] == "name":
        given = SPELL[g["style"]]({"BAD": "uniform"}.get(g["kind"], g["kind"]))
    elif g["form"] == "junk":
        given = junk(g["kind"])
    else:
        given = classes[g["kind"]]()
    e = {"op": "design", "r": g, "err": "", "cls": "", "same": True}
    try:
        c = cook_initial_point_generator(given)
        Optimizer([(0.0, 1.0)], "dummy", initial_point_generator=given, acq_optimizer="sampling")
    except Exception as x:
        return dict(e, err=errname(x))
    e["cls"] = "RANDOM" if c is None else {v.__name__: k for k, v in classes.items()}.get(type(c).__name__, "?")
    if g["form"] == "instance" and c is not given:
        e["cls"] = "another"

    def points(gen):
        dims = copy.deepcopy(SPACES["real"])
        o = Optimizer(dims, "dummy", initial_point_generator=gen, n_initial_points=8, acq_optimizer="sampling",
                      random_state=rs)
        out = []
        for i in range(8):
            out.append([float(v) for v in o.ask()])
            o.tell(o.ask() if gen is not None and g["kind"] != "RANDOM" else [0.0, 3], 0.0)
        return out
    want = "random" if g["kind"] == "RANDOM" else classes[g["kind"]]()
    e["same"] = points(given) == points(want)
    return e


def count(k, rs):
    from skopt import Optimizer
    rng = random.Random("count/%s" % rs)
    kw = {}
    if k["dep"] != 99:
        kw["n_random_starts"] = k["dep"]
    e = {"op": "count", "r": k, "err": "", "first": 0, "kept": 0, "trained": 0}
    try:
        o = Optimizer([(0.0, 1.0)], stubs.Stub(salt=rs), n_initial_points=k["n"], acq_optimizer="sampling",
                      model_queue_size={"none": None, "two": 2, "float": 2.0}[k["q"]], random_state=rs,
                      acq_optimizer_kwargs={"n_points": 10}, **kw)
    except Exception as x:
        return dict(e, err=errname(x))
    stubs.LOG.clear()
    for i in range(10):
        o.tell([rng.random()], 1.0)
        n = sum(f[0] == "fit" for f in stubs.LOG)
        if n and not e["first"]:
            e["first"] = i + 1
    e["kept"], e["trained"] = len(o.models), n
    return e


def drive(scn):
    ev = []
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for i, q in enumerate(scn["do"]):
            ev.append({"build": build, "design": design, "count": count}[q["op"]](q["r"], scn["seed"] + i))
    return {"cfg": {"n": len(ev)}, "ev": ev}


def run(ctx):
    rng = ctx.rng("config")
    reqs = core.enumerate_states(ctx, "MCConfig")
    rng.shuffle(reqs)
    rest = [q for q in reqs if q["op"] != "build"]
    slow = [q for q in reqs if q["op"] == "build"]
    some = slow[:ctx.n(1500, 10 ** 6)]
    qs = rest * ctx.n(2, 12) + some
    rng.shuffle(qs)
    scns = [{"seed": ctx.seed * 10 ** 5 + 100 * i, "do": qs[i * 12:(i + 1) * 12]} for i in range((len(qs) + 11) // 12)]
    core.traces(ctx, "config", "TraceConfig", drive, scns,
                ["BuiltExactlyIfValid", "SuggestsFromTheSpace", "Refined", "SurrogateAsNamed", "SeveralOutputs", "SettingsReachTheSurrogate",
                 "NormalisedForProcesses", "ScalePerColumn", "DesignAsNamed", "SearchUsesTheDesign", "DesignKnown",
                 "InitialPointsAsRequested", "KeptAsRequested", "CountsAccepted", "NoSurrogate"])
