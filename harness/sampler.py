"""Initial point generators (G01-G03): histories of requests to generator
objects, directly, by name and through an optimizer."""
import math
import random

import numpy as np

import core
import stubs
from enc import py, scale

M = 2 ** 20
SPACES = ["unit", "real", "mixed", "ints", "cats", "small"]


def space(name, d, rng):
    from skopt.space import Real, Integer, Categorical
    out = []
    for k in range(d):
        what = {"unit": "unit", "real": rng.choice(["real", "log", "unit"]),
                "mixed": rng.choice(["real", "log", "int", "ilog", "cat"]),
                "ints": rng.choice(["int", "ilog"]), "cats": "cat", "small": rng.choice(["int2", "cat2"])}[name]
        t = rng.choice(["identity", "normalize"])
        if what == "unit":
            v = Real(0.0, 1.0, transform=t)
        elif what == "real":
            lo = rng.choice([-5.0, 0.0, 1e-3, 1000.0, -1e6])
            v = Real(lo, lo + rng.choice([0.5, 1.0, 7.0, 2e6]), transform=t)
        elif what == "log":
            b = rng.choice([2, 10])
            v = Real(float(b) ** -3, float(b) ** rng.choice([1, 3, 5]), prior="log-uniform", base=b, transform=t)
        elif what == "int":
            lo = rng.choice([-10, 0, 5, 100])
            v = Integer(lo, lo + rng.choice([1, 4, 9, 1000]), transform=t)
        elif what == "ilog":
            v = Integer(1, rng.choice([8, 100, 5000]), prior="log-uniform", base=rng.choice([2, 10]), transform=t)
        elif what == "int2":
            v = Integer(0, 1, transform=t)
        else:
            n = rng.choice([2, 3, 5]) if what == "cat" else rng.choice([1, 2])
            v = Categorical(["abcde"[i] for i in range(n)],
                            transform=rng.choice(["onehot", "normalize", "label"]))
        out.append(v)
    return out


def interval(dim, v):
    """Where the coordinate of a value is, in units of 1/M."""
    k = type(dim).__name__
    if k == "Categorical":
        n = len(dim.categories)
        if n == 1:
            return [0, M]
        i = list(dim.categories).index(v)
        u = [(i - .5) / (n - 1), (i + .5) / (n - 1)]
    else:
        lo, hi = float(dim.low), float(dim.high)
        w = [v, v] if k == "Real" else [max(v - .5, lo), min(v + .5, hi)]
        if dim.prior == "log-uniform":
            u = [(math.log(x) - math.log(lo)) / (math.log(hi) - math.log(lo)) for x in w]
        else:
            u = [(x - lo) / (hi - lo) for x in w]
    return [scale(max(0.0, min(1.0, x)), M) for x in u]


def settings(rng, kind=None):
    k = kind or rng.choice(["lhs", "lhs", "grid", "grid", "halton", "hammersly", "sobol", "sobol", "random"])
    s = {"kind": k, "skip": 0, "lo": 0, "hi": 0, "primes": [], "shifted": False, "type": "", "crit": "",
         "border": "", "full": False, "app": ""}
    if k == "lhs":
        s["type"] = rng.choice(["classic", "centered"])
        s["crit"] = rng.choice(["", "maximin", "correlation", "ratio"])
    elif k == "grid":
        s["border"] = rng.choice(["exclude", "include", "only"])
        s["full"] = rng.random() < .6
        s["app"] = rng.choice(["only", "include", "exclude"])
    elif k in ("halton", "hammersly"):
        s["lo"] = rng.choice([0, 0, 1, 5, 20, 130, 300, 40000, 10 ** 6])
        s["hi"] = s["lo"] + rng.choice([0, 0, 0, 1, 7])
        if rng.random() < .3:
            s["primes"] = rng.choice([[3, 5], [2, 3, 5, 7], [7, 2, 3], [5], [4, 9, 25]])
    elif k == "sobol":
        s["skip"] = rng.choice([0, 0, 0, 1, 2, 8, 16, 64])
        s["shifted"] = rng.random() < .5
    return s


def kwargs(s):
    k = s["kind"]
    if k == "lhs":
        return {"lhs_type": s["type"], "criterion": s["crit"] or None, "iterations": 8}
    if k == "grid":
        return {"border": s["border"], "use_full_layout": s["full"], "append_border": s["app"]}
    if k in ("halton", "hammersly"):
        return {"min_skip": s["lo"], "max_skip": s["hi"],
                "primes": tuple(s["primes"]) if s["primes"] else (None if s["lo"] % 2 else ())}
    if k == "sobol":
        return {"skip": s["skip"], "randomize": s["shifted"]}
    return {}


def make(s, by):
    from skopt import sampler as S
    from skopt.utils import cook_initial_point_generator
    if s["kind"] == "random":
        return cook_initial_point_generator("random") or "random"
    if by == "class":
        return getattr(S, s["kind"].capitalize())(**kwargs(s))
    name = s["kind"].upper() if by == "NAME" else s["kind"]
    return cook_initial_point_generator(name, **kwargs(s))


def through(how, gen, dims, n, rs):
    """The first n points of a search that uses the generator."""
    from skopt import Optimizer, dummy_minimize
    from skopt.optimizer import base_minimize
    if how == "minimize":
        r = base_minimize(lambda x: 1.0, dims, stubs.Stub(salt=1), n_calls=n, n_initial_points=n,
                          initial_point_generator=gen, acq_optimizer="sampling", n_points=5, random_state=rs)
        return r.x_iters
    if how == "dummy":
        return dummy_minimize(lambda x: 1.0, dims, n_calls=n, initial_point_generator=gen, random_state=rs).x_iters
    o = Optimizer(dims, stubs.Stub(salt=2), n_initial_points=n, initial_point_generator=gen,
                  acq_optimizer="sampling", random_state=rs)
    out = []
    while len(out) < n:
        if how == "batch":
            k = min(3, n - len(out))
            xs = o.ask(n_points=k)
            o.tell(xs, [1.0] * k)
            out += xs
        else:
            x = o.ask()
            o.tell(x, 1.0)
            out.append(x)
    return out


def request(rng, s):
    """Space and number of points of a request."""
    k = s["kind"]
    name = rng.choice(SPACES)
    if rng.random() < .25:
        name = "unit"
    if k == "sobol":
        d = rng.choice([1, 2, 2, 3, 4, 8, 40, 41])
        n = rng.choice([1, 2, 4, 7, 8, 16, 30, 32, 64] if d < 40 else [1, 4, 8])
        if s["skip"]:
            n = rng.choice([1, 2, s["skip"] // 2 or 1, s["skip"], 4])
    elif k == "grid":
        d = rng.choice([1, 1, 2, 2, 3, 4, 5, 7])
        n = rng.choice([1, 2, 3, 4, 5, 8, 9, 10, 12, 16, 17, 20, 25, 27, 28, 32, 36])
    elif k in ("halton", "hammersly"):
        d = rng.choice([1, 1, 2, 3, 4, 5, 9, 12, 13, 30, 60])
        n = rng.choice([1, 2, 3, 8, 16, 31, 100, 300] if d < 5 else [1, 2, 8, 31] if d < 9 else [1, 3, 10])
    else:
        d = rng.choice([1, 2, 2, 3, 5])
        n = rng.choice([1, 2, 3, 5, 8, 12, 13, 20, 40])
    return [name, d, n, rng.randrange(4)]


def drive(scn):
    rng = random.Random("sampler/%s" % scn["seed"])
    gens = scn["gens"]
    objs = [make(s, s["by"]) for s in gens]
    ids = {}
    ev = []
    for g, (name, d, n, which), seed, how in scn["calls"]:
        s = gens[g]
        dims = space(name, d, random.Random("%s/%s/%d/%d" % (scn["seed"], name, d, which)))
        before = [repr(x) for x in dims]
        obj = objs[g]
        e = {"op": "gen", "g": g + 1, "n": n, "d": d, "how": how, "err": False, "pts": [], "ids": [],
             "narrow": name in ("unit", "real"), "unit": name == "unit", "own": how != "fresh"}
        e["key"] = "%s/%s/%s/%d/%d/%s/%s" % (
            g, name, which, d, -1 if s["kind"] in ("halton", "sobol") else n, seed,
            how if how in ("ask", "batch", "minimize", "dummy") else "")
        rs = np.random.RandomState(seed) if seed % 2 else seed
        if how in ("ask", "batch", "minimize", "dummy"):
            e["key"], e["own"] = "", False
            obj = make(s, s["by"])
        elif how == "fresh":
            obj = make(s, "class")
        np.random.seed(77)
        a = np.random.get_state()[1].tolist()
        try:
            if how in ("ask", "batch", "minimize", "dummy"):
                pts = through(how, obj, dims, n, rs)
            elif obj == "random" or not hasattr(obj, "generate"):
                from skopt.space import Space
                pts = Space(dims).rvs(n, random_state=rs)
            else:
                pts = obj.generate(dims, n, random_state=rs)
        except Exception as x:
            e["err"] = True
            ev.append(dict(e, what=str(x)[:100], inside=True, grng=True, same=True))
            continue
        e["grng"] = a == np.random.get_state()[1].tolist() and np.random.randint(1 << 30) == first()
        e["same"] = before == [repr(x) for x in dims]
        e["inside"] = all(len(p) == d and all(v in x for v, x in zip(p, dims)) for p in pts)
        if e["inside"]:
            e["pts"] = [[interval(x, v) for v, x in zip(p, dims)] for p in pts]
        e["ids"] = [ids.setdefault(repr([py(v) for v in p]), len(ids) + 1) for p in pts]
        ev.append(e)
    return {"cfg": {"gens": gens}, "ev": ev}


def first():
    return int(np.random.RandomState(77).randint(1 << 30))


# ---------------------------------------------------- criteria of the designs
def quality(crit, h):
    from scipy.spatial.distance import pdist
    h = np.array(h, dtype=float)
    if crit == "correlation":
        r = np.corrcoef(h.T)
        return scale(np.max(np.abs(r - np.eye(len(r)))), 10 ** 6)
    p = pdist(h)
    return scale(-p.min() if crit == "maximin" else min(p.max() / max(p.min(), 1e-8), 2000), 10 ** 6)


def drive_best(scn):
    from skopt.sampler import Lhs
    rng = random.Random("best/%s" % scn["seed"])
    ev = []
    for crit in ("correlation", "maximin", "ratio"):
        d, n, K = rng.randint(1, 4), rng.randint(3, 9), rng.choice([1, 2, 5, 20, 60, 200])
        if crit == "correlation":
            d = max(d, 2)
        if crit == "ratio":
            n = max(n, 4)
        t = rng.choice(["classic", "centered"])
        seed = rng.randrange(10 ** 6)
        dims = [(0.0, 1.0)] * d
        rs = np.random.RandomState(seed)
        ds = [Lhs(lhs_type=t, criterion=None).generate(dims, n, random_state=rs) for _ in range(K + 1)]
        h = Lhs(lhs_type=t, criterion=crit, iterations=K).generate(dims, n, random_state=seed)
        ev.append({"op": "best", "crit": crit, "got": quality(crit, h),
                   "others": [quality(crit, x) for x in (ds[1:K] or ds[1:])]})
    return {"cfg": {"gens": []}, "ev": ev}


def scns(ctx, num, kinds, opt=.25):
    logs = core.generate(ctx, "MCSampler", "MCSampler_gen.cfg", {"MaxN": 1}, num=max(num, 200), depth=8,
                         seed=ctx.seed)
    rng = ctx.rng("sampler", ",".join(kinds))
    out = []
    i = 0
    while len(out) < num:
        log = rng.choice(logs)
        gens = []
        for _ in range(2):
            s = settings(rng, rng.choice(kinds))
            s["by"] = rng.choice(["class", "class", "name", "NAME"])
            gens.append(s)
        reqs = {}
        calls = []
        for g, n, d, seed in log:
            s = gens[g - 1]
            key = (g, n, d)
            if key not in reqs:
                reqs[key] = request(rng, s)
            how = "same"
            if rng.random() < .2:
                how = "fresh"
            elif rng.random() < opt:
                how = rng.choice(["ask", "ask", "batch", "minimize", "dummy"])
            r = list(reqs[key])
            if s["kind"] in ("halton", "sobol") and rng.random() < .3:
                r[2] = max(1, r[2] // 2)
            if how in ("minimize", "dummy", "ask", "batch") and r[1] > 8:
                how = "same"
            if calls and rng.random() < .3:
                c = rng.choice(calls)
                calls.append([c[0], c[1], c[2], rng.choice(["same", "fresh"])])
            calls.append([g - 1, r, seed, how])
        out.append({"seed": "%d/%d" % (ctx.seed, i), "gens": gens, "calls": calls})
        i += 1
    return out


EXPECT = {"G01": ["OnePerStratum", "CentreOfStratum", "IndependentDimensions", "OnTheGrid", "FullFactorial",
                  "GridPointsOnce", "BestOfTheDesigns"],
          "G02": ["Halton", "Hammersly", "SobolBalanced", "ShiftedSobolBalanced", "SobolNet",
                  "SobolDimensionsDiffer", "SequenceDoesNotRepeat"],
          "G03": ["RequestHonoured", "NumberOfPoints", "InsideSpace", "GlobalRandomStateUntouched",
                  "SettingsUntouched", "SameRequestSameDesign"]}
KINDS = {"G01": ["lhs", "grid"], "G02": ["halton", "hammersly", "sobol", "sobol"],
         "G03": ["lhs", "grid", "halton", "hammersly", "sobol", "random"]}


def run(ctx):
    core.model(ctx, "MCSampler", constants={"MaxN": ctx.n(40, 130), "MaxLen": ctx.n(3, 4)})
    if ctx.pid == "G01":
        core.traces(ctx, "best", "TraceSampler", drive_best,
                    [{"seed": "%d/%d" % (ctx.seed, i)} for i in range(ctx.n(60, 1000))], ["BestOfTheDesigns"])
    core.traces(ctx, "sampler", "TraceSampler", drive,
                scns(ctx, ctx.n(220, 6000), KINDS[ctx.pid], .4 if ctx.pid != "G03" else .25), EXPECT[ctx.pid])
