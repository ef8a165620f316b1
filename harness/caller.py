"""Several users of the caller's objects (S06): the same dimensions, estimator
and settings are given to optimizers, samplers, minimisers and spaces whose
operations interleave."""
import copy
import random

import numpy as np

import core
import stubs
from enc import Interner, errname, scale

KINDS = ["opt-stub", "opt-gp", "opt-et", "opt-dummy", "gen-lhs", "gen-lhs", "gen-sobol", "gen-grid", "gen-halton",
         "gen-hammersly", "gen-bad", "gen-bad", "space", "min-stub", "min-dummy", "min-gp", "opt-space", "args", "search"]
OPS = {"opt": ["ask", "ask2", "tell", "tell", "copy", "tell2"], "gen": ["generate"], "space": ["rvs", "bounds", "warp"],
       "min": ["run"], "args": ["call"], "search": ["space"]}


def dimensions(rng):
    from skopt.space import Real, Integer, Categorical
    out = []
    for i in range(rng.randint(2, 3)):
        k = rng.choice(["r", "r", "log", "i", "ilog", "c"])
        t = rng.choice(["identity", "normalize"])
        if k == "r":
            d = Real(-1.0, rng.choice([1.0, 5.0]), transform=t)
        elif k == "log":
            d = Real(0.01, 10.0, prior="log-uniform", transform=t)
        elif k == "i":
            d = Integer(-2, 7, transform=t)
        elif k == "ilog":
            d = Integer(1, 50, prior="log-uniform", transform=t)
        else:
            d = Categorical(["a", "b", "c"], transform=rng.choice(["onehot", "onehot", "label",
                                                                     "normalize"]))
        d.name = "d%d" % i
        out.append(d)
    return out


def look(v):
    """What the caller sees of an object it owns."""
    from skopt.space import Dimension
    from sklearn.base import BaseEstimator
    if isinstance(v, Dimension):
        out = [type(v).__name__, repr(v), v.name, v.transform_, repr(v.transformed_bounds), v.transformed_size]
        for s in (0, 1):
            x = v.rvs(3, random_state=s)
            out.append(repr([str(u) for u in x]))
            out.append(repr(np.asarray(v.transform(x)).tolist()))
        return out
    if isinstance(v, (list, tuple)):
        return [type(v).__name__] + [look(u) for u in v]
    if isinstance(v, dict):
        return ["dict"] + [[k, look(v[k])] for k in v]
    if isinstance(v, np.ndarray):
        return ["array", v.tolist()]
    if isinstance(v, BaseEstimator):
        return [type(v).__name__, sorted((k, repr(u)) for k, u in vars(v).items())]
    if isinstance(v, np.random.RandomState):
        return ["rng", [str(u) for u in v.get_state()]]
    if hasattr(v, "dimensions"):
        return [type(v).__name__, look(v.dimensions)]
    if hasattr(v, "__dict__"):
        return [type(v).__name__, sorted((k, repr(u)) for k, u in vars(v).items())]
    return repr(v)


class User:
    def __init__(self, kind, seed, things, I):
        self.kind, self.seed, self.t, self.I = kind, seed, things, I
        self.n = 0
        self.opt = None

    def value(self):
        self.n += 1
        return float((self.n * 7 + self.seed * 3) % 11 - 5)

    def make(self):
        from skopt import Optimizer
        b = {"stub": self.t["stub"], "gp": self.t["gp"], "et": self.t["et"], "dummy": "dummy",
             "space": self.t["stub"]}[self.kind[4:]]
        self.opt = Optimizer(self.t["space"] if self.kind == "opt-space" else self.t["dims"], b,
                             n_initial_points=1 + self.seed % 3, initial_point_generator=self.t["gen"], acq_func=self.t["acq"],
                             acq_optimizer="sampling", random_state=self.seed,
                             acq_func_kwargs=self.t["akw"], acq_optimizer_kwargs=self.t["okw"])

    def do(self, op):
        import skopt
        from skopt.space import Space
        from skopt.utils import cook_initial_point_generator, use_named_args
        I, t = self.I, self.t
        if self.kind.startswith("opt"):
            if self.opt is None:
                self.make()
            if op == "ask":
                return [I(self.opt.ask())]
            if op == "ask2":
                return I.many(self.opt.ask(n_points=2, strategy="cl_mean"))
            if op == "copy":
                return [I(self.opt.copy(random_state=self.seed).ask())]
            if op == "tell2":
                xs = self.opt.ask(n_points=2)
                r = self.opt.tell(xs, t["y2"] if self.n % 2 or t["ps"] else [self.value(), self.value()])
            elif t["ps"]:
                self.n += 1
                r = self.opt.tell(t["xs"][self.n % len(t["xs"])], t["y2"][self.n % 2])
            else:
                r = self.opt.tell(self.opt.ask(), self.value())
            return I.many(r.x_iters) + [I(r.x)]
        self.n += 1
        if self.kind == "gen-bad":
            from skopt import sampler as S
            g = [S.Lhs(criterion="best"), S.Lhs(lhs_type="new"), S.Grid(border="none"),
                 S.Grid(append_border="none"), S.Sobol(skip=2)][(self.n + self.seed) % 5]
            return I.many(g.generate(t["dims"], 5, random_state=1))
        if self.kind.startswith("gen"):
            j = self.seed + 3 * self.n
            kw = {"lhs": {"criterion": [None, "maximin", "correlation", "ratio"][j % 4], "iterations": 5,
                          "lhs_type": ["classic", "centered"][j // 4 % 2]},
                  "grid": {"border": ["exclude", "include", "only"][j % 3], "use_full_layout": j % 2 == 0},
                  "sobol": {"randomize": j % 2 == 0}}.get(self.kind[4:], {})
            g = cook_initial_point_generator(self.kind[4:], **kw)
            return I.many(g.generate(t["dims"], 1 + j % 5, random_state=j))
        if self.kind == "space":
            s = Space(t["dims"])
            if op == "rvs":
                return I.many(s.rvs(2, random_state=self.seed + self.n))
            if op == "bounds":
                return [scale(v, 1000) for b in s.transformed_bounds for v in b]
            x = s.rvs(2, random_state=self.seed)
            return I.many(s.inverse_transform(s.transform(x)))
        if self.kind == "args":
            @use_named_args(t["dims"])
            def f(**kw):
                return [kw[d.name] for d in t["dims"]]
            return [I(f(Space(t["dims"]).rvs(1, random_state=self.n)[0]))]
        if self.kind == "search":
            s = skopt.BayesSearchCV(t["et"], {d.name: d for d in t["dims"]}, n_iter=3)
            return [scale(s.total_iterations)]
        kw = {"n_calls": 4, "x0": t["x0"], "random_state": self.seed, "callback": t["cbs"],
              "verbose": self.seed % 2 == 0}
        if self.kind == "min-dummy":
            r = skopt.dummy_minimize(lambda x: self.value(), t["dims"], **kw)
        elif self.kind == "min-stub":
            r = skopt.optimizer.base_minimize(lambda x: self.value(), t["dims"], t["stub"], n_initial_points=1,
                                              acq_optimizer="sampling", n_points=20, **kw)
        else:
            r = skopt.gp_minimize(lambda x: self.value(), t["dims"], n_initial_points=1, n_points=20,
                                  base_estimator=t["gp"], acq_optimizer="sampling", **kw)
        return I.many(r.x_iters) + [I(r.x), len(t["cbs"])]


def things(scn):
    """A fresh set of the caller's objects."""
    from skopt.space import Space
    from skopt.utils import cook_estimator
    rng = random.Random("caller/%s" % scn["seed"])
    dims = dimensions(rng)
    for d in dims:          # not normalised by anybody: names stay
        assert d.name
    t = {"dims": dims, "stub": stubs.Stub(salt=5),
         "gp": cook_estimator("GP", space=dims, random_state=1, noise=1e-3),
         "et": cook_estimator("ET", random_state=2, n_estimators=4, min_samples_leaf=1),
         "akw": {"xi": 0.1, "kappa": 1.5, "eta": 2.0}, "okw": {"n_points": 20, "n_restarts_optimizer": 1},
         "x0": [Space(dims).rvs(1, random_state=4)[0]], "cbs": [idle],
         "acq": rng.choice(["EI", "LCB", "PI", "gp_hedge", "EIps", "PIps"]), "gen": rng.choice(["random", "lhs", "sobol", "grid"])}
    t["space"] = Space(dims)
    t["ps"] = t["acq"].endswith("ps")
    # objectives (and times) told by several users
    t["y2"] = [[0.5, 20.0], [-1.5, 3.0]] if t["ps"] else [0.5, -1.5]
    t["xs"] = Space(dims).rvs(3, random_state=6)
    return t


def idle(res):
    return None


def drive(scn):
    I, D = Interner(), Interner()
    world = lambda t: [D([repr(look(t[k]))]) for k in sorted(t)]
    ev = []

    def act(u, op):
        try:
            return u.do(op)
        except Exception as e:
            return [-1, I([errname(e)])]
    for i, k in enumerate(scn["kinds"]):
        t = things(scn)
        u = User(k, i + 11, t, I)
        for j, op in scn["ops"]:
            if j == i:
                ev.append({"op": "solo", "u": i + 1, "do": op, "got": act(u, op)})
    t = things(scn)
    cfg = {"users": len(scn["kinds"]), "shared": world(t)}
    us = [User(k, i + 11, t, I) for i, k in enumerate(scn["kinds"])]
    for i, op in scn["ops"]:
        got = act(us[i], op)
        ev.append({"op": "act", "u": i + 1, "do": op, "got": got, "shared": world(t)})
    return {"cfg": cfg, "ev": ev}


def scns(ctx, num):
    logs = core.generate(ctx, "MCCaller", "MCCaller.cfg", {"GENERATE": True, "MaxLen": 7}, num=num, depth=9,
                         seed=ctx.seed)
    rng = ctx.rng("caller")
    out = []
    for i, log in enumerate(logs):
        kinds = [rng.choice(KINDS if rng.random() < .6 else KINDS[:4]) for _ in range(3)]
        ops = []
        for u, _ in log:
            ops.append([u - 1, rng.choice(OPS[kinds[u - 1].split("-")[0]])])
        out.append({"seed": "%d/%d" % (ctx.seed, i), "kinds": kinds, "ops": ops})
    return out


def run(ctx):
    core.model(ctx, "MCCaller", constants={"MaxLen": ctx.n(5, 6)})
    core.traces(ctx, "caller", "TraceCaller", drive, scns(ctx, ctx.n(150, 3000)),
                ["CallerUnchanged", "SharedLikeOwn"])
