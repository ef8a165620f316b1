"""Reproducibility (R01) and storing of results and optimizers (D01): objects
with the same settings, seed and calls are compared, in any interleaving."""
import copy
import hashlib
import os
import pathlib
import pickle
import random
import shutil
import tempfile
import warnings

import numpy as np

import core
import stubs
from enc import py

SPACES = {
    "mixed": [(0.0, 10.0), (1, 6), ["a", "b", "c"]],
    "real": [(-5.0, 5.0), (1e-3, 1.0, "log-uniform")],
    "int": [(0, 9), (1, 1000, "log-uniform")],
    "cat": [["p", "q", "r"], ["u", "v"]],
}
OWN = {"mixed": [[1.5, 2, "b"], [9.0, 6, "a"]], "real": [[0.25, .5], [-4.0, .002]],
       "int": [[3, 50], [9, 2]], "cat": [["q", "u"], ["r", "v"]]}


def value(x):
    s = 0.
    for i, v in enumerate(x):
        s += {"a": 1, "b": 3, "c": -2, "p": 2, "q": 0, "r": 5, "u": 1, "v": -1}[v] if isinstance(v, str) \
            else np.cos(float(v) * (i + 1)) * 3
    return float(s)


def fingerprint(v):
    v = py(v)
    if isinstance(v, np.ndarray):
        return [fingerprint(u) for u in v.tolist()]
    if isinstance(v, dict):
        return sorted((str(k), fingerprint(u)) for k, u in v.items())
    if isinstance(v, (list, tuple)):
        return [fingerprint(u) for u in v]
    if isinstance(v, np.random.RandomState):
        s = v.get_state()
        return hashlib.md5(s[1].tobytes() + str(s[2:]).encode()).hexdigest()
    if hasattr(v, "predict") and hasattr(v, "fit"):
        return type(v).__name__
    if callable(v):
        return "callable"
    # the order of additions may change the last digits
    return "float %.8g" % v if isinstance(v, float) else repr(v)


def preds(res):
    if not res.models or res.space is None:
        return []
    X = res.space.transform(res.space.rvs(4, random_state=1))
    out = []
    for m in res.models:
        out.append(["%.7g" % v for v in np.ravel(m.predict(X))])
    return out


def settings(rng, opt=True):
    """Settings, and the ones that must not matter."""
    s = {"space": rng.choice(list(SPACES)), "base": rng.choice(["GP", "ET", "RF", "GBRT", "stub", "dummy"]),
         "acq": rng.choice(["EI", "gp_hedge", "LCB", "PI"]), "ninit": rng.choice([1, 2, 3]),
         "gen": rng.choice([None, "lhs", "sobol", "halton", "hammersly", "grid", "random"]),
         "seed": rng.randrange(1000), "acqopt": rng.choice(["auto", "sampling", "lbfgs"])}
    if s["space"] == "mixed" or s["base"] != "GP" or s["space"] == "cat":
        s["acqopt"] = rng.choice(["auto", "sampling"])
    if s["base"] in ("stub", "dummy"):
        s["acqopt"] = "sampling"
    if s["acq"] == "gp_hedge" and s["base"] != "GP":
        s["acq"] = "EI"
    return s


def base(s, jobs):
    from skopt.utils import cook_estimator
    if s["base"] == "stub":
        return stubs.Stub(salt=3)
    if s["base"] in ("ET", "RF") and s["seed"] % 5:
        return cook_estimator(s["base"], random_state=7, n_estimators=4, n_jobs=jobs)
    return s["base"]


class Session:
    OBJS, FILES = 3, 2

    def __init__(self, scn):
        self.scn = scn
        self.rng = random.Random("repro/%s" % scn["seed"])
        self.dir = tempfile.mkdtemp(prefix="verif_repro_")
        self.ids, self.keys = {}, {}
        self.ev = []
        self.obj = {}
        self.files = {}
        r = self.rng
        self.conf = [settings(r) for _ in range(2)]
        self.kinds = [r.choice(scn["kinds"]) for _ in range(2)]
        self.calls = {k: [self.call(k) for _ in range(4)] for k in ("opt", "res", "space")}

    def id(self, v):
        return self.ids.setdefault(repr(v), len(self.ids) + 1)

    # ------------------------------------------------------------- objects
    def make(self, k):
        from skopt import Optimizer, dummy_minimize, forest_minimize, gbrt_minimize, gp_minimize
        from skopt.space import Space
        s, kind = self.conf[k - 1], self.kinds[k - 1]
        rng = self.rng
        # forests add up the trees in the order their threads end
        jobs = rng.choice([1, 1, 2]) if s["base"] in ("GP", "GBRT") else 1
        dims = copy.deepcopy(SPACES[s["space"]])
        if rng.random() < .3:
            dims = Space(dims)
        if kind == "space":
            return ["space", Space(dims), s]
        kw = {"n_initial_points": s["ninit"], "random_state": s["seed"]}
        if s["gen"]:
            kw["initial_point_generator"] = s["gen"]
        if kind == "opt":
            o = Optimizer(dims, base_estimator=base(s, jobs), acq_func=s["acq"], acq_optimizer=s["acqopt"],
                          n_jobs=jobs, acq_optimizer_kwargs={"n_points": 60, "n_restarts_optimizer": 2}, **kw)
            return ["opt", o, s]
        if s["base"] == "stub":       # a result without the arguments of a search
            o = Optimizer(dims, base_estimator=base(s, 1), acq_optimizer="sampling",
                          acq_optimizer_kwargs={"n_points": 60}, **kw)
            return ["res", o.run(value, n_iter=s["ninit"] + 2), s]
        f = value if s["seed"] % 3 else (lambda x: value(x) + 0)
        n = s["ninit"] + 3
        if isinstance(dims, Space):
            dims = dims.dimensions
        if s["base"] == "dummy":
            kw.pop("n_initial_points")
            r = dummy_minimize(f, dims, n, **kw)
        elif s["base"] == "GP":
            r = gp_minimize(f, dims, n_calls=n, acq_func=s["acq"], acq_optimizer=s["acqopt"], n_points=60, n_jobs=jobs,
                            n_restarts_optimizer=2, **kw)
        elif s["base"] == "GBRT":
            r = gbrt_minimize(f, dims, n_calls=n, acq_func=s["acq"], n_points=60, n_jobs=jobs, **kw)
        else:
            r = forest_minimize(f, dims, n_calls=n, base_estimator=base(s, jobs),
                                acq_func=s["acq"], n_points=60, n_jobs=jobs, **kw)
        return ["res", r, s]

    def call(self, kind):
        r = self.rng
        if kind == "opt":
            return r.choice([["step"], ["step"], ["batch", r.choice([2, 3]), r.choice(["cl_min", "cl_mean", "cl_max"])],
                             ["own", r.randrange(2), r.random() < .7], ["ask"], ["run", r.choice([1, 2])],
                             ["result"], ["next"], ["step"], ["step"]])
        if kind == "space":
            return ["rvs", r.randint(1, 5), r.randrange(100)]
        return r.choice([["append"], ["value"], ["point"], ["specs"], ["models"], ["name"], ["random"],
                         ["expected", r.randrange(50)]])

    def do(self, o, call):
        kind, x, s = o
        c = call[0]
        if kind == "space":
            return fingerprint(x.rvs(call[1], random_state=call[2]))
        if kind == "opt":
            if c in ("step", "batch", "ask", "run", "next") and getattr(x, "_n_initial_points", 1) <= 0 and not x.models \
                    and s["base"] != "dummy":
                return "no surrogate"
            if c == "step":
                p = x.ask()
                return fingerprint([p, self.shown(x.tell(p, value(p)))])
            if c == "batch":
                ps = x.ask(n_points=call[1], strategy=call[2])
                return fingerprint([ps, self.shown(x.tell(ps, [value(p) for p in ps]))])
            if c == "own":
                p = OWN[s["space"]][call[1]]
                return fingerprint(self.shown(x.tell(p, value(p), fit=call[2])))
            if c == "ask":
                return fingerprint([x.ask(), x.ask()])
            if c == "run":
                return fingerprint(self.shown(x.run(value, n_iter=call[1])))
            if c == "next":
                x.update_next()
                return fingerprint(x.ask())
            return fingerprint(self.shown(x.get_result())) if x.yi else []
        if c == "append":
            x.x_iters.append(x.x_iters[0])
        elif c == "value":
            x.func_vals[-1] += 1
        elif c == "point":
            x.x_iters[0][0] = x.x_iters[-1][0]
        elif c == "specs":
            if x.specs:
                x.specs["args"]["n_calls"] = 99
        elif c == "models":
            del x.models[:1]
        elif c == "name":
            x.space.dimensions[0].name = "changed"
        elif c == "random":
            return fingerprint(x.random_state.randint(0, 99, 3) if hasattr(x.random_state, "randint") else 0)
        elif c == "expected":
            from skopt import expected_minimum
            from skopt.utils import expected_minimum_random_sampling
            if not x.models:
                return []
            if not x.space.is_partly_categorical and s["base"] == "GP":
                return fingerprint(expected_minimum(x, n_random_starts=2, random_state=call[1]))
            return fingerprint(expected_minimum_random_sampling(x, 50, random_state=call[1]))
        return []

    @staticmethod
    def shown(r):
        return [r.x, float(r.fun), list(r.x_iters), list(r.func_vals), len(r.models)]

    def digest(self, o):
        kind, x, s = o
        if kind == "opt":
            return self.id(["opt", fingerprint([x.Xi, x.yi, len(x.models)]), repr(x.space)])
        if kind == "space":
            return self.id(["space", repr(x)])
        sp = dict(x.specs["args"] if x.specs else {})
        sp.pop("func", None)
        sp.pop("dimensions", None)
        sp.pop("n_jobs", None)
        for k in ("random_state", "callback", "base_estimator"):
            sp[k] = fingerprint(sp.get(k))
        return self.id(["res", fingerprint([x.x, x.fun, x.x_iters, x.func_vals, sp]),
                        fingerprint(x.random_state), preds(x), repr(x.space), [d.name for d in x.space.dimensions]])

    def func(self, o):
        return o[0] != "res" or bool(o[1].specs and "func" in o[1].specs["args"])

    # ------------------------------------------------------------ recording
    def note(self, e, before):
        e["glob"] = self.glob() == before
        e["digs"] = [self.digest(self.obj[i]) if i in self.obj else 0 for i in range(1, self.OBJS + 1)]
        e["funcs"] = [bool(i in self.obj and self.func(self.obj[i])) for i in range(1, self.OBJS + 1)]
        self.ev.append(e)

    @staticmethod
    def glob():
        s = np.random.get_state()
        return hash((s[1].tobytes(), s[2], s[3], s[4], str(random.getstate())))

    def noise(self):
        r = self.rng.random()
        if r < .2:
            np.random.seed(self.rng.randrange(99))
        elif r < .4:
            np.random.rand(3)
        elif r < .5:
            random.seed(self.rng.randrange(9))

    def dump(self, o, path, store):
        from skopt import dump
        kind, x, s = o
        kw = {}
        if path.endswith(".pkl") and self.rng.random() < .3:
            kw["compress"] = self.rng.choice([True, 3])
        where = pathlib.Path(path) if self.rng.random() < .3 else path
        if kind != "res":
            import joblib
            joblib.dump(x, where, **kw)
        else:
            dump(x, where, store_objective=store, **kw)

    def go(self):
        from skopt import load
        scn = self.scn
        for op in scn["ops"]:
            self.noise()
            g = self.glob()
            a, b = op["a"], op["b"]
            if op["op"] == "new":
                key = self.id(["key", self.kinds[b - 1], sorted(self.conf[b - 1].items(), key=str)])
                self.obj[a] = self.make(b)
                self.note({"op": "new", "a": a, "b": key, "func": self.func(self.obj[a])}, g)
                for _ in range(self.rng.choice([0, 0, 1, 3]) if self.obj[a][0] == "opt" else 0):
                    g = self.glob()
                    out = self.id(self.do(self.obj[a], ["step"]))
                    self.note({"op": "do", "a": a, "b": self.id(["step"]), "out": out}, g)
            elif op["op"] == "do":
                if a not in self.obj:
                    continue
                o = self.obj[a]
                call = self.calls[o[0]][b - 1]
                if o[0] == "space":
                    # a fresh lineage for the used object: its past must not matter
                    key = self.id(["key", "space", o[2]["space"]])
                    self.note({"op": "new", "a": a, "b": key, "func": True}, g)
                g = self.glob()
                out = self.id(self.do(o, call))
                self.note({"op": "do", "a": a, "b": self.id(call), "out": out}, g)
            elif op["op"] == "copy":
                if a not in self.obj or (self.obj[a][0] == "res" and not self.safe(a)):
                    continue
                k, x, s = self.obj[a]
                x = pickle.loads(pickle.dumps(x)) if self.rng.random() < .6 else copy.deepcopy(x)
                self.obj[b] = [k, x, s]
                self.note({"op": "copy", "a": a, "b": b}, g)
            elif op["op"] == "dump":
                if a not in self.obj:
                    continue
                o = self.obj[a]
                store = bool(op["c"])
                if o[0] == "res" and store and not self.safe(a):
                    store = False
                path = os.path.join(self.dir, "f%d%s" % (b, self.rng.choice([".pkl", ".gz", ".z"])))
                self.dump(o, path, store)
                self.files[b] = (path, o[0], o[2])
                self.note({"op": "dump", "a": a, "b": b, "store": store or o[0] != "res",
                           "ok": os.path.exists(path)}, g)
            else:
                if a not in self.files:
                    continue
                path, kind, s = self.files[a]
                self.obj[b] = [kind, load(pathlib.Path(path) if self.rng.random() < .3 else path), s]
                self.note({"op": "load", "a": a, "b": b}, g)
        return {"cfg": {"objs": self.OBJS, "files": self.FILES}, "ev": self.ev}

    def safe(self, a):
        """Whether the objective can be stored."""
        f = (self.obj[a][1].specs or {"args": {}})["args"].get("func")
        return f is None or f is value

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def drive(scn):
    warnings.simplefilter("ignore")
    import joblib
    s = Session(scn)
    try:
        with joblib.parallel_backend("threading"):
            return s.go()
    finally:
        s.close()


EXPECT = {"R01": ["GlobalStateUntouched", "SameCallsSameAnswers", "SameCallsSameState", "SameSettingsSameState"],
          "D01": ["RestoredContinuesAlike", "RestoredIsEqual", "ObjectiveStoredAsAsked", "OthersUntouched",
                  "DumpLeavesTheResult", "SameCallsSameState"]}


def scns(ctx):
    ops = core.generate(ctx, "MCRepro", "MCRepro_gen.cfg", num=ctx.n(60, 600), depth=13, seed=ctx.seed)
    rng = ctx.rng("repro")
    ops = rng.sample(ops, min(len(ops), ctx.n(260 if ctx.pid == "R01" else 170, 5000)))
    kinds = {"R01": ["opt", "opt", "opt", "res", "space"], "D01": ["opt", "res", "res"]}[ctx.pid]
    out = []
    for i, o in enumerate(ops):
        if rng.random() < .5:       # two objects alike, to have something to compare
            o = [{"op": "new", "a": 1, "b": 1, "c": 0}, {"op": "new", "a": 2, "b": 1, "c": 0}] + o
            w = [rng.randint(1, 4) for _ in range(3)]
            o += [{"op": "new", "a": 3, "b": 1, "c": 0}]
            o += [{"op": "do", "a": 3, "b": k, "c": 0} for k in w]
            o += [{"op": "copy", "a": 3, "b": 1, "c": 0}]
            o += [{"op": "do", "a": j, "b": k, "c": 0} for k in w for j in (1, 3)]
        out.append({"seed": "%d/%d" % (ctx.seed, i), "ops": o, "kinds": kinds})
    return out


def run(ctx):
    core.model(ctx, "MCRepro", constants={"MaxLen": ctx.n(4, 6)})
    core.traces(ctx, "repro", "TraceRepro", drive, scns(ctx), EXPECT[ctx.pid])
