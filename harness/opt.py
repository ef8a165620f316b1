"""Ask/tell optimizer: replays behaviours of MCOptimizer on real Optimizer
objects and records what happens for TraceOptimizer (O01-O07, O09)."""
import copy as _copy
import math
import random
import warnings

import numpy as np

import core
import stubs
from core import Machinery
from enc import Interner, RowInterner, errname, scale

SPACES = {
    "mixed": [(0.0, 10.0), (1, 6), ["a", "b", "c"]],
    "real2": [(-5.0, 5.0), (0.0, 1.0)],
    "log": [(1e-4, 10.0, "log-uniform"), (1, 1000, "log-uniform")],
    "cats": [["x", "y", "z"], [True, False], (0.0, 1.0)],
    "ints": [(0, 3), (-2, 2)],
    "catonly": [["p", "q", "r"], ["u", "v"]],
    "one": [(0.0, 1.0)],
}
CONT = {"mixed", "real2", "log", "cats", "one"}
OUT = {"mixed": [20.0, 3, "a"], "real2": [0.0, 7.0], "log": [100.0, 10], "cats": ["x", True, 3.0],
       "ints": [9, 0], "catonly": ["p", "zz"], "one": [1.5]}


def make_recgen():
    from skopt.sampler import InitialPointGenerator

    class RecGen(InitialPointGenerator):
        """Delegates to a real generator and keeps what it answered."""
        def __init__(self, inner):
            self.inner = inner
            self.out = None

        def generate(self, dimensions, n_samples, random_state=None):
            r = self.inner.generate(dimensions, n_samples, random_state=random_state)
            self.out = [list(p) for p in r]
            self.calls = getattr(self, "calls", 0) + 1
            return r
    return RecGen


class Rec:
    """One recorded history of an optimizer and its copies."""

    def __init__(self, scn):
        from skopt import Optimizer
        self.scn = scn
        self.rng = random.Random("opt/%s" % scn["seed"])
        self.ps = scn["acq"].endswith("ps")
        self.I = Interner()
        stubs.LOG.clear()
        kw = {}
        self.stub = scn["base"] == "stub"
        if self.stub:
            base = stubs.Stub(salt=scn["seed"] % 97)
            kw["acq_optimizer"] = "sampling"
        elif scn["base"] == "none":
            base = None
            kw["acq_optimizer"] = "sampling"
        else:
            from skopt.utils import cook_estimator
            base = scn["base"]
            if scn.get("inst") and base != "GP":
                extra = {"n_estimators": 5} if base in ("RF", "ET") else {}
                base = cook_estimator(base, random_state=3, **extra)
        self.base = base
        self.gen = None
        if scn["gen"]:
            from skopt.utils import cook_initial_point_generator
            self.gen = make_recgen()(cook_initial_point_generator(scn["gen"]))
            kw["initial_point_generator"] = self.gen
        dims = _copy.deepcopy(SPACES[scn["space"]])
        if scn["base"] == "stub" and scn.get("multi") and self.ps:
            from sklearn.multioutput import MultiOutputRegressor
            base = MultiOutputRegressor(base)
        self.opts = [Optimizer(dims, base_estimator=base, n_initial_points=scn["ninit"],
                               acq_func=scn["acq"], random_state=scn["seed"],
                               model_queue_size=scn["q"] or None,
                               acq_optimizer_kwargs={"n_points": scn.get("npts", 25),
                                                     "n_restarts_optimizer": 2}, **kw)]
        self.space = self.opts[0].space
        self.R = RowInterner(self.space, self.I)
        self.results = []
        self.ev = []
        self.base0 = self.basefp()
        gen = self.I.many(self.gen.out) if self.gen else []
        self.cfg = {"ninit": scn["ninit"], "gen": gen, "hasModel": scn["base"] != "none",
                    "q": scn["q"], "ps": self.ps, "stub": self.stub,
                    "cont": scn["space"] in CONT}
        from skopt.space import Space
        self.myspace = Space(_copy.deepcopy(SPACES[scn["space"]]))
        self.pool = []

    # ---------------------------------------------------------- projections
    def basefp(self):
        """The estimator the caller handed in and the one kept as a template."""
        out = []
        for e in (self.base, self.opts[0].base_estimator_):
            if e is None or isinstance(e, str):
                out.append(repr(e))
            else:
                out.append((id(e), sorted((k, repr(v)) for k, v in vars(e).items())))
        return out

    def yt(self, y):
        if self.ps:
            return scale(y[0]), scale(y[1])
        return scale(y), 0

    def hist(self, xs, ys):
        p = [self.yt(y) for y in ys]
        return {"xs": self.I.many(xs), "ys": [a for a, _ in p], "ts": [b for _, b in p]}

    def model(self, m):
        if not self.stub:
            return {"xs": [], "ys": [], "ts": []}
        if self.ps:
            a, b = m.estimators_
            return {"xs": [self.R(r) for r in a.X_], "ys": [scale(v) for v in a.y_],
                    "ts": [scale(v) for v in b.y_]}
        return {"xs": [self.R(r) for r in m.X_], "ys": [scale(v) for v in m.y_], "ts": []}

    def proj(self, o):
        d = self.hist(o.Xi, o.yi)
        d["nm"] = len(o.models)
        d["models"] = [self.model(m) for m in o.models]
        return d

    def res(self, r):
        if r is None:
            return {"xs": [], "ys": [], "ts": [], "fun": 0, "x": 0, "nm": 0}
        out = {"xs": self.I.many(r.x_iters), "nm": len(r.models), "x": self.I(r.x),
               "fun": scale(r.fun), "ys": [scale(v) for v in r.func_vals],
               "ts": [scale(t) for t in r.log_time] if self.ps else []}
        return out

    def logs(self):
        """Training sets and candidates since the last event."""
        fits, cands = [], []
        n = self.space.transformed_n_dims
        raw = [e for e in stubs.LOG if e[0] == "fit"]
        if self.stub:
            if self.ps:
                for a, b in zip(raw[0::2], raw[1::2]):
                    fits.append({"xs": [self.R(r) for r in a[1]], "ys": [scale(v) for v in a[2]],
                                 "ts": [scale(v) for v in b[2]]})
            else:
                for a in raw:
                    fits.append({"xs": [self.R(r) for r in a[1]], "ys": [scale(v) for v in a[2]],
                                 "ts": []})
            seen = set()
            for e in stubs.LOG:
                if e[0] == "pred" and e[2] and len(e[1]) > 3:
                    k = e[1].tobytes()
                    if k not in seen:
                        seen.add(k)
                        cands += self.I.many(self.space.inverse_transform(e[1]))
        stubs.LOG.clear()
        return fits, sorted(set(cands))

    def event(self, op, o, err="", **kw):
        # intern the points of the event first: training rows are looked up
        e = {"op": op, "o": o, "err": err}
        e.update(kw)
        e["all"] = [self.proj(x) for x in self.opts]
        e["fits"], e["cands"] = self.logs()
        e["old"] = [self.res(r) for r in self.old]
        e["base"] = self.basefp() == self.base0
        self.ev.append(e)

    # ------------------------------------------------------------ arguments
    def insp(self, pts):
        try:
            return all(len(p) == len(self.myspace.dimensions) and p in self.myspace and
                       self.typed(p) for p in pts)
        except Exception:
            return False

    def typed(self, p):
        from skopt.space import Integer, Real
        for v, d in zip(p, self.myspace.dimensions):
            if isinstance(d, Integer) and not isinstance(v, (int, np.integer)):
                return False
            if isinstance(d, Real) and not isinstance(v, (float, np.floating)):
                return False
        return True

    def yval(self):
        v = self.rng.choice([-7, -6, -3, -3, 0, 1, 1, 2, 5, 8, 11]) / 4
        if self.ps:
            # keep times apart from values: both larger and smaller
            return (v, math.exp(self.rng.choice([-58, -12, -5, 0, 3, 9, 17, 45]) / 4))
        return self.rng.choice([v, v, np.float64(v), int(v)])

    def obs(self, x, y):
        if self.ps:
            return {"x": self.I(x), "y": scale(y[0]), "t": scale(math.log(y[1]))}
        return {"x": self.I(x), "y": scale(y), "t": 0}

    def point(self):
        r = self.rng.random()
        if self.pool and r < 0.55:
            return list(self.pool.pop(0))
        if r < 0.65 and self.opts[0].Xi:
            return list(self.rng.choice(self.opts[0].Xi))
        return self.myspace.rvs(random_state=self.rng.randrange(2 ** 31))[0]

    # ------------------------------------------------------------ operations
    def do(self, op):
        k = op["k"]
        o = min(op["o"], len(self.opts))
        opt = self.opts[o - 1]
        self.old = list(self.results)
        stubs.LOG.clear()
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            getattr(self, "do_" + k)(op, o, opt)

    def do_ask(self, op, o, opt):
        try:
            x = opt.ask()
        except Exception as e:
            return self.event("ask", o, errname(e), resp=0, insp=True)
        self.pool = [list(x)]
        self.event("ask", o, resp=self.I(x), insp=self.insp([x]))

    def do_askn(self, op, o, opt):
        op = dict(op, n=op["n"] + self.scn.get("wide", 0))
        try:
            xs = opt.ask(n_points=op["n"], strategy=op["s"])
        except Exception as e:
            return self.event("askn", o, errname(e), n=op["n"], s=op["s"], resp=[], insp=True)
        self.pool = [list(x) for x in xs]
        self.event("askn", o, n=op["n"], s=op["s"], resp=self.I.many(xs), insp=self.insp(xs))

    def do_tell(self, op, o, opt):
        m, fit = op["m"], op["fit"]
        if m > 1 and self.scn.get("long"):
            m += self.rng.choice([1, 3, 4, 7])
        if self.scn.get("huge"):
            m += self.rng.choice([5, 30, 90])
        xs = [self.point() for _ in range(m)]
        ys = [self.yval() for _ in range(m)]
        obs = [self.obs(x, y) for x, y in zip(xs, ys)]
        r, err = None, ""
        kw = {} if fit and self.rng.random() < 0.7 else {"fit": fit}
        try:
            if m == 1 and self.rng.random() < 0.8:
                y = ys[0]
                if self.ps and self.rng.random() < 0.5:
                    y = list(y)
                r = opt.tell(xs[0], y, **kw)
            else:
                if self.ps and self.rng.random() < 0.5:
                    ys = [list(y) for y in ys]
                r = opt.tell(xs, ys, **kw)
        except Exception as e:
            err = errname(e)
        self.event("tell", o, err, obs=obs, fit=fit, res=self.res(r))
        self.keep(r)

    def do_run(self, op, o, opt):
        obs, r, err = [], None, ""
        k = op["m"] + (self.rng.choice([0, 1, 4]) if self.scn.get("long") else 0)

        def func(x):
            y = self.yval()
            obs.append(self.obs(x, y))
            return y
        try:
            r = opt.run(func, n_iter=k)
        except Exception as e:
            err = errname(e)
        self.event("run", o, err, k=k, obs=obs, res=self.res(r))
        self.keep(r)

    def keep(self, r):
        if r is not None:
            self.results.append(r)

    def do_result(self, op, o, opt):
        r, err = None, ""
        try:
            r = opt.get_result()
        except Exception as e:
            err = errname(e)
        if opt.Xi:
            self.event("result", o, err, res=self.res(r))
            self.keep(r)

    def do_refresh(self, op, o, opt):
        err = ""
        try:
            opt.update_next()
        except Exception as e:
            err = errname(e)
        self.event("refresh", o, err)

    def do_copy(self, op, o, opt):
        err = ""
        try:
            c = opt.copy(random_state=self.rng.randrange(1000))
            self.opts.append(c)
        except Exception as e:
            err = errname(e)
            raise
        self.event("copy", o, err)

    def bads(self):
        out = OUT[self.scn["space"]]
        ok = self.myspace.rvs(random_state=self.rng.randrange(2 ** 31))[0]
        ok2 = self.myspace.rvs(random_state=self.rng.randrange(2 ** 31))[0]
        y = (1.0, 2.0) if self.ps else 1.0
        # batches of two to six with one invalid entry
        k = self.rng.choice([2, 3, 3, 4, 6])
        oks = self.myspace.rvs(k, random_state=self.rng.randrange(2 ** 31))
        at = self.rng.randrange(k)

        def but(v, seq=None):
            seq = [y] * k if seq is None else list(seq)
            seq[at] = v
            return seq
        b = {
            "oob": lambda o: o.tell(out, y),
            "short": lambda o: o.tell(ok[:-1], y),
            "long": lambda o: o.tell(ok + [0], y),
            "ystr": lambda o: o.tell(ok, "1.0"),
            "ynone": lambda o: o.tell(ok, None),
            "yscalarbatch": lambda o: o.tell([ok, ok2], 1.0),
            "shorty": lambda o: o.tell([ok, ok2], [y]),
            "longy": lambda o: o.tell([ok, ok2], [y, y, y]),
            "oobbatch": lambda o: o.tell(but(out, oks), [y] * k),
            "shortbatch": lambda o: o.tell(but(ok[:-1], oks), [y] * k),
            "longbatch": lambda o: o.tell(but(ok + [0], oks), [y] * k),
            "badybatch": lambda o: o.tell(oks, but("a")),
            "noneybatch": lambda o: o.tell(oks, but(None)),
            "ask0": lambda o: o.ask(n_points=0),
            "askneg": lambda o: o.ask(n_points=-1),
            "askfloat": lambda o: o.ask(n_points=2.0),
            "askstr": lambda o: o.ask(n_points="2"),
            "strategy": lambda o: o.ask(n_points=2, strategy="cl_median"),
            "strategy2": lambda o: o.ask(n_points=2, strategy=None),
        }
        if self.ps:
            b.update({"scalar": lambda o: o.tell(ok, 1.0),
                      "triple": lambda o: o.tell(ok, (1.0, 2.0, 3.0)),
                      "scalars": lambda o: o.tell([ok, ok2], [1.0, 2.0]),
                      "scalarbatch": lambda o: o.tell(oks, but(1.0)),
                      "triplebatch": lambda o: o.tell(oks, but((1.0, 2.0, 3.0))),
                      "timestrbatch": lambda o: o.tell(oks, but((1.0, "2"))),
                      "time0": lambda o: o.tell(ok, (1.0, 0.0)),
                      "timeneg": lambda o: o.tell(ok, (1.0, -1.0)),
                      "timenegbatch": lambda o: o.tell(oks, but((1.0, -1.0)))})
        else:
            b["ylist"] = lambda o: o.tell(ok, [1.0])
            b["ypair"] = lambda o: o.tell(ok, (1.0, 2.0))
        return b

    def do_bad(self, op, o, opt):
        b = self.bads()
        kind = op.get("kind") or self.rng.choice(sorted(b))
        if kind not in b:
            return
        err = ""
        try:
            b[kind](opt)
        except Exception as e:
            err = errname(e)
        self.event("bad", o, err, kind=kind)


def drive(scn):
    r = Rec(scn)
    for op in scn["ops"]:
        r.do(op)
    return {"cfg": r.cfg, "ev": r.ev}


# ------------------------------------------------------------------ scenarios
ACQ = ["EI", "LCB", "PI", "gp_hedge"]
GENS = ["", "", "lhs", "halton", "hammersly", "sobol", "grid"]


def scenarios(ctx, num, filt=None, ps=None, bases=("stub",), spaces=None, need=None):
    """Scenarios from behaviours generated by TLC for several constants."""
    rng = ctx.rng("opt")
    out = []
    consts = [dict(NINIT=n, HASMODEL=h, QCAP=q, GEN=False)
              for n, h, q in [(2, True, 0), (3, True, 2), (0, True, 1), (5, True, 0),
                              (2, False, 0), (4, True, 3), (1, True, 0)]]
    per = max(1, num // len(consts)) + 1
    gen = core.together(*[lambda c=c, ci=ci: core.generate(
        ctx, "MCOptimizer", "MCOptimizer_gen.cfg", c, num=per * (8 if filt else 4), depth=13,
        seed=ctx.seed * 100 + ci) for ci, c in enumerate(consts)])
    for c, seqs in zip(consts, gen):
        if filt:
            seqs = [s for s in seqs if filt(s)]
        # TLC prints every successor of the last step: keep one per prefix
        seen, uniq = set(), []
        for s in seqs:
            k = str(s[:-1])
            if k not in seen:
                seen.add(k)
                uniq.append(s)
        rng.shuffle(uniq)
        for s in uniq[:per]:
            isps = rng.random() < 0.25 if ps is None else ps
            base = rng.choice(bases) if c["HASMODEL"] else "none"
            if base == "none":
                isps = False
            space = rng.choice(spaces or list(SPACES))
            gen = rng.choice(GENS) if space != "catonly" else ""
            if gen in ("sobol", "grid", "lhs") and (c["NINIT"] == 0):
                gen = ""
            out.append({"ops": s, "ninit": c["NINIT"], "q": c["QCAP"], "base": base,
                        "acq": rng.choice(["EIps", "PIps"]) if isps else rng.choice(ACQ),
                        "space": space, "gen": gen, "seed": rng.randrange(10 ** 6),
                        "multi": rng.random() < .3, "inst": True,
                        "long": base == "stub" and rng.random() < .4,
                        "wide": rng.choice([3, 6, 9]) if base == "stub" and rng.random() < .2 else 0,
                        "huge": base in ("stub", "none") and rng.random() < .06})
    return out


# ---------------------------------------------------------------------- checks
def kinds(s):
    return [o["k"] for o in s]


FILTERS = {
    "O03": lambda s: "bad" in kinds(s[:-1]),
    "O05": lambda s: "askn" in kinds(s[:-1]),
    "O07": lambda s: "copy" in kinds(s[:-3]) and any(o["o"] > 1 for o in s),
}
EXPECT = {
    "O01": ["NextDesignPoint", "FreshRandomPoint", "SuggestionFromSurrogate", "NoSurrogateDuringDesign",
            "BatchFollowsDesign", "RunFollowsDesign", "SurrogateOnceDesignIsDone",
            "AskWithoutModelIsAnError"],
    "O02": ["HistoryAppended", "ResultHistory", "ResultIsFirstMinimum", "OldResultsKept"],
    "O03": ["InvalidCallRaises", "SuggestionSurvives", "DesignSurvives", "BatchSurvives"],
    "O04": ["SuggestionStable", "BatchStable", "BatchFromCurrentHistory", "BatchRecomputed",
            "RefreshAnswers"],
    "O05": ["BatchSize", "LiarModelForEveryPoint", "LiarTrainingSets", "LiarTimes", "RandomBatchDistinct"],
    "O06": ["TrainedOnEverything", "QueueBounded", "ModelsAre", "NoTrainingOnRequest",
            "BaseEstimatorUntouched"],
    "O07": ["CopyHasHistory", "CopyHasSurrogate", "OthersUnaffected", "CopyNextDesignPoint",
            "CopyTrainedOnEverything", "CopyQueueBounded", "CopySuggestionFromSurrogate"],
    "O09": ["TimesAreLogged", "ResultTimes", "TimesTrainedSeparately", "ResultValuesWithoutTimes"],
}


def bad_scenarios(ctx):
    """Every kind of rejected call, before, at and after the end of the design."""
    out = []
    rng = ctx.rng("bad")
    probe = Rec({"seed": 1, "base": "stub", "acq": "EIps", "gen": "", "space": "mixed",
                 "ninit": 2, "q": 0})
    allk = sorted(set(probe.bads()) | {"ylist", "ypair"})
    for acq in ("EI", "EIps"):
        for space in ("mixed", "real2", "cats", "one", "ints", "catonly", "log"):
            for pre in (0, 1, 3):
                ops = []
                if pre:
                    ops.append({"k": "tell", "o": 1, "m": pre, "fit": True})
                for kind in allk:
                    ops += [{"k": "ask", "o": 1}] if rng.random() < .5 else \
                        [{"k": "askn", "o": 1, "n": 2, "s": "cl_min"}]
                    ops += [{"k": "bad", "o": 1, "kind": kind}]
                    ops += [ops[-2]]
                out.append({"ops": ops, "ninit": 3, "q": 0, "base": "stub", "acq": acq,
                            "space": space, "gen": rng.choice(["", "halton", "hammersly"])
                            if space != "catonly" else "",
                            "seed": rng.randrange(10 ** 6), "multi": False})
    return out


def again_scenarios(ctx, scns):
    """The same request before and after something happened in between."""
    out, rng = [], ctx.rng("again")
    for s in scns:
        s = _copy.deepcopy(s)
        at = rng.randint(0, len(s["ops"]))
        q = rng.choice([{"k": "askn", "o": 1, "n": rng.choice([1, 2, 3]), "s": rng.choice(["cl_min", "cl_mean", "cl_max"])},
                        {"k": "ask", "o": 1}])
        mid = rng.choice([[{"k": "tell", "o": 1, "m": 1, "fit": False}], [{"k": "tell", "o": 1, "m": 1, "fit": True}],
                          [{"k": "tell", "o": 1, "m": 2, "fit": False}], [{"k": "refresh", "o": 1}],
                          [{"k": "tell", "o": 1, "m": 1, "fit": False}, {"k": "ask", "o": 1}]])
        s["ops"] = s["ops"][:at] + [q] + mid + [dict(q), dict(q)] + s["ops"][at:at + 2]
        s["seed"] += 1
        out.append(s)
    return out


def models(ctx):
    core.together(
        lambda: core.model(ctx, "MCOptimizer", constants=dict(MAXOPS=ctx.n(4, 6))),
        lambda: core.model(ctx, "MCOptimizer", constants=dict(MAXOPS=ctx.n(4, 6), QCAP=1, GEN=False,
                                                              NINIT=1)))


def run(ctx):
    models(ctx)
    ps = {"O09": True}.get(ctx.pid)
    # one in fifteen with a surrogate of the package itself
    scns = scenarios(ctx, ctx.n(450, 6000), FILTERS.get(ctx.pid), ps=ps,
                     bases=("stub",) * 56 + ("GP", "RF", "ET", "GBRT"))
    if ctx.pid == "O03":
        scns = bad_scenarios(ctx) + scns[:ctx.n(200, 6000)]
    if ctx.pid == "O04":
        scns += again_scenarios(ctx, scns[:ctx.n(120, 2000)])
    core.traces(ctx, "opt", "TraceOptimizer", drive, scns, EXPECT[ctx.pid])
    if ctx.pid == "O07":      # the settings of the acquisition, too
        import acq
        acq.run(ctx)
