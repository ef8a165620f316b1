"""Reporting tools: names (U01), expected minimum (U02), traces of convergence
and regret (V01), plots of evaluations (V02) and of the model (V03)."""
import copy
import math
import random
import warnings

import numpy as np

import core
from enc import py
from sklearn.base import BaseEstimator, RegressorMixin

CODE, UNIT, Q = 100000, 840, 16.3713
BOUND = 2 ** 30


def code(v):
    return int(max(-BOUND, min(BOUND, round(float(v) * CODE))))


class Lin(RegressorMixin, BaseEstimator):
    """Integer predictions computed from the columns."""
    def __init__(self, a=(), id=1, add=False):
        self.a, self.id, self.add = a, id, add

    def predict(self, X, return_std=False):
        q = np.rint(np.asarray(X, dtype=float) * Q).astype(int)
        s = ((q * np.array(self.a)) % 97).sum(axis=1)
        mu = s if self.add else (s % 97) ** 2 % 101
        mu = (mu + 1000 * self.id).astype(float)
        return (mu, self.sd(q)) if return_std else mu

    @staticmethod
    def sd(q):
        return 1. + q.sum(axis=1) % 5


# -------------------------------------------------------------------- spaces
LOGS = [0.01, 0.1, 0.3, 0.7, 1., 7., 50., 200., 300.]


class Dim:
    def __init__(self, rng, kind, i, norm, named):
        from skopt.space import Categorical, Integer, Real
        self.kind, self.cat, self.log, self.const = kind, kind in ("cat", "one"), kind in ("rlog", "ilog"), kind == "one"
        self.name = (rng.choice(["lr", "depth", "C", "x y"]) + str(i)) if named else None
        kw = {"name": self.name, "transform": "normalize"} if norm else {"name": self.name}
        if kind == "real":
            self.low, self.high = rng.choice([(-2, 2), (0, 1), (-5.5, -1.), (1., 40.)])
            self.vals = [self.low + (self.high - self.low) * k / 8 for k in range(9)]
            self.dim = Real(float(self.low), float(self.high), **kw)
        elif kind == "rlog":
            self.low, self.high = sorted(rng.sample(LOGS, 2))
            self.vals = [v for v in LOGS if self.low <= v <= self.high] + [self.low, self.high]
            self.dim = Real(self.low, self.high, "log-uniform", **kw)
        elif kind == "int":
            self.low, self.high = rng.choice([(0, 9), (-3, 3), (1, 30), (5, 7)])
            self.vals = list(range(self.low, self.high + 1))
            self.dim = Integer(self.low, self.high, **kw)
        elif kind == "ilog":
            self.low, self.high = rng.choice([(1, 100), (2, 300), (1, 9)])
            self.vals = [v for v in (1, 2, 3, 5, 9, 30, 99, 100, 250, 300) if self.low <= v <= self.high]
            self.dim = Integer(self.low, self.high, "log-uniform", **kw)
        else:
            self.low, self.high = 0, 0
            self.vals = ["only"] if self.const else rng.choice(
                [["b", "a", "c"], ["u", "v"], [10, 2, 30, 4], ["w", "x", "y", "z", "q"], [True, False]])
            if not norm:
                kw["transform"] = "onehot" if self.const else rng.choice(["onehot", "onehot", "label"])
            self.dim = Categorical(list(self.vals), **kw)
            self.index = {v: k for k, v in enumerate(self.vals)}

    def code(self, v):
        return self.index[v] * CODE if self.cat else code(v)

    def q(self, v):
        """Codes of the columns of a value."""
        t = np.asarray(self.dim.transform([v]), dtype=float).reshape(-1)
        return [int(k) for k in np.rint(t * Q)]

    def qx(self, xi):
        """... of a coordinate of a plot."""
        if not self.cat:
            return self.q(float(xi))
        k = int(round(float(xi)))
        return self.q(self.vals[k]) if 0 <= k < len(self.vals) else [-99]

    def cx(self, xi):
        return code(xi)

    def spec(self):
        return {"cat": self.cat, "n": len(self.vals), "log": self.log, "low": code(self.low), "high": code(self.high),
                "name": self.name or "", "const": self.const, "cnames": [str(v) for v in self.vals] if self.cat else []}


class Session:
    R = 3

    def __init__(self, scn):
        from skopt.space import Space
        self.rng = rng = random.Random("report/%s" % scn["seed"])
        self.scn = scn
        norm, named = rng.random() < .4, rng.choice(["all", "all", "none", "some"])
        kinds = scn.get("dims") or [rng.choice(["real", "rlog", "int", "ilog", "cat", "cat", "one"])
                                    for _ in range(rng.randint(1, 4))]
        if all(k == "one" for k in kinds):
            kinds[0] = "int"
        self.dims = [Dim(rng, k, i, norm, named == "all" or (named == "some" and rng.random() < .5))
                     for i, k in enumerate(kinds)]
        self.space = Space([d.dim for d in self.dims])
        self.a = [[rng.randint(1, 90) for _ in d.q(d.vals[0])] for d in self.dims]
        self.flat = [v for a in self.a for v in a]
        self.add = rng.random() < .5
        self.nm = rng.choice([1, 2, 3])
        self.obs = {r: [] for r in range(1, self.R + 1)}
        self.ev = []

    def model(self, i):
        return Lin(self.flat, i, self.add)

    def result(self, r, real=False):
        from skopt.utils import create_result
        X = [[v for v in x] for x, _ in self.obs[r]]
        y = [float(y) for _, y in self.obs[r]]
        specs = None
        if self.rng.random() < .7:
            specs = {"args": {"n_random_starts": self.rng.choice([None, None, 1, 5]), "acq_func": self.acq,
                              "acq_func_kwargs": self.akw}, "function": "base_minimize"}
        else:
            self.acq, self.akw = "EI", {}
        return create_result(X, y, self.space, None, specs, [self.model(k + 1) for k in range(self.nm)])

    acq, akw = "EI", None

    def shot(self, res):
        return repr([res.x, res.fun, res.x_iters, list(res.func_vals), [m.__dict__ for m in res.models],
                     res.specs, [(d, d.name, getattr(d, "transform_", 0)) for d in res.space.dimensions]])

    # --------------------------------------------------------------- traces
    def traces(self, op):
        import matplotlib.pyplot as plt
        from skopt.plots import plot_convergence, plot_regret
        rng = self.rng
        rs = [r for r in self.obs if self.obs[r]]
        args, enc, keep = [], [], []
        for _ in range(rng.randint(1, 3)):
            first = rng.choice(rs)
            same = [r for r in rs if len(self.obs[r]) == len(self.obs[first])]
            if rng.random() < .5:
                rr = [first] + [rng.choice(same) for _ in range(rng.choice([0, 1, 1, 2, 3, 5, 6, 7]))]
                a = [self.result(r) for r in rr]
                keep += a
                enc.append({"rs": rr, "list": True})
            else:
                a = self.result(first)
                keep.append(a)
                enc.append({"rs": [first], "list": False})
            args.append(("run %d" % len(args), a) if rng.random() < .4 else a)
        low = min(y for r in rs for _, y in self.obs[r])
        tm = rng.choice([None, None, 0, low, low - 2])
        before = [self.shot(r) for r in keep]
        kw = {}
        fig, ax = plt.subplots()
        if rng.random() < .5:
            kw["ax"] = ax
            other = plt.figure().add_subplot()
        if tm is not None:
            kw["true_minimum"] = rng.choice([float, int])(tm)
        scale = rng.choice([None, None, "symlog", "linear"])
        if scale:
            kw["yscale"] = scale
        out = (plot_convergence if op == "conv" else plot_regret)(*args, **kw)
        lines = []
        for ln in out.lines:
            x, y = list(ln.get_xdata()), list(ln.get_ydata())
            lines.append({"x": [int(round(v)) for v in x], "y": [int(round(v * UNIT)) for v in y],
                          "mark": ln.get_linestyle() == "--"})
        self.ev.append({"op": op, "args": enc, "hastm": tm is not None, "tm": tm or 0, "lines": lines,
                        "same": out is ax, "scale": out.get_yscale() == (scale or "linear"),
                        "kept": before == [self.shot(r) for r in keep]})

    # -------------------------------------------------------------- matrices
    def star(self):
        """A point for the plots: none (the best result) or one of our own."""
        if self.rng.random() < .5:
            return None
        return [self.rng.choice(d.vals) for d in self.dims]

    def cell(self, ax, i, j, sh, np_, contour, diag):
        from matplotlib.collections import PathCollection
        c = {"on": bool(ax.axison)}
        if j > i:
            return c
        di, dj = self.dims[sh[i]], self.dims[sh[j]]
        fx, fy = ax.xaxis.get_major_formatter(), ax.yaxis.get_major_formatter()
        c.update(xl=ax.get_xlabel(), yl=ax.get_ylabel(), xlog=ax.get_xscale() == "log", ylog=ax.get_yscale() == "log",
                 xlim=[code(v) for v in ax.get_xlim()], ylim=[code(v) for v in ax.get_ylim()],
                 xn=[fx(k, 0) for k in range(len(dj.vals))] if dj.cat else [],
                 yn=[fy(k, 0) for k in range(len(di.vals))] if di.cat else [])
        if i == j:
            c["bins"] = self.bins(ax)
            return c
        sc = [p for p in ax.collections if type(p) is PathCollection]
        pts = [[[code(v) for v in o] for o in np.asarray(p.get_offsets())] for p in sc]
        many = [k for k in range(len(pts)) if sc[k].get_array() is not None or len(pts[k]) > 1]
        one = [k for k in range(len(pts)) if k not in many]
        if len(one) == 2:      # a single evaluation and the minimum, which is drawn last
            many, one = one[:1], one[1:]
        c["pts"] = pts[many[0]] if many else []
        arr = sc[many[0]].get_array() if many else None
        c["order"] = [int(v) for v in arr] if arr is not None else []
        c["star"] = pts[one[0]][0] if len(one) == 1 else [BOUND, BOUND]
        return c

    @staticmethod
    def bins(ax):
        return [{"n": int(round(p.get_height())), "lo": code(p.get_x()), "hi": code(p.get_x() + p.get_width())}
                for p in ax.patches]

    def asked(self, op):
        """Dimensions to show: all that vary, or some in any order."""
        rng = self.rng
        pool = [k for k, d in enumerate(self.dims) if not d.const or op == "evals"]
        if rng.random() < .35 and not all(d.const for d in self.dims):
            return None, [], [k for k, d in enumerate(self.dims) if not d.const]
        idx = rng.sample(pool, rng.randint(1, len(pool)))
        names = [self.dims[k].name if self.dims[k].name and rng.random() < .5 else k for k in idx]
        return names, [k + 1 for k in idx], idx

    def matrix(self, op):
        import matplotlib.axes
        import matplotlib.pyplot as plt
        from skopt.plots import plot_evaluations, plot_objective
        rng = self.rng
        r = rng.choice([r for r in self.obs if len(self.obs[r]) > 1])
        self.acq, self.akw = "EI", None
        res = self.result(r)
        names, asked, sh = self.asked(op)
        kw, labels = {}, []
        if names is not None:
            kw["plot_dims"] = names
        if rng.random() < .3:
            labels = kw["dimensions"] = ["label %d" % k for k in range(len(sh))]
        e = {"op": op, "r": r, "asked": asked, "labels": labels, "star": [], "points": True}
        before = self.shot(res)
        if op == "evals":
            e["nbins"] = rng.choice([2, 5, 20])
            ax = plot_evaluations(res, bins=e["nbins"], **kw)
            calls = []
        else:
            e["np"], e["ns"] = rng.choice([2, 3, 4, 5]), rng.choice([1, 4, 8])
            st = self.star()
            if st is not None:
                kw["minimum"] = list(st)
                e["star"] = [d.code(v) for d, v in zip(self.dims, st)]
            src = rng.choice(["result", "list"] + (["random"] * 3 if self.add else []))
            own = [rng.choice(d.vals) for d in self.dims]
            kw["sample_source"] = list(own) if src == "list" else src
            e["random"] = src == "random"
            used = own if src == "list" else res.x
            e["samples"] = [] if src == "random" else [[d.q(v) for d, v in zip(self.dims, used)]]
            if src != "random":
                e["ns"] = 1
            e["points"] = kw["show_points"] = rng.random() < .7
            calls, orig = [], matplotlib.axes.Axes.contourf

            def contourf(ax, *a, **k):
                calls.append((ax, a[:3]))
                return orig(ax, *a, **k)
            matplotlib.axes.Axes.contourf = contourf
            try:
                ax = plot_objective(res, n_points=e["np"], n_samples=8 if src == "random" else 250,
                                    levels=rng.choice([3, 10]), size=rng.choice([1, 2]), **kw)
            finally:
                matplotlib.axes.Axes.contourf = orig
            if src == "random":
                e["ns"] = 8
        n = len(sh)
        grid = np.array([[ax]]) if not isinstance(ax, np.ndarray) else ax
        e["cells"] = [[self.cell(grid[i, j], i, j, sh, 0, None, None) if i < n and j < n else {"on": False}
                       for j in range(grid.shape[1])] for i in range(grid.shape[0])]
        if op == "obj" and grid.shape == (n, n):
            for i in range(n):
                for j in range(i + 1):
                    self.model_cell(e, grid[i, j], e["cells"][i][j], i == j, self.dims[sh[i]], self.dims[sh[j]], calls)
        e["kept"] = before == self.shot(res)
        self.ev.append(e)

    def model_cell(self, e, ax, c, diag, di, dj, calls):
        ns = e["ns"]
        if diag:
            pd = [ln for ln in ax.lines if ln.get_linestyle() != "--"]
            at = [ln for ln in ax.lines if ln.get_linestyle() == "--"]
            xi = [float(v) for v in pd[0].get_xdata()] if pd else []
            c["gx"] = [dj.cx(v) for v in xi]
            c["gc"] = [dj.qx(v) for v in xi]
            c["v"] = [int(round(float(v) * ns)) for v in pd[0].get_ydata()] if pd else []
            c["at"] = code(at[0].get_xdata()[0]) if at else BOUND
            return
        mine = [a for x, a in calls if x is ax]
        c.update(self.contour(mine[-1] if mine else ([], [], []), di, dj, ns))

    @staticmethod
    def contour(a, di, dj, ns):
        """x axis: dj, y axis: di"""
        xi, yi, zi = ([float(v) for v in np.ravel(a[0])], [float(v) for v in np.ravel(a[1])], np.asarray(a[2]))
        return {"gx": [dj.cx(v) for v in xi], "gc": [dj.qx(v) for v in xi],
                "gy": [di.cx(v) for v in yi], "gr": [di.qx(v) for v in yi],
                "z": [[int(round(float(v) * ns)) for v in row] for row in zi]}

    def hist(self):
        import matplotlib.pyplot as plt
        from skopt.plots import plot_histogram
        rng = self.rng
        r = rng.choice([r for r in self.obs if self.obs[r]])
        res = self.result(r)
        d = rng.randrange(len(self.dims))
        D = self.dims[d]
        before, nb = self.shot(res), rng.choice([2, 5, 20])
        ax = plot_histogram(res, D.name if D.name and rng.random() < .5 else d, bins=nb,
                            **({"ax": plt.subplots()[1]} if rng.random() < .5 else {}))
        e = {"op": "hist", "r": r, "d": d + 1, "nbins": nb, "xlog": ax.get_xscale() == "log", "xl": ax.get_xlabel(),
             "kept": before == self.shot(res), "bars": [], "bins": []}
        if D.cat:
            pos = {round(float(t), 6): lb.get_text() for t, lb in zip(ax.get_xticks(), ax.get_xticklabels())}
            e["bars"] = [{"name": pos.get(round(p.get_x() + p.get_width() / 2, 6), "?"), "n": int(round(p.get_height()))}
                         for p in ax.patches]
        else:
            e["bins"] = self.bins(ax)
        self.ev.append(e)

    # ------------------------------------------------------ partial dependence
    def pd(self):
        from skopt.plots import partial_dependence
        rng = self.rng
        n = len(self.dims)
        i = rng.randrange(n)
        j = rng.choice([k for k in range(n) if k != i]) if n > 1 and rng.random() < .6 else None
        ns, np_, m = rng.choice([1, 2, 4]), rng.choice([2, 3, 5]), rng.randint(1, 3)
        pts = [[rng.choice(d.vals) for d in self.dims] for _ in range(ns)]
        X = self.space.transform(pts)
        before = (X.copy(), repr(pts))
        kw = {"n_points": np_}
        if ns == 1 and rng.random() < .7:
            kw["x_eval"] = pts[0]
        else:
            kw["sample_points"] = X if rng.random() < .7 else X.tolist()
        out = partial_dependence(self.space, self.model(m), i, **({} if j is None else {"j": j}), **kw)
        di = self.dims[i]
        e = {"op": "pd", "i": i + 1, "j": 0 if j is None else j + 1, "m": m, "np": np_,
             "samples": [[d.q(v) for d, v in zip(self.dims, p)] for p in pts],
             "kept": bool(np.array_equal(before[0], X)) and before[1] == repr(pts), "gj": [], "cj": [], "v": [], "z": []}
        gi = [float(v) for v in (out[0] if j is None else out[1])]
        e["gi"], e["ci"] = [di.cx(v) for v in gi], [di.qx(v) for v in gi]
        if j is None:
            e["v"] = [int(round(float(v) * ns)) for v in out[1]]
        else:
            gj = [float(v) for v in out[0]]
            e["gj"], e["cj"] = [self.dims[j].cx(v) for v in gj], [self.dims[j].qx(v) for v in gj]
            e["z"] = [[int(round(float(v) * ns)) for v in row] for row in np.asarray(out[2])]
        self.ev.append(e)

    def obj2(self):
        import matplotlib.axes
        import matplotlib.pyplot as plt
        from matplotlib.collections import PathCollection
        from skopt.plots import plot_objective_2D
        rng = self.rng
        pool = [k for k, d in enumerate(self.dims) if not d.const]
        if len(pool) < 2:
            return
        r = rng.choice([r for r in self.obs if len(self.obs[r]) > 1])
        res = self.result(r)
        i, j = rng.sample(pool, 2)
        e = {"op": "obj2", "r": r, "i": i + 1, "j": j + 1, "np": rng.choice([2, 3, 5]), "star": []}
        kw = {}
        st = self.star()
        if st is not None:
            kw["minimum"] = list(st)
            e["star"] = [d.code(v) for d, v in zip(self.dims, st)]
        own = [rng.choice(d.vals) for d in self.dims] if rng.random() < .6 else None
        kw["sample_source"] = "result" if own is None else list(own)
        e["samples"] = [[d.q(v) for d, v in zip(self.dims, own or res.x)]]
        before = self.shot(res)
        calls, orig = [], matplotlib.axes.Axes.contourf

        def contourf(ax, *a, **k):
            calls.append(a[:3])
            return orig(ax, *a, **k)
        matplotlib.axes.Axes.contourf = contourf
        try:
            ident = [self.dims[k].name if self.dims[k].name and rng.random() < .5 else k for k in (i, j)]
            ax = plot_objective_2D(res, ident[0], ident[1], n_points=e["np"],
                                   **({"ax": plt.subplots()[1]} if rng.random() < .5 else {}), **kw)
        finally:
            matplotlib.axes.Axes.contourf = orig
        e.update(self.contour(calls[-1] if calls else ([], [], []), self.dims[j], self.dims[i], 1))
        sc = [[[code(v) for v in o] for o in np.asarray(p.get_offsets())] for p in ax.collections
              if type(p) is PathCollection]
        e["pts"] = next((p for p in sc if len(p) > 1), [])
        e["at"] = next((p[0] for p in sc if len(p) == 1), [BOUND, BOUND])
        e.update(xlog=ax.get_xscale() == "log", ylog=ax.get_yscale() == "log", xl=ax.get_xlabel(), yl=ax.get_ylabel(),
                 kept=before == self.shot(res))
        e["xl"], e["yl"] = [v if self.dims[k].name else "" for v, k in ((e["xl"], i), (e["yl"], j))]
        self.ev.append(e)

    # ---------------------------------------------------------- one dimension
    def gp(self):
        import matplotlib.pyplot as plt
        from skopt.plots import plot_gaussian_process
        rng = self.rng
        rs = [r for r in self.obs if len(self.obs[r]) >= self.nm]
        if len(self.dims) != 1 or self.dims[0].cat or not rs:
            return
        D, r = self.dims[0], rng.choice(rs)
        self.acq = rng.choice(["EI", "PI", "LCB", "gp_hedge"])
        kap, xi = rng.choice([1, 2]), rng.choice([0., 5.])
        self.akw = rng.choice([None, {}, {"kappa": kap, "xi": xi}])
        res = self.result(r)
        kap, xi = (self.akw["kappa"], self.akw["xi"]) if self.akw else (1.96, .01)
        call = rng.choice([-1] + list(range(self.nm)))
        e = {"op": "gp", "r": r, "call": call, "np": rng.choice([3, 6, 9]), "mu": rng.random() < .8,
             "observations": rng.random() < .8, "acq": rng.random() < .7}
        e["next"] = e["acq"] and rng.random() < .7
        before = self.shot(res)
        kw = {} if call < 0 and rng.random() < .5 else {"n_calls": call}
        fig, ax0 = plt.subplots()
        if rng.random() < .5:
            kw["ax"] = ax0
        ax = plot_gaussian_process(res, n_points=e["np"], show_mu=e["mu"], show_observations=e["observations"],
                                   show_acq_func=e["acq"], show_next_point=e["next"],
                                   show_legend=rng.random() < .5, show_title=rng.random() < .5, **kw)
        both = [a for a in ax.figure.axes]
        by = {ln.get_label(): ln for a in both for ln in a.lines}

        def data(label):
            ln = by.get(label)
            return ([], []) if ln is None else ([float(v) for v in np.ravel(ln.get_xdata())],
                                                [float(v) for v in np.ravel(ln.get_ydata())])
        name = "EI" if self.acq == "gp_hedge" else self.acq
        mx, my = data(r"$\mu_{GP}(x)$")
        ax_, ay = data(name + "(x)")
        xs = mx or ax_ or [float(v) for v in np.linspace(D.low, D.high, e["np"])]
        e["gx"], e["gc"] = [D.cx(v) for v in xs], [D.qx(v) for v in xs]
        mod = self.model(self.nm if call < 0 else call + 1)
        X = np.asarray(D.dim.transform(xs), dtype=float).reshape(-1, 1)
        mu, sd = mod.predict(X, return_std=True)
        e["sd"] = [int(v) for v in sd]
        e["line"] = [int(round(v * 100)) for v in my]
        e["lo"], e["hi"] = [], []
        if e["mu"]:
            # the band is the polygon from left to right below and back above
            lo = {k: [] for k in range(len(xs))}
            for p in ax.patches:
                for x, y in p.get_xy():
                    k = int(np.argmin(np.abs(np.array(xs) - x)))
                    lo[k].append(y)
            e["lo"] = [int(round(min(lo[k]) * 100)) if lo[k] else -1 for k in lo]
            e["hi"] = [int(round(max(lo[k]) * 100)) if lo[k] else -1 for k in lo]
        ox, oy = data("Observations")
        e["pts"] = [[code(a), int(round(b))] for a, b in zip(ox, oy)]
        e["fits"], e["acqs"], e["np1"] = [], [], []
        if e["acq"]:
            ys = [y for _, y in self.obs[r]]
            # the drawn values in units of their range
            top = max(abs(v) for v in ay) or 1. if ay else 1.
            e["acqs"] = [int(round(v / top * CODE)) for v in ay]
            for k in range(1, len(ys) + 1):
                want = [self.value(name, m, s, min(ys[:k]), kap, xi) for m, s in zip(mu, sd)]
                if len(want) == len(ay) and all(abs(w - v) <= 1e-6 * max(1e-12, abs(w)) + 1e-12 for w, v in zip(want, ay)):
                    e["fits"].append(k)
            nx, ny = data("Next query point")
            e["np1"] = [D.cx(nx[0]), int(round(ny[0] / top * CODE))] if nx else [BOUND, -BOUND]
        e["kept"] = before == self.shot(res)
        self.ev.append(e)

    @staticmethod
    def value(name, mu, sd, best, kap, xi):
        if name == "LCB":
            return -(mu - kap * sd)
        z = (best - xi - mu) / sd
        cdf = .5 * math.erfc(-z / math.sqrt(2))
        if name == "PI":
            return cdf
        return (best - xi - mu) * cdf + sd * math.exp(-z * z / 2) / math.sqrt(2 * math.pi)

    def go(self):
        import matplotlib
        matplotlib.use("Agg")
        import matplotlib.pyplot as plt
        rng = self.rng
        looks = {"V01": ["conv", "regret"], "V02": ["evals", "evals", "hist"], "V03": ["pd", "pd", "obj", "obj2"]}
        looks = looks[self.scn["pid"]]
        if self.scn["pid"] == "V03" and len(self.dims) == 1 and not self.dims[0].cat:
            looks = ["gp", "gp", "pd", "obj"]
        shown = 0
        ops = self.scn["ops"]
        if self.scn["pid"] != "V03" and rng.random() < .05:
            # a long history
            one = rng.randint(1, self.R)
            ops = [{"op": "obs", "a": one, "c": rng.randint(0, 8)} for _ in range(rng.randint(101, 140))] + ops
        for op in ops:
            if op["op"] == "obs":
                r = op["a"]
                x = [rng.choice(d.vals) for d in self.dims]
                if self.obs[r] and rng.random() < .2:
                    x = list(rng.choice(self.obs[r])[0])
                y = op["c"] - 4 + rng.choice([0, 0, -20, 50]) if self.scn["pid"] != "V03" else 1000 * rng.randint(1, 3) + rng.randint(0, 150)
                self.obs[r].append((x, y))
                self.ev.append({"op": "obs", "r": r, "p": [d.code(v) for d, v in zip(self.dims, x)], "y": y})
                continue
            if shown >= self.scn["looks"] or not any(len(o) > 1 for o in self.obs.values()):
                continue
            shown += 1
            what = looks[op["a"] % len(looks)]
            try:
                if what in ("conv", "regret"):
                    for w in (what, what, "regret"):
                        self.traces(w)
                elif what in ("evals", "obj"):
                    self.matrix(what)
                else:
                    getattr(self, what)()
            finally:
                plt.close("all")
        return {"cfg": {"results": self.R, "dims": [d.spec() for d in self.dims], "a": self.a, "add": self.add,
                        "nm": self.nm}, "ev": self.ev}


# --------------------------------------------------------------------- names
POOL = ["a", "b", "B", "_x", "x1", "x10", "x2", "learning_rate", "C", "z", "A", "alpha", "Beta", "X1", "c", "9", "x 2"]


def names(scn):
    from skopt.space import Categorical, Integer, Real, Space
    from skopt.utils import dimensions_aslist, point_asdict, point_aslist, use_named_args
    rng = random.Random("names/%s" % scn["seed"])
    n = rng.choice([1, 2, 3, 4, 5, 5, 9, 12, 15])
    ids = rng.sample(POOL, n)
    mk = [lambda nm: Real(0., 1., name=nm), lambda nm: Integer(1, 9, name=nm), lambda nm: Categorical("pqr", name=nm)]
    dims = [rng.choice(mk)(nm) for nm in ids]
    given = [(d, d.name) for d in dims]
    ev = []

    def kept():
        return all(a is d and d.name == nm for a, (d, nm) in zip(dims, given)) and len(dims) == n

    def named():
        calls = []
        token = object()

        def f(**kw):
            calls.append([[k, v] for k, v in kw.items()])
            return token
        x = [rng.randrange(1000) for _ in range(n)]
        good, use, use_d = True, list(x), list(dims)
        bad = rng.random()
        names_ = list(ids)
        if bad < .15:
            good, use = False, use + [1]
        elif bad < .3:
            good, use = False, use[:-1]
        elif bad < .4:
            good, k = False, rng.randrange(n)
            use_d[k] = Real(0., 1.)
        elif bad < .5:
            good, k = False, rng.randrange(n)
            use_d[k] = rng.choice([(0., 1.), "a", None, [1, 2]])
        kind = rng.choice([list, tuple, np.array])
        form = use_d if rng.random() < .7 or not good else Space(use_d).dimensions
        err, ret = False, None
        arg = kind(use)
        try:
            g = use_named_args(dimensions=form)(f)
            ret = g(arg)
        except ValueError:
            err = True
        ev.append({"op": "named", "good": good, "names": names_, "x": x,
                   "calls": [[[k, int(v)] for k, v in c] for c in calls], "ret": ret is token, "err": err,
                   "kept": kept() and list(arg) == use})

    def asdict():
        order = rng.sample(range(n), n)
        space = {ids[k]: dims[k] for k in order}
        srt = sorted(ids)
        x = [rng.randrange(1000) for _ in range(n)]
        x0 = list(x)
        before = list(space.items())
        d = point_asdict(space, x)
        back = point_aslist(space, dict(rng.sample(list(d.items()), n)))
        ds = dimensions_aslist(space)
        pos = {id(space[k]): i + 1 for i, k in enumerate([ids[q] for q in order])}
        ev.append({"op": "dict", "sorted": srt, "keys": list(d), "vals": list(d.values()), "x": x0, "back": list(back),
                   "given": [ids[q] for q in order], "names": srt, "dims": [pos.get(id(v), 0) for v in ds],
                   "lists": [dd.name for dd in ds], "lookup": srt,
                   "kept": kept() and list(space.items()) == before and x == x0})

    def look():
        mine = [copy.copy(d) for d in dims]
        for d in mine:
            if rng.random() < .3:
                d.name = None
        sp = Space(mine)
        q, want = [], []
        for _ in range(rng.randint(1, 4)):
            k = rng.randrange(n)
            r = rng.random()
            if r < .4 and mine[k].name:
                q.append(mine[k].name)
                want.append(k + 1)
            elif r < .8:
                q.append(k)
                want.append(k + 1)
            else:
                q.append(rng.choice(["nobody", n + 3]))
                want.append(0)
        got = sp[q[0]] if len(q) == 1 and rng.random() < .7 else sp[q if rng.random() < .6 else tuple(q)]
        got = [got] if isinstance(got, tuple) else got
        enc = []
        for g in got:
            if g == (None, None):
                enc.append(0)
            else:
                enc.append(g[0] + 1 if g[1] is sp.dimensions[g[0]] else -1)
        ev.append({"op": "look", "q": [{"name": v if isinstance(v, str) else ""} for v in q], "want": want, "got": enc,
                   "names": list(sp.dimension_names), "dims": [d.name or "" for d in mine], "kept": kept()})
        return [d.name or "" for d in mine]

    out = []
    for _ in range(scn["n"]):
        ev.clear()
        nm = ids
        w = rng.choice(["named", "named", "dict", "look"])
        if w == "look":
            nm = look()
        else:
            (named if w == "named" else asdict)()
        out.append({"cfg": {"results": 1, "dims": [{"name": v} for v in nm]}, "ev": list(ev)})
    return out


# ----------------------------------------------------------- expected minimum
EM = {"real": [(-2., 2.), (1e-2, 10., "log-uniform")], "one": [(0., 5.)], "norm": [(-1., 3.), (10., 20.), (0., 1.)],
      "mixed": [(0., 4.), ["a", "b", "c"]], "cat": [["a", "b"], ["u", "v", "w"]], "int": [(0, 6), (1., 3.)]}


class Hills:
    """A model with many minima of different depth, a shallow one at a given point."""
    def __init__(self, seed, top):
        r = random.Random("hills/%s" % seed)
        self.w = [r.uniform(2, 9) for _ in range(20)]
        self.top = top

    def predict(self, X, return_std=False):
        X = np.atleast_2d(np.asarray(X, dtype=float))
        m = np.array([sum(math.sin(self.w[i % 20] * v + i) for i, v in enumerate(x))
                      + 8 * math.exp(-float(np.sum((x - self.top) ** 2)) * 4)
                      - 4 * math.exp(-float(np.sum((x - self.top) ** 2)) * 200) for x in X])
        return (m, np.ones(len(X))) if return_std else m


def made(sp, rng):
    """A result put together by hand."""
    from scipy.optimize import OptimizeResult
    from skopt.space import Space
    space = Space(copy.deepcopy(EM[sp]))
    xs = space.rvs(rng.randint(1, 4), random_state=rng.randrange(999))
    ys = [rng.randint(0, 9) / 2.0 for _ in xs]
    x = xs[ys.index(min(ys))]
    top = np.asarray(space.transform([x]), dtype=float)[0]
    return OptimizeResult(space=space, x=x, fun=min(ys), x_iters=xs, func_vals=np.array(ys),
                          models=[Hills(i, top) for i in range(rng.randint(1, 3))])


def searched(base, sp, rng):
    from skopt import Optimizer
    from skopt.utils import cook_estimator
    reg = base if base == "GP" else cook_estimator(base, **({"n_estimators": 8} if base in ("RF", "ET") else {}))
    opt = Optimizer(copy.deepcopy(EM[sp]), base_estimator=reg, n_initial_points=3, random_state=rng.randrange(99),
                    acq_optimizer="sampling", acq_func="EI", acq_optimizer_kwargs={"n_points": 30})

    def f(x):
        s = 0
        for i, v in enumerate(x):
            s += {"a": 1, "b": -1, "c": 0, "u": 2, "v": 0, "w": 1}[v] if isinstance(v, str) else math.sin(2 * v + i)
        return s
    res = None
    for _ in range(rng.randint(4, 7)):
        x = opt.ask()
        res = opt.tell(x, f(x))
    return res


def expected(scn):
    from skopt import expected_minimum, expected_minimum_random_sampling
    rng = random.Random("em/%s" % scn["seed"])
    base, sp = scn["base"], scn["space"]
    res = made(sp, rng) if base == "made" else searched(base, sp, rng)
    ev = []
    space, model = res.space, res.models[-1]

    def look(op):
        seed = rng.randrange(1000)
        n = rng.choice([0, 1, 1, 2, 3, 5, 20]) if op == "em" else rng.choice([1, 10, 200])
        fn = expected_minimum if op == "em" else expected_minimum_random_sampling
        if op == "em" and space.is_partly_categorical:
            n = 100000
        rs = seed if rng.random() < .7 else None
        mk = (lambda: rs) if rs is not None else (lambda: np.random.RandomState(seed))
        shot = repr([res.x, res.fun, res.x_iters, list(res.func_vals), len(res.models), res.space])
        kw = {"random_state": mk()}
        if n != 100000:
            kw["n_random_starts"] = n
        x, fun = fn(res, **kw)
        kw["random_state"] = mk()
        x2, fun2 = fn(res, **kw)
        starts = space.rvs(n, random_state=mk()) if n else []
        pr = lambda p: [float(v) for v in model.predict(space.transform(p))]
        one = lambda p: float(model.predict(space.transform([p]))[0])
        big = n > 1000
        sp_ = pr(starts) if starts else []
        if op == "em" and not big:
            vals = [one(p) for p in [res.x] + starts]
        elif big:
            vals = [min(sp_)]
        else:
            vals = sp_
        member = op == "em" or any(list(p) == list(x) for p in starts)
        ranks = rank([fun, one(x)] + vals)
        e = {"op": "emr" if op == "emr" or big else "em", "fun": ranks[0], "pred": ranks[1], "starts": ranks[2:],
             "again": list(x) == list(x2) and fun == fun2, "member": member or (big and any(list(p) == list(x) for p in starts)),
             "x": [], "lo": [], "hi": [],
             "kept": shot == repr([res.x, res.fun, res.x_iters, list(res.func_vals), len(res.models), res.space])}
        if big:
            e["member"] = any(list(p) == list(x) for p in starts)
        for v, d in zip(x, space.dimensions):
            if hasattr(d, "categories"):
                lo, v_, hi = 0, (1 if v in d.categories else 9), 2
            else:
                lo, v_, hi = code(d.low), code(v), code(d.high)
            e["x"].append(v_)
            e["lo"].append(lo)
            e["hi"].append(hi)
        e["x"] += [1 if len(x) == space.n_dims else 9]
        e["lo"] += [0]
        e["hi"] += [2]
        ev.append(e)
    for _ in range(scn["n"]):
        k = "emr" if rng.random() < .5 else "em"
        if k == "em" and sp == "int":
            k = "emr"
        look(k)
    return {"cfg": {"results": 1}, "ev": ev}


def rank(vals):
    """Ranks of numbers; those within a relative 1e-7 share one."""
    order = sorted(range(len(vals)), key=lambda i: vals[i])
    span = max(1e-3, max(abs(v) for v in vals))
    out, r, start = [0] * len(vals), 0, None
    for i in order:
        if start is None or vals[i] - start > 1e-7 * span:
            r += 1
        start = vals[i]
        out[i] = r
    return out


EXPECT = {"V01": ["RunningMinimum", "CumulativeRegret", "CallsCountedFromOne", "TrueMinimumMarked"],
          "V02": ["EveryEvaluationShown", "BestMarked", "EvaluationsOrdered", "HistogramsCountEvaluations",
                  "LabelledAndScaled", "CategoriesNamed"],
          "V03": ["DiagonalIsPartialDependence", "ContourIsPartialDependence", "PartialDependenceIsTheMean",
                  "MeanAndBandOfTheModel", "ObservationsOfTheModel", "AcquisitionAndItsOptimum", "LineAtTheMinimum",
                  "EvaluationsAndMinimumShown"],
          "U01": ["CalledWithTheNames", "NamesAndPositionsInverse", "DimensionsFoundByName"],
          "U02": ["WithinTheSpace", "ValueIsThePrediction", "NotAboveTheStarts", "BestOfTheSamples", "SameSeedSameAnswer"]}


def drive(scn):
    warnings.simplefilter("ignore")
    if scn["pid"] == "U01":
        return names(scn)
    if scn["pid"] == "U02":
        return expected(scn)
    return Session(scn).go()


def run(ctx):
    pid = ctx.pid
    core.model(ctx, "MCTools", constants={"MaxObs": ctx.n(2, 3)})
    if pid == "U01":
        scns = [{"pid": pid, "seed": "%d/%d" % (ctx.seed, i), "n": 25} for i in range(ctx.n(60, 2000))]
    elif pid == "U02":
        scns = [{"pid": pid, "seed": "%d/%d" % (ctx.seed, i), "n": 4, "base": b, "space": s}
                for i in range(ctx.n(5, 60)) for b in ("GP", "RF", "ET", "GBRT", "made", "made", "made") for s in EM]
    else:
        ops = core.generate(ctx, "MCTools", "MCTools_gen.cfg", num=ctx.n(40, 600), depth=25, seed=ctx.seed)
        rng = ctx.rng("report")
        ops = rng.sample(ops, min(len(ops), ctx.n({"V01": 300, "V02": 240, "V03": 330}[pid], 6000)))
        scns = []
        for i, o in enumerate(ops):
            s = {"pid": pid, "seed": "%d/%d" % (ctx.seed, i), "ops": o, "looks": ctx.n(6, 9)}
            if pid == "V03" and i % 3 == 0:
                s["dims"] = [rng.choice(["real", "rlog", "int"])]
            scns.append(s)
    core.traces(ctx, "report", "TraceTools", drive, scns, EXPECT[pid])
