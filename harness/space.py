"""Dimensions and spaces (S01-S05): every dimension of MCSpace, alone and in
combination, described by tuples, objects and YAML."""
import itertools
import os
import random
import tempfile

import numpy as np

import core
from enc import Interner, errname, scale

U = 10 ** 6

POOLS = {
    1: ["ant", "bee", "cat", "dog", "eel"],
    2: ["zeta", "alpha", "mid", "beta", "gamma"],
    3: [30, 10, 20, -5, 7],
    4: [0.5, 0.1, 2.5, 1e-3, 1e3],
    5: [True, False, "maybe", "no", "yes"],
    6: ["a", 1.5, 7, ("t", 1), "b"],
    7: [(2, 3), (1,), (5, 5, 5), (0, 1), (9,)],
    9: [1, "1", 2.5, "2.5", "x"],
    8: ["10", "9", "100", "1e1", "-1"],
}


def cats(d):
    return POOLS[d["fam"]][:d["n"]]


def bounds(d):
    if d["k"] == "real":
        if d["pr"] == "uniform":
            return d["lo"] / 4, d["hi"] / 4
        return float(d["base"]) ** (d["lo"] / 2), float(d["base"]) ** (d["hi"] / 2)
    if d["pr"] == "uniform":
        return d["lo"], d["hi"]
    return d["base"] ** d["lo"], d["base"] ** d["hi"]


def build(d, name=None, rng=None):
    from skopt.space import Categorical, Integer, Real
    if d["k"] == "cat":
        kw = {}
        if d.get("prior"):
            kw["prior"] = d["prior"]
        if d.get("w"):
            kw["prior"] = [v / 16.0 for v in d["w"]]
        return Categorical(cats(d), transform=d["tr"], name=name, **kw)
    lo, hi = bounds(d)
    pr = {"uniform": "uniform", "log": "log-uniform"}[d["pr"]]
    cls = Real if d["k"] == "real" else Integer
    kw = {}
    if d["k"] == "int" and d.get("dt"):
        kw["dtype"] = {"int": int, "int32": np.int32, "int64": "int64"}[d["dt"]]
    return cls(lo, hi, prior=pr, base=d["base"] or 10, transform=d["tr"], name=name, **kw)


def steps(d):
    return {"real": 8, "int": d["hi"] - d["lo"], "cat": d["n"] - 1}[d["k"]]


def value(d, j):
    if d["k"] == "cat":
        return cats(d)[j]
    if d["k"] == "real":
        if d["pr"] == "uniform":
            return d["lo"] / 4 + j * (d["hi"] - d["lo"]) / 32
        v = float(d["base"]) ** ((8 * d["lo"] + j * (d["hi"] - d["lo"])) / 16)
        return min(max(v, bounds(d)[0]), bounds(d)[1])
    if d["pr"] == "uniform":
        return d["lo"] + j
    return d["base"] ** (d["lo"] + j)


def foreign(d, rng):
    if d["k"] == "cat":
        cs = cats(d)
        c = rng.choice(cs)
        near = [str(c), repr(c), str(c) + " ", str(c)[:-1], (c,), [c], c[:-1] if isinstance(c, (str, tuple)) else c + 0.5,
                "nope", 12345, None, "", 0.125]
        if isinstance(c, str):
            near += [c.upper(), c.title()] + [POOLS[d["fam"]][-1]]
            try:
                near.append(float(c))
            except ValueError:
                pass
        return rng.choice([v for v in near if v not in cs])
    lo, hi = bounds(d)
    out = [lo - 1, hi + 1, hi + 0.001 * max(1, abs(hi)), lo - 0.001 * max(1, abs(lo)),
           -hi if -hi < lo else hi + 2, np.nextafter(hi, hi + 1), np.nextafter(lo, lo - 1)]
    if lo > 0:
        out += [lo * 0.9, 0, lo / 2 ** 20]
    return rng.choice(out)


def fresh(v, rng, d=None):
    """An equal value that is another object."""
    if d and d["k"] == "cat" and d["fam"] in (6, 7) and not isinstance(v, tuple):
        return v            # numpy scalars do not compare with tuples
    if isinstance(v, str):
        return rng.choice(["".join(list(v)), np.str_(v)])
    if isinstance(v, tuple):
        return tuple(list(v))
    if isinstance(v, bool):
        return v
    if isinstance(v, int):
        return rng.choice([int(str(v)), np.int64(v)])
    if isinstance(v, float):
        return rng.choice([float(repr(v)), np.float64(v)])
    return v


def typed(d, v, exact=None):
    if d["k"] == "cat":
        cs = cats(d) if exact is None else [exact]
        return any(isinstance(v.item() if isinstance(v, np.generic) else v, type(c)) and v == c
                   for c in cs)
    if d["k"] == "int":
        return isinstance(v, (int, np.integer)) and not isinstance(v, bool)
    return isinstance(v, (float, np.floating))


def inside(d, v):
    if d["k"] == "cat":
        return v in cats(d)
    lo, hi = bounds(d)
    return lo <= v <= hi


def rows(a, n):
    a = np.asarray(a, dtype=float).reshape(n, -1)
    return [[scale(v, U) for v in r] for r in a]


def tbounds(dim):
    tb = dim.transformed_bounds
    if dim.transformed_size == 1:
        tb = [tb]
    return [[scale(a, U), scale(b, U)] for a, b in tb]


def numeric(d):
    return not (d["k"] == "cat" and d["tr"] in ("identity", "string"))


# ---------------------------------------------------------------- recorders
def rec_dim(d, rng):
    dim = build(d)
    I = Interner()
    n = steps(d)
    js = list(range(n + 1)) if n <= 12 else sorted({0, n} | {rng.randrange(n) for _ in range(9)})
    rng.shuffle(js)
    js += js[:2]
    vals = [value(d, j) for j in js]
    e = {"op": "dim", "d": d, "js": js, "ids": I.many([[v] for v in vals]), "err": "", "tx": [],
         "one": [], "back": [], "tb": [], "size": 0, "typed": False, "cont": False}
    try:
        tx = dim.transform(vals)
        back = list(dim.inverse_transform(tx))
        e["back"] = I.many([[v] for v in back])
        e["typed"] = len(back) == len(vals) and all(
            typed(d, b, v if d["k"] == "cat" else None) for b, v in zip(back, vals))
        e["size"] = int(dim.transformed_size)
        # inverse of an array instead of whatever transform returned
        if numeric(d):
            arr = np.asarray(tx)
        else:
            arr = np.empty(len(tx), dtype=object)
            arr[:] = tx
        again = list(dim.inverse_transform(arr))
        e["cont"] = I.many([[v] for v in again]) == e["back"]
        if numeric(d):
            e["tx"] = rows(tx, len(vals))
            e["one"] = [rows(dim.transform([v]), 1)[0] for v in vals]
            e["tb"] = tbounds(dim)
    except Exception as ex:
        e["err"] = errname(ex) + ": " + str(ex)[:100]
    return e


def rec_inv(d, rng):
    if not numeric(d) or (d["k"] == "cat" and d["tr"] == "onehot"):
        return None
    dim = build(d)
    (a, b), = [dim.transformed_bounds]
    us = [a, b] + [a + (b - a) * rng.random() for _ in range(10)]
    if d["k"] != "real" and (d["k"] == "cat" or d["pr"] == "uniform"):
        # stay clear of the middle between two values
        k = (b - a) / max(1, steps(d))
        us = [u for u in us if k == 0 or abs((((u - a) / k) % 1) - 0.5) > 0.01]
    e = {"op": "inv", "d": d, "u": [[scale(u, U)] for u in us], "err": "", "tu": [], "v": [], "x": [],
         "inside": False, "typed": False}
    try:
        inv = list(dim.inverse_transform(np.array(us)))
        e["inside"] = len(inv) == len(us) and all(inside(d, v) and v in dim for v in inv)
        e["typed"] = all(typed(d, v) for v in inv)
        e["tu"] = rows(dim.transform(inv), len(us))
        if d["k"] == "int" and d["pr"] == "log":
            lo, hi = bounds(d)
            for u, v in zip(us, inv):
                x = d["base"] ** u if d["tr"] == "identity" else \
                    d["base"] ** (d["lo"] + u * (d["hi"] - d["lo"]))
                if x < 10 ** 5:
                    e["v"].append(scale(v))
                    e["x"].append(scale(x))
    except Exception as ex:
        e["err"] = errname(ex) + ": " + str(ex)[:100]
    return e


def rec_wide(_, rng):
    """Dimensions of any magnitude: what holds whatever the unit."""
    from skopt.space import Integer, Real
    kind = rng.choice(["real", "int"])
    log = rng.random() < .5
    tr = rng.choice(["identity", "normalize"])
    base = rng.choice([2, 10, 10, 5])
    if kind == "real":
        if log:
            a = 10.0 ** rng.uniform(-15, 10)
            b = a * 10.0 ** rng.uniform(.01, 20)
        else:
            a = rng.choice([-1, 1]) * 10.0 ** rng.uniform(-8, 12)
            b = a + 10.0 ** rng.uniform(-1, 13)
        mids = [a * (b / a) ** rng.random() if log else a + (b - a) * rng.random() for _ in range(6)]
        mids = [min(max(m, a), b) for m in mids]
    else:
        a = rng.randint(1, 10 ** rng.randint(0, 8)) if log else rng.randint(-10 ** 9, 10 ** 9)
        b = a + rng.randint(1, 10 ** rng.randint(0, 9))
        mids = [rng.randint(a, b) for _ in range(6)]
    vals = [a, b] + mids
    e = {"op": "wide", "log": log, "tr": tr, "err": "", "n": len(vals), "rank": [], "wrank": [],
         "back": [], "ids": [], "inb": False, "same": False, "unit": False, "sampled": False, "inv": False,
         "typed": False, "ends": False}
    try:
        dim = {"real": Real, "int": Integer}[kind](
            a, b, prior="log-uniform" if log else "uniform", base=base, transform=tr)
        w = np.asarray(dim.transform(vals), dtype=float).ravel()
        back = list(dim.inverse_transform(dim.transform(vals)))
        order = sorted(set(vals))
        e["rank"] = [order.index(v) for v in vals]
        worder = sorted(set(w))
        e["wrank"] = [worder.index(v) for v in w]
        scale_ = max(abs(a), abs(b))
        tol = (lambda v: 1e-7 * abs(v)) if log else (lambda v: 1e-9 * scale_)
        if kind == "int" and not log:
            tol = lambda v: 0
        e["ids"] = list(range(len(vals)))
        e["back"] = [i if abs(v - x) <= max(tol(x), 0) or (kind == "int" and abs(v - x) <= 1e-7 * abs(x))
                     else -1 for i, (v, x) in enumerate(zip(back, vals))]
        lo, hi = dim.transformed_bounds
        eps = 1e-9 * max(1.0, abs(lo), abs(hi))
        e["inb"] = bool((w >= lo - eps).all() and (w <= hi + eps).all())
        e["ends"] = bool(abs(w[0] - lo) <= eps and abs(w[1] - hi) <= eps)
        e["same"] = bool((w == np.asarray(vals, dtype=float)).all())
        e["unit"] = bool((w >= -1e-9).all() and (w <= 1 + 1e-9).all())
        us = [lo, hi] + [lo + (hi - lo) * rng.random() for _ in range(6)]
        inv = list(dim.inverse_transform(np.array(us)))
        d = {"k": kind}
        e["inv"] = all(a <= v <= b for v in inv)
        smp = dim.rvs(n_samples=20, random_state=rng.randrange(10 ** 6))
        e["sampled"] = len(smp) == 20 and all(a <= v <= b for v in smp)
        e["typed"] = all(typed(d, v) for v in inv + list(smp) + back)
    except Exception as ex:
        e["err"] = errname(ex) + ": " + str(ex)[:100]
    return e


def rec_facts(ds, rng):
    from skopt.space import Categorical, Integer, Real, Space
    sp = Space([build(d) for d in ds])
    kind = rng.choice(["real", "int", "cat"])
    before = list(sp.get_transformer())
    new = rng.choice(["normalize", "identity"])
    e = {"op": "facts", "ds": ds, "real": bool(sp.is_real), "cat": bool(sp.is_categorical),
         "partly": bool(sp.is_partly_categorical), "const": int(sp.n_constant_dimensions),
         "ndims": int(sp.n_dims), "each": [bool(x.is_constant) for x in sp.dimensions],
         "by": [], "bykind": kind, "bynew": new, "before": before,
         "index": [sp[i][0] == i and sp[i][1] is sp.dimensions[i] for i in range(len(ds))],
         "iter": [x is y for x, y in zip(list(sp), sp.dimensions)],
         "bounds": [b == (bounds(d) if d["k"] != "cat" else tuple(cats(d))) for b, d in zip(sp.bounds, ds)]}
    sp.set_transformer_by_type(new, {"real": Real, "int": Integer, "cat": Categorical}[kind])
    e["by"] = list(sp.get_transformer())
    return e


def rec_space(ds, rng):
    from skopt.space import Categorical, Integer, Real, Space
    ds = [d for d in ds if numeric(d)]
    I = Interner()
    npt = rng.choice([1, 2, 5, 5])
    how = rng.choice(["given", "set", "type", "types"])
    if how in ("type", "types"):
        # dimensions of the same type are transformed alike; some are constant
        if rng.random() < .5:
            ds.insert(rng.randrange(len(ds) + 1), dict(k="cat", pr="none", base=0, lo=0, hi=0, tr="onehot", n=1,
                                                       fam=rng.randint(1, 8)))
        both = rng.choice(["identity", "normalize"])
        tr = {"cat": rng.choice(["onehot", "label", "normalize"]),
              "real": both, "int": both if how == "types" else rng.choice(["identity", "normalize"])}
        ds = [dict(d, tr=tr[d["k"]]) for d in ds]
    js = [[rng.randint(0, steps(d)) for d in ds] for _ in range(npt)]
    pts = [[value(d, j) for d, j in zip(ds, p)] for p in js]
    e = {"op": "space", "ds": ds, "pts": js, "ids": I.many(pts), "err": "", "back": [], "tx": [],
         "dimtx": [], "tb": [], "dimtb": [], "nt": 0, "typed": False}
    try:
        if how == "given":
            sp = Space([build(d) for d in ds])
        elif how in ("type", "types"):
            sp = Space([build(dict(d, tr=rng.choice(["onehot", "label"]) if d["k"] == "cat" else "identity"))
                        for d in ds])
            if how == "types":
                sp.set_transformer_by_type(tr["real"], (Real, Integer))
            else:
                sp.set_transformer_by_type(tr["int"], Integer)
                sp.set_transformer_by_type(tr["real"], Real)
            sp.set_transformer_by_type(tr["cat"], Categorical)
        else:
            # the same transformations, set on the space afterwards
            sp = Space([build(dict(d, tr="onehot" if d["k"] == "cat" else "identity")) for d in ds])
            sp.set_transformer([d["tr"] for d in ds])
        tx = sp.transform(pts)
        back = sp.inverse_transform(tx)
        e["back"] = I.many(back)
        e["typed"] = all(typed(d, v, o if d["k"] == "cat" else None)
                         for p, q in zip(back, pts) for d, v, o in zip(ds, p, q))
        e["tx"] = rows(tx, npt)
        e["nt"] = int(sp.transformed_n_dims)
        e["tb"] = [[scale(a, U), scale(b, U)] for a, b in sp.transformed_bounds]
        one = [build(d) for d in ds]
        e["dimtx"] = [rows(o.transform([p[k] for p in pts]), npt) for k, o in enumerate(one)]
        e["dimtb"] = [tbounds(o) for o in one]
    except Exception as ex:
        e["err"] = errname(ex) + ": " + str(ex)[:100]
    return e


TOK = {"int": [1, 5, 2, 10], "float": [1.0, 5.5, 0.25, 2.0], "str": ["a", "b", "uniform", "log-uniform"],
       "bool": [True, False]}


def tok(v):
    ty = "bool" if isinstance(v, (bool, np.bool_)) else "int" if isinstance(v, (int, np.integer)) else \
        "float" if isinstance(v, (float, np.floating)) else "str" if isinstance(v, str) else "other"
    t = {"ty": ty, "v": v if ty == "str" else scale(v) if ty in ("int", "float") else 0}
    return t


def rec_infer(vals, rng):
    from skopt.space import Categorical, Integer, Real, Space, check_dimension
    toks = [tok(v) for v in vals]
    if len(toks) == 4 and toks[3]["ty"] == "int":
        toks[3]["v"] = int(vals[3])
    desc = rng.choice([list, tuple])(vals)
    e = {"op": "infer", "toks": toks, "err": "", "k": "", "pr": "", "base": 0, "same": False}
    try:
        dim = check_dimension(desc) if rng.random() < .5 else Space([(0.0, 1.0), desc]).dimensions[1]
        e["k"] = {Real: "real", Integer: "int", Categorical: "cat"}[type(dim)]
        if e["k"] == "cat":
            e["same"] = len(dim.categories) == len(vals) and \
                all(type(a) is type(b) and a == b for a, b in zip(dim.categories, vals))
        else:
            e["pr"], e["base"] = dim.prior, int(dim.base)
            e["same"] = dim.low == vals[0] and dim.high == vals[1]
    except Exception as ex:
        e["err"] = errname(ex)
    return e


def describe(dim):
    from skopt.space import Categorical
    if isinstance(dim, Categorical):
        return ["cat", dim.transform_, str(dim.name), [[type(c).__name__, str(c)] for c in dim.categories],
                "prior" if dim.prior is not None else ""]
    return [type(dim).__name__, dim.transform_, str(dim.name), repr(float(dim.low)), repr(float(dim.high)),
            dim.prior, str(dim.base)]


def rec_yaml(ds, rng):
    import yaml
    from skopt.space import Space
    ds = [d for d in ds if d["k"] != "cat" or d["fam"] not in (6, 7)]
    want, conf = [], []
    for i, d in enumerate(ds):
        name = rng.choice([None, "dim%d" % i])
        dim = build(d, name)
        want.append(describe(dim))
        opt = {"transform": d["tr"]}
        if name:
            opt["name"] = name
        if d["k"] == "cat":
            opt["categories"] = cats(d)
            key = "Categorical"
        else:
            lo, hi = bounds(d)
            opt.update(low=lo, high=hi, base=d["base"],
                       prior={"uniform": "uniform", "log": "log-uniform"}[d["pr"]])
            key = {"real": "Real", "int": "Integer"}[d["k"]]
        case = rng.choice([str, str.lower, str.upper])
        conf.append({case(key): {rng.choice([str, str.capitalize])(k): v for k, v in opt.items()}})
    shape = rng.choice(["list", "first", "named"])
    other = [{"Integer": {"low": 1, "high": 2}}]
    mine, *rest = rng.sample(["Mine", "Alpha", "zoo", "b", "A", "10"], 4)
    data = [(r, other) for r in rest]
    data.insert(0 if shape == "first" else rng.randint(0, 3), (mine, conf))
    data = conf if shape == "list" else dict(data)
    e = {"op": "yaml", "err": "", "got": [], "want": want}
    fd, path = tempfile.mkstemp(suffix=".yml")
    try:
        with os.fdopen(fd, "w") as f:
            yaml.safe_dump(data, f, sort_keys=False)
        sp = Space.from_yaml(path, namespace=mine if shape == "named" else None)
        e["got"] = [describe(x) for x in sp.dimensions]
    except Exception as ex:
        e["err"] = errname(ex) + ": " + str(ex)[:100]
    finally:
        os.unlink(path)
    return e


def rec_name(ds, rng):
    from skopt.space import Space
    given = [rng.choice(["", "lr", "depth", "n%d" % i]) for i in range(len(ds))]
    sp = Space([build(d, g or None) for d, g in zip(ds, given)])
    qs = [rng.choice(given + ["lr", "depth", "missing"]) for _ in range(4)]
    qs = [q for q in qs if q] or ["missing"]

    def found(r):
        i, dim = r
        if i is None:
            return 0 if dim is None else -1
        return i + 1 if dim is sp.dimensions[i] else -1
    return {"op": "name", "given": given, "names": list(sp.dimension_names), "queries": qs,
            "found": [found(sp[q]) for q in qs], "foundlist": [found(r) for r in sp[qs]]}


def rec_member(ds, rng):
    from skopt.space import Space
    sp = Space([build(d) for d in ds])
    p, v = [], []
    for d in ds:
        if rng.random() < 0.25:
            p.append(-1)
            v.append(foreign(d, rng))
        else:
            p.append(rng.choice([0, steps(d), rng.randint(0, steps(d))]))
            v.append(fresh(value(d, p[-1]), rng, d))
    each = [bool(x in dim) for x, dim in zip(v, sp.dimensions)]
    r = rng.random()
    if r < .15:
        p, v = p[:-1], v[:-1]
    elif r < .3:
        p, v = p + [0], v + [v[-1]]
    v = rng.choice([list, tuple])(v)
    return {"op": "member", "ds": ds, "p": p, "isin": bool(v in sp), "each": each}


def rec_dist(ds, rng):
    from skopt.space import Space
    ds = [d for d in ds if d["k"] != "real" or d["pr"] == "uniform"]
    if not ds:
        return None
    sp = Space([build(d) for d in ds])
    pt, vs = [], []
    for _ in range(2):
        p = [rng.randint(0, steps(d)) if rng.random() > .06 else -1 for d in ds]
        if pt and rng.random() < .3:
            p = [j if rng.random() < .6 else k for j, k in zip(pt[0], p)]
        pt.append(p)
        vs.append([fresh(value(d, j), rng, d) if j >= 0 else foreign(d, rng) for d, j in zip(ds, p)])
    e = {"op": "dist", "ds": ds, "a": pt[0], "b": pt[1], "err": "", "dist": 0, "tsid": 0}
    try:
        e["dist"] = scale(sp.distance(vs[0], vs[1]))
        e["tsid"] = scale(sp.distance(vs[1], vs[0]))
    except Exception as ex:
        e["err"] = errname(ex)
    return e


def rec_eq(ds, rng, univ):
    from skopt.space import Space
    d2 = [dict(d) for d in ds]
    r = rng.random()
    many = [i for i, d in enumerate(ds) if d["k"] == "cat" and d["n"] >= 2]
    if many and rng.random() < .25:
        # the same categories, whose weights may differ
        i = rng.choice(many)
        n = ds[i]["n"]
        w = [1] * (n - 1) + [17 - n]
        rng.shuffle(w)
        v = rng.choice([w, w[1:] + w[:1], w[::-1], [w[-1]] + w[:-1], None])
        ds = ds[:i] + [dict(ds[i], w=w)] + ds[i + 1:]
        d2[i] = dict(d2[i], w=v) if v else dict(d2[i])
        if rng.random() < .5:
            ds, d2 = d2, ds
    elif r < .2:
        d2 = d2[:-1]
    elif r < .35:
        d2 = d2 + [dict(d2[0])]
    elif r < .8:
        i = rng.randrange(len(d2))
        d = d2[i]
        how = rng.choice(["hi", "tr", "pr", "other", "lo", "k"])
        if d["k"] == "cat":
            if how in ("hi", "lo") and d["n"] < 5:
                d["n"] += 1
            elif how == "tr":
                d["tr"] = rng.choice(["onehot", "label", "normalize", "identity"])
            else:
                d["fam"] = d["fam"] % 8 + 1
        elif how in ("hi", "lo"):
            d[how] += 1 if how == "hi" else -1 if d["pr"] == "uniform" or d["k"] == "real" else 0
        elif how == "tr":
            d["tr"] = {"identity": "normalize", "normalize": "identity"}[d["tr"]]
        elif how == "pr" and d["pr"] == "uniform" and d["lo"] > 0:
            # same bounds, other prior: only comparable through the bounds themselves
            return rec_eq_prior(ds, i)
        elif how == "k" and d["pr"] == "uniform":
            d2[i] = rng.choice([x for x in univ if x["k"] != d["k"]])
        else:
            d2[i] = dict(rng.choice(univ))
    for a, b in zip(ds, d2):
        # encoded bounds can be compared only in the same units
        if a["k"] == b["k"] and a["k"] != "cat" and (a["pr"], a["base"]) != (b["pr"], b["base"]):
            return None
        if a["k"] == b["k"] == "cat" and a["fam"] != b["fam"] and \
                cats(a) == cats(b):
            return None
    a, b = Space([build(d) for d in ds]), Space([build(d) for d in d2])
    return {"op": "eq", "d1": ds, "d2": d2, "eq": bool(a == b), "ne": bool(a != b)}


def rec_eq_prior(ds, i):
    from skopt.space import Integer, Real, Space
    d = ds[i]
    lo, hi = bounds(d)
    cls = Real if d["k"] == "real" else Integer
    a = [build(x) for x in ds]
    b = [build(x) for x in ds]
    b[i] = cls(lo, hi, prior="log-uniform", transform=d["tr"])
    a, b = Space(a), Space(b)
    return {"op": "eq", "d1": ds, "d2": ds[:i] + [dict(d, pr="log")] + ds[i + 1:],
            "eq": bool(a == b), "ne": bool(a != b)}


def position(d, v):
    """Bin of a sampled value: its position, the power of the base below it, or
    the eighth of the range."""
    if d["k"] == "cat":
        return cats(d).index(v)
    lo, hi = bounds(d)
    if d["k"] == "int" and d["pr"] == "uniform":
        return int(v - lo)
    if d["k"] == "int":
        return max(j for j in range(steps(d)) if d["base"] ** (d["lo"] + j) <= v)
    f = (v - lo) / (hi - lo) if d["pr"] == "uniform" else np.log(v / lo) / np.log(hi / lo)
    return int(min(7, max(0, f * 8)))


def rec_rvs(ds, rng):
    from skopt.space import Space
    ds = [dict(d) for d in ds]
    zero = []
    for d in ds:
        z = []
        if d["k"] == "cat" and d["n"] >= 2 and rng.random() < .4:
            z = [rng.randrange(d["n"])]
            d["prior"] = [0.0 if j in z else 1.0 / (d["n"] - 1) for j in range(d["n"])]
        zero.append(z)
        if d["k"] == "int":
            d["dt"] = rng.choice(["", "int", "int32", "int64"])
    sp = Space([build(d) for d in ds])
    n = rng.choice([1, 2, 10, 600, 600])
    seed = rng.randrange(10 ** 6)
    pts = sp.rvs(n_samples=n, random_state=seed)
    again = sp.rvs(n_samples=n, random_state=np.random.RandomState(seed))
    I = Interner()
    ok = all(len(p) == len(ds) for p in pts)
    e = {"op": "rvs", "ds": [{k: v for k, v in d.items() if k not in ("prior", "dt")} for d in ds],
         "n": n, "got": len(pts), "zero": zero,
         "inside": ok and all(inside(d, v) for p in pts for d, v in zip(ds, p)) and all(p in sp for p in pts),
         "typed": ok and all(typed(d, v) for p in pts for d, v in zip(ds, p)),
         "again": I.many(pts) == I.many(again),
         "hits": [sorted({position(d, p[k]) for p in pts}) for k, d in enumerate(ds)] if ok else []}
    if not ok:
        e["inside"] = False
    return e


def drive(scn):
    rng = random.Random("space/%s" % scn["seed"])
    ev = []
    for what in scn["do"]:
        if what == "wide":
            out = [rec_wide(None, rng) for _ in range(4)]
        elif what in ("dim", "inv"):
            out = [globals()["rec_" + what](d, rng) for d in scn["ds"]]
        elif what == "infer":
            out = [rec_infer(v, rng) for v in scn["vals"]]
        elif what == "eq":
            out = [rec_eq(scn["ds"], rng, scn["univ"]) for _ in range(4)]
        else:
            out = [globals()["rec_" + what](scn["ds"], rng)]
        ev += [e for e in out if e]
    return {"cfg": {}, "ev": ev}


def descriptions(ctx):
    """Every description of up to four tokens over a small alphabet."""
    al = [1, 5, 2.0, 0.5, "a", "uniform", "log-uniform", True, np.int64(3), np.float64(7.5)]
    out = [[v] for v in al]
    out += [list(p) for p in itertools.product(al, repeat=2)]
    nums = [1, 5, 2.0, 0.5, 1e-6, np.int64(3), np.float64(7.5)]
    out += [[a, b, p] for a in nums for b in nums for p in ("uniform", "log-uniform", "a")]
    out += [[a, b, "log-uniform", k] for a in nums for b in nums for k in (2, 10)]
    out += [["a", "b", "c"], ["a", 1, 2], [1, 2, 3], [1, 2, 3, 4], [0.1, 0.2, 0.3], ["a", "b", "c", "d", "e"],
            [True, False, True], [1, 2, 3, 4, 5], [], [1.0, 2.0, 3.0, 10], ["uniform", "log-uniform", "a"]]

    def fine(v):
        # duplicates and tokens whose order matters are kept apart by value
        return len(v) < 2 or not (isinstance(v[0], bool) and isinstance(v[1], bool))
    return [v for v in out if fine(v)]


EXPECT = {
    "S01": ["RoundTrip", "RoundTripTypes", "TransformedInBounds", "InverseInSpace", "InverseNearest",
            "InverseExact", "SpaceRoundTrip", "InverseTyped", "WideRoundTrip", "WideInBounds",
            "WideInverse"],
    "S02": ["Size", "Warped", "Bounds", "Width", "ColumnsInOrder", "BoundsInOrder", "OneByOne", "WideOrder", "WideEnds", "WideUnit",
            "WideIdentity"],
    "S03": ["Kind", "PriorAndBase", "Values", "InvalidDescription", "YamlDimensions", "LookUp", "Names",
            "Facts", "Bounds", "LookUpIndex", "TransformerByType"],
    "S04": ["Membership", "Distance", "NoDistanceOutside", "Equality"],
    "S05": ["SamplesInSpace", "SampleTypes", "EveryValueIsSampled", "SamplesRepeat",
            "WideSamples"],
}
DO = {"S01": ["dim", "inv", "space", "wide"], "S02": ["dim", "space", "wide"], "S03": ["yaml", "name", "facts"],
      "S04": ["member", "member", "dist", "dist", "eq"], "S05": ["rvs", "wide"]}


def run(ctx):
    univ = core.enumerate_states(ctx, "MCSpace")
    rng = ctx.rng("space")
    scns = []
    if ctx.pid in ("S01", "S02"):
        for i in range(0, len(univ), 8):
            for rep in range(ctx.n(2, 20)):
                scns.append({"ds": univ[i:i + 8], "seed": "%d/%d/%d" % (ctx.seed, i, rep), "do": ["dim", "inv"]})
    if ctx.pid == "S03":
        v = descriptions(ctx)
        for i in range(0, len(v), 40):
            for rep in range(ctx.n(2, 4)):
                scns.append({"vals": v[i:i + 40], "seed": "%d/v%d/%d" % (ctx.seed, i, rep), "do": ["infer"]})
    for i in range(ctx.n(400 if ctx.pid != "S05" else 150, 6000)):
        ds = [rng.choice(univ) for _ in range(rng.choice([1, 2, 3, 3, 4, 5]))]
        ds = [d for d in ds if numeric(d)] or [univ[0]]
        if ctx.pid in ("S04", "S05", "S03"):
            ds = [rng.choice(univ) for _ in range(rng.choice([1, 2, 3, 4]))]
        s = {"ds": ds, "seed": "%d/s%d" % (ctx.seed, i), "do": [x for x in DO[ctx.pid] if x not in ("dim", "inv")]}
        if "eq" in s["do"]:
            s["univ"] = [rng.choice(univ) for _ in range(6)]
        scns.append(s)
    core.traces(ctx, "space", "TraceSpace", drive, scns, EXPECT[ctx.pid])
    if ctx.pid == "S05":
        import opt
        core.traces(ctx, "opt", "TraceOptimizer", opt.drive,
                    opt.scenarios(ctx, ctx.n(200, 3000), bases=("stub", "stub", "GP", "RF", "ET", "GBRT")),
                    ["SuggestionInSpace", "BatchInSpace"])
