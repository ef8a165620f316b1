#!/usr/bin/env python3
"""Writes KNOWN_FINDINGS.json: repaired defects (by commit subject in /repo)
and recorded ones."""
import json
import os
import subprocess

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [
    ("S01", "use int instead of the removed np.int alias in Normalize", "normalized integer dimensions raised AttributeError with numpy >= 1.24"),
    ("L02", "default forest criterion and max_features for scikit-learn >= 1.2", "forest surrogates could not be fitted with their default criterion"),
    ("S02", "transformed_bounds of log-uniform dimensions follow the transform", "bounds of log-uniform reals with base != 10 and of log-uniform integers did not contain the transformed values"),
    ("S02", "label-encoded Categorical", "bounds of label encoded categories did not cover the labels"),
    ("O03", "rejects a batch whose x and y differ in length", "tell() recorded a batch with different numbers of points and values"),
    ("O03", "rejects a scalar for a batch of points", "tell([p1, p2], 1.0) recorded a list of points as one point"),
    ("O01", "dummy optimizer falls back to random points", "without a surrogate, asking after the initial samples raised IndexError"),
    ("O07", "Optimizer.copy keeps the model queue size", "copies kept all surrogates whatever the queue size"),
    ("O09", "keep computation times out of the best value", "the best value handed to per-second acquisitions and the lies mixed values with log times"),
    ("A02", "has_gradients looks inside a MultiOutputRegressor", "per-second optimization with a gradient-free surrogate chose lbfgs and failed"),
    ("S06", "normalize_dimensions leaves the caller's dimensions alone", "creating a GP optimizer changed the transformer of the caller's dimensions"),
    ("S04", "comparing spaces and points takes every dimension into account", "spaces and points of different length could compare equal or be members"),
    ("D01", "does not copy the objective", "dump(store_objective=False) failed when the objective could not be copied"),
    ("B01", "total_iterations of BayesSearchCV with a single search space", "total_iterations raised with a dict space"),
    ("B01", "rejects a search space without iterations", "a (space, 0) search space was searched without end"),
    ("O02", "results keep the observations they were created from", "earlier results changed when more observations were told"),
    ("R02", "does not add more noise terms", "refitting a GaussianProcessRegressor added a noise term each time"),
    ("M01", "counts a single initial point as one call", "dummy_minimize with a single x0 subtracted its number of coordinates from n_calls"),
    ("S01", "gives back the categories it was given", "categories of mixed types came back as strings, booleans as numpy values"),
    ("G02", "one sided skips and more bases than dimensions", "Halton rejected valid skip bounds and more primes than dimensions"),
    ("O07", "does not generate the initial samples again", "copying regenerated the initial design"),
    ("G01", "selects points at the border", "Grid(border='only') produced interior points"),
    ("G01", "generates all requested samples in one dimension", "Grid in one dimension produced fewer samples than requested"),
]
KNOWN = []
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True,
                     text=True).stdout.splitlines()
try:
    extra = json.load(open(os.path.join(V, "tools", "findings_extra.json")))
    FIXED += [tuple(x) for x in extra["fixed"]]
    KNOWN += extra["known"]
except FileNotFoundError:
    pass
out = []
for pid, subj, what in FIXED:
    h = [l for l in log if subj in l]
    assert len(h) == 1, (subj, h)
    out.append({"property": pid, "status": "fixed", "commit": h[0].split()[0],
                "entry": "fixed: property=%s %s %s" % (pid, h[0].split()[0], what)})
for k in KNOWN:
    out.append(dict(k, status="known"))
json.dump({"findings": out}, open(os.path.join(V, "KNOWN_FINDINGS.json"), "w"), indent=1)
print(len(out), "findings;", [l for l in log if " fix: " in l and not any(f["status"] == "fixed" and f["commit"] == l.split()[0] for f in out)])
