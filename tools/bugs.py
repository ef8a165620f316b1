#!/usr/bin/env python3
"""bugs.py [ID...]: run the property's quick check against planted bugs, each
in a scratch copy of /repo (the registered commands always use /repo)."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(os.path.join(V, "seeded")))
res, caught = {}, {}
for i in ids:
    d = os.path.join(V, "seeded", i)
    prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    tmp = tempfile.mkdtemp(prefix="bug_")
    try:
        copy = os.path.join(tmp, "repo")
        subprocess.run(["cp", "-a", os.environ.get("SKOPT_REPO", "/repo"), copy], check=True)
        subprocess.run(["git", "apply", os.path.join(d, "patch.diff")], cwd=copy, check=True)
        t = time.time()
        p = subprocess.run([os.path.join(V, "check.py"), prop, "--tier", "quick", "--seed", "1"],
                           cwd=V, env=dict(os.environ, SKOPT_REPO=copy, VERIF_OUT=tmp),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        hit = p.returncode == 1 and "VIOLATION property=%s " % prop in p.stdout
        cl = [l.split("clause ")[1].split()[0] for l in p.stdout.splitlines() if "clause " in l]
        res[i] = hit
        caught[i] = [prop] + (sorted(set(cl))[:4] if hit else ["MISSED"])
        print("%-28s %s %s %5.1fs %s" % (i, prop, "CAUGHT" if hit else "MISSED rc=%d" % p.returncode,
                                         time.time() - t, ",".join(cl[:6]) if hit else p.stdout[-300:]),
              flush=True)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
path = os.path.join(V, "tools", "catches.json")
known = json.load(open(path)) if os.path.exists(path) else {}
known.update(caught)
known = {k: v for k, v in sorted(known.items()) if os.path.isdir(os.path.join(V, "seeded", k))}
json.dump(known, open(path, "w"), indent=1)
print("%d of %d caught" % (sum(res.values()), len(res)))
