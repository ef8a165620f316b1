#!/usr/bin/env python3
"""plant.py FILE...: confirm planted bugs and keep them under seeded/.

Each FILE is Python defining ID, PROP, EDITS [(file, old, new)], NEEDS, BREAKS
and DEMO (a Python program).  Confirms in a scratch copy of /repo that the
stable tests pass with the change and that the demonstration fails with it and
passes without it."""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import tempfile
import xml.etree.ElementTree as ET

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1",
           OPENBLAS_NUM_THREADS="1", MPLBACKEND="agg")
DEMO_SH = """#!/bin/bash
# Run in the repository; exit 0 when the property holds.
d="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MPLBACKEND=agg
export MPLCONFIGDIR="$(mktemp -d)"
PYTHONPATH="$PWD" /opt/venv/bin/python -W ignore "$d/demo.py"
rc=$?
rm -rf "$MPLCONFIGDIR"
exit $rc
"""


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, **kw)


def stable_broken(copy):
    x = os.path.join(copy, "junit_x.xml")
    sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-n", "4", "-p", "no:cacheprovider",
        "--timeout=300", "--continue-on-collection-errors", "--tb=no", "-o",
        "junit_family=xunit2", "--junitxml=" + x], copy)
    passed = set()
    for tc in ET.parse(x).getroot().iter("testcase"):
        if not list(tc.iter("failure")) and not list(tc.iter("error")) and not list(tc.iter("skipped")):
            passed.add(tc.get("classname") + "::" + tc.get("name"))
    os.unlink(x)
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    return sorted(stable - passed)


def plant(path):
    ns = {}
    exec(open(path).read(), ns)
    bid = ns["ID"]
    tmp = tempfile.mkdtemp(prefix="plant_")
    try:
        copy = os.path.join(tmp, "repo")
        sh(["cp", "-a", os.environ.get("SKOPT_REPO", "/repo"), copy], "/")
        out = os.path.join(tmp, bid)
        os.makedirs(out)
        open(os.path.join(out, "demo.py"), "w").write(ns["DEMO"].lstrip("\n"))
        open(os.path.join(out, "demo.sh"), "w").write(DEMO_SH)
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        demo = ["bash", os.path.join(out, "demo.sh")]
        r = sh(demo, copy, timeout=300)
        if r.returncode:
            return bid, "REJECTED: demo fails on the clean tree: " + r.stdout[-500:]
        for f, old, new in ns["EDITS"]:
            p = os.path.join(copy, f)
            s = open(p).read()
            if s.count(old) != 1:
                return bid, "REJECTED: %d matches in %s for %r" % (s.count(old), f, old[:60])
            open(p, "w").write(s.replace(old, new))
        r = sh(demo, copy, timeout=300)
        if r.returncode == 0:
            return bid, "REJECTED: demo passes with the change"
        why = r.stdout.strip().splitlines()[-1:] or [""]
        b = stable_broken(copy)
        if b:
            return bid, "REJECTED: breaks tests %s" % b[:4]
        d = sh(["git", "diff"], copy).stdout
        open(os.path.join(out, "patch.diff"), "w").write(d)
        json.dump({"property": ns["PROP"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]},
                  open(os.path.join(out, "meta.json"), "w"), indent=1)
        dst = os.path.join(V, "seeded", bid)
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(out, dst)
        return bid, "kept (demo: %s)" % why[0][:150]
    except Exception as e:
        return bid, "REJECTED: %r" % e
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    with cf.ThreadPoolExecutor(2) as ex:
        for bid, res in ex.map(plant, sys.argv[1:]):
            print(bid, res, flush=True)
