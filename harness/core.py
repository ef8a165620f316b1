"""Shared machinery of the checks: TLC runs, trace validation, verdicts.

A check consists of jobs.  A model job model-checks a specification.  A trace
job drives the code in /repo through scenarios, records a trace per scenario
and has TLC judge every trace against a specification; each failing clause is
reported by name.
"""
import concurrent.futures as cf
import faulthandler
import json
import multiprocessing as mp
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
REPO = os.environ.get("SKOPT_REPO", "/repo")     # the tree under test
OUT = os.environ.get("VERIF_OUT", VERIF)           # evidence and replay files


class Clock:
    """The clock the code under test sees; real unless a driver sets `now`."""
    now = None


def _clock(real):
    def clock():
        return real() if Clock.now is None else float(Clock.now())
    return clock


_real_time = time.time
time.time, time.perf_counter, time.monotonic = (
    _clock(time.time), _clock(time.perf_counter), _clock(time.monotonic))


class Machinery(Exception):
    """The machinery itself failed: no verdict."""


class ScenarioTimeout(BaseException):
    pass


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier == "quick"
        self.t0 = _real_time()
        self.scratch = tempfile.mkdtemp(prefix="verif_%s_" % pid)
        self.states = self.transitions = self.traces = 0
        self.models = []
        self.counts = {}
        self.violations = []     # dicts: clause, scenario, detail
        self.samples = []
        self.notes = []
        self.ncpu = min(8, os.cpu_count() or 1)

    def n(self, quick, thorough):
        return quick if self.quick else thorough

    def rng(self, *key):
        return random.Random("%d/%s/%s" % (self.seed, self.pid if False else "",
                                           "/".join(map(str, key))))

    def close(self):
        shutil.rmtree(self.scratch, ignore_errors=True)


# ------------------------------------------------------------------- TLC
def _cfg_text(cfg, constants):
    text = open(os.path.join(SPEC, cfg)).read()
    for k, v in (constants or {}).items():
        text, n = re.subn(r"(?<![A-Za-z0-9_])%s = [^\s]+(?: *\{[^}]*\})?" % re.escape(k),
                          lambda m: "%s = %s" % (k, v), text)
        if n != 1:
            raise Machinery("constant %s not in %s" % (k, cfg))
    return text


def tla(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    return str(v)


def run_tlc(ctx, module, cfg, constants=None, env=None, args=(), timeout=800,
            workers=None, name=None):
    d = tempfile.mkdtemp(prefix="tlc_", dir=ctx.scratch)
    path = os.path.join(d, "run.cfg")
    with open(path, "w") as f:
        f.write(_cfg_text(cfg, {k: tla(v) for k, v in (constants or {}).items()}))
    e = dict(os.environ)
    e["JAVA_TOOL_OPTIONS"] = "-Xss16m -XX:+UseParallelGC -Djava.io.tmpdir=" + d
    e.update(env or {})
    cmd = ["tlc", "-noGenerateSpecTE", "-workers", str(workers or ctx.ncpu),
           "-metadir", os.path.join(d, "meta"), "-config", path]
    cmd += list(args) + [module + ".tla"]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout, text=True,
                           errors="replace")
    except subprocess.TimeoutExpired:
        raise Machinery("TLC ran out of time on %s" % module)
    finally:
        shutil.rmtree(os.path.join(d, "meta"), ignore_errors=True)
    return p.returncode, p.stdout


def model(ctx, module, cfg=None, constants=None, timeout=800, args=()):
    """Exhaustively check a specification; it does not depend on the code, so
    a failure is a fault of the machinery."""
    t = _real_time()
    rc, out = run_tlc(ctx, module, cfg or module + ".cfg", constants,
                      timeout=timeout, args=args)
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    if rc != 0 or "No error has been found" not in out or not m:
        raise Machinery("model %s: %s" % (module, out[-3000:]))
    ctx.transitions += int(m.group(1))
    ctx.states += int(m.group(2))
    ctx.models.append({"spec": module, "constants": {k: str(v) for k, v in (constants or {}).items()},
                       "generated": int(m.group(1)),
                       "distinct": int(m.group(2)), "wall_s": round(_real_time() - t, 2)})


def generate(ctx, module, cfg, constants=None, num=100, depth=20, seed=0,
             timeout=300):
    """Behaviours of the specification, as the operation sequences it prints."""
    rc, out = run_tlc(ctx, module, cfg, constants, timeout=timeout, workers=1,
                      args=["-simulate", "num=%d" % num, "-depth", str(depth),
                            "-seed", str(seed)])
    seqs, seen = [], set()
    for line in printed(out, "@G "):
        if line not in seen:
            seen.add(line)
            seqs.append(json.loads(line))
    if not seqs:
        raise Machinery("no behaviours from %s: %s" % (module, out[-2000:]))
    return seqs


def together(*thunks):
    """Run independent TLC jobs at the same time; results in order."""
    with cf.ThreadPoolExecutor(min(4, len(thunks))) as ex:
        return [f.result() for f in [ex.submit(t) for t in thunks]]


def enumerate_states(ctx, module, cfg=None, constants=None, timeout=800):
    """Model check and collect everything the specification prints (@G)."""
    t = _real_time()
    rc, out = run_tlc(ctx, module, cfg or module + ".cfg", constants, timeout=timeout,
                      workers=1)
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    if rc != 0 or "No error has been found" not in out or not m:
        raise Machinery("model %s: %s" % (module, out[-3000:]))
    ctx.transitions += int(m.group(1))
    ctx.states += int(m.group(2))
    ctx.models.append({"spec": module, "constants": {k: str(v) for k, v in (constants or {}).items()},
                       "generated": int(m.group(1)),
                       "distinct": int(m.group(2)), "wall_s": round(_real_time() - t, 2)})
    seqs, seen = [], set()
    for line in printed(out, "@G "):
        if line not in seen:
            seen.add(line)
            seqs.append(json.loads(line))
    return seqs


def printed(out, tag):
    pre = '"' + tag
    for line in out.splitlines():
        if line.startswith(pre) and line.endswith('"'):
            yield json.loads(line)[len(tag):]


# --------------------------------------------------------------- drivers
def _alarm(signum, frame):
    raise ScenarioTimeout()


def _worker(fn, scn, limit):
    warnings.simplefilter("ignore")
    faulthandler.disable()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        tr = fn(scn)
        return ("ok", tr)
    except ScenarioTimeout:
        return ("error", "no answer within %d s" % limit)
    except Machinery as e:
        return ("machinery", str(e))
    except BaseException:
        return ("error", traceback.format_exc()[-3000:])
    finally:
        signal.alarm(0)


def _init_worker(scratch):
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)
    warnings.simplefilter("ignore")
    os.environ["TMPDIR"] = scratch
    tempfile.tempdir = scratch
    d = tempfile.mkdtemp(dir=scratch)
    os.chdir(d)


def drive(ctx, fn, scns, limit=None, chunk=None):
    """Run the driver on every scenario in parallel processes."""
    limit = limit or ctx.n(200, 1200)
    mpc = mp.get_context("fork")
    out = [None] * len(scns)
    ex = cf.ProcessPoolExecutor(ctx.ncpu, mp_context=mpc, initializer=_init_worker,
                                initargs=(ctx.scratch,))
    try:
        futs = {ex.submit(_worker, fn, s, limit): i for i, s in enumerate(scns)}
        budget = ctx.n(600, 10800)
        try:
            for f in cf.as_completed(futs, timeout=budget):
                i = futs[f]
                try:
                    out[i] = f.result()
                except Exception as e:
                    out[i] = ("error", "worker died: %r" % (e,))
        except cf.TimeoutError:
            pass
    finally:
        procs = list((getattr(ex, "_processes", None) or {}).values())
        ex.shutdown(wait=False, cancel_futures=True)
        # nothing is left to do for them; threads and pools they started
        # must not delay the end
        for p in procs:
            p.kill()
    return [o or ("error", "not finished") for o in out]


def traces(ctx, name, module, driver, scns, expect=(), cfg=None, limit=None):
    """Trace job: drive, record, have TLC judge.  `expect`: clause names of
    this property which have to be evaluated at least once."""
    scns = list(scns)
    t0 = _real_time()
    res = drive(ctx, driver, scns, limit)
    good, where = [], []
    for s, (kind, tr) in zip(scns, res):
        if kind == "machinery":
            raise Machinery("%s: %s" % (name, tr))
        if kind == "error":
            ctx.violations.append({"job": name, "clause": "UnexpectedError",
                                   "scenario": s, "detail": tr})
        else:
            for t in (tr if isinstance(tr, list) else [tr]):
                good.append(t)
                where.append(s)
    t1 = _real_time()
    if good:
        validate(ctx, name, module, good, where, cfg)
    ctx.notes.append("%s: %d scenarios, driven in %.1f s, judged in %.1f s"
                     % (name, len(scns), t1 - t0, _real_time() - t1))
    for c in expect:
        if not ctx.counts.get(ctx.pid + "." + c):
            ctx.violations.append({"job": name, "clause": c, "scenario": None,
                                   "detail": "never observed in any execution"})


def _plain(v):
    """numpy scalars in recorded events"""
    if hasattr(v, "item"):
        return v.item()
    raise TypeError(type(v).__name__)


def validate(ctx, name, module, trs, where, cfg=None):
    path = os.path.join(ctx.scratch, "%s_%d.ndjson" % (name, len(ctx.models)))
    # longest first keeps the workers busy until the end
    order = sorted(range(len(trs)), key=lambda i: -len(trs[i]["ev"]))
    with open(path, "w") as f:
        for i in order:
            f.write(json.dumps(trs[i], default=_plain) + "\n")
    t = _real_time()
    rc, out = run_tlc(ctx, module, cfg or module + ".cfg", env={"TRACES": path})
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    if rc != 0 or "No error has been found" not in out or not m:
        keep = os.path.join(OUT, "replay", "machinery_%s.ndjson" % ctx.pid)
        os.makedirs(os.path.dirname(keep), exist_ok=True)
        shutil.copy(path, keep)
        raise Machinery("traces %s: %s" % (module, out[:1500] + "\n...\n" + out[-2500:]))
    done = set()
    for line in printed(out, "@D "):
        d = json.loads(line)
        if d["t"] in done:
            continue
        done.add(d["t"])
        c = d["c"] if isinstance(d["c"], dict) else {}
        for k, v in c.items():
            ctx.counts[k] = ctx.counts.get(k, 0) + v
    empty = {i + 1 for i, j in enumerate(order) if not trs[j]["ev"]}
    if done | empty != set(range(1, len(trs) + 1)):
        raise Machinery("traces %s: %d of %d traces judged" % (module, len(done), len(trs)))
    ctx.states += int(m.group(2))
    ctx.transitions += int(m.group(1))
    ctx.traces += len(done)
    ctx.models.append({"spec": module, "job": name, "traces": len(done),
                       "events": sum(len(t_["ev"]) for t_ in trs),
                       "generated": int(m.group(1)), "distinct": int(m.group(2)),
                       "wall_s": round(_real_time() - t, 2)})
    for line in dict.fromkeys(printed(out, "@V ")):
        v = json.loads(line)
        i = order[v["t"] - 1]
        for key in v["bad"]:
            p, c = key.split(".", 1)
            if ctx.pid in ("*", p):
                ctx.violations.append({
                    "job": name, "clause": c if p == ctx.pid else key, "scenario": where[i],
                    "detail": {"event": v["l"], "op": v["op"],
                               "recorded": trs[i]["ev"][v["l"] - 1],
                               "cfg": trs[i]["cfg"]}})
    if trs and len(ctx.samples) < 3:
        i = ctx.rng(name, "sample").randrange(len(trs))
        ctx.samples.append({"job": name, "scenario": where[i],
                            "cfg": trs[i]["cfg"], "first_events": trs[i]["ev"][:2]})


# --------------------------------------------------------------- verdict
def known_findings(pid):
    path = os.path.join(VERIF, "KNOWN_FINDINGS.json")
    if not os.path.exists(path):
        return []
    return [f for f in json.load(open(path))["findings"]
            if f["status"] == "known" and f["property"] == pid]


def matches(f, v):
    if f["clause"] != v["clause"]:
        return False
    scn = v.get("scenario") or {}
    return all(scn.get(k) == x for k, x in f["scenario"].items())


def _short(x, n=1500):
    s = json.dumps(x, default=str)
    return x if len(s) <= n else s[:n] + "..."


def finish(ctx, level, assumptions):
    known = known_findings(ctx.pid)
    shown, new = set(), []
    for v in ctx.violations:
        hit = [f for f in known if matches(f, v)]
        if hit:
            shown.add(hit[0]["what"])
        else:
            new.append(v)
    for w in sorted(shown):
        print("KNOWN-FINDING: property=%s %s" % (ctx.pid, w))
    own = {k: n for k, n in ctx.counts.items() if k.startswith(ctx.pid + ".")}
    ev = {"property": ctx.pid, "tier": ctx.tier, "seed": ctx.seed, "level": level,
          "coverage": {"states": ctx.states, "transitions": ctx.transitions,
                       "traces_validated_against_impl": ctx.traces,
                       "samples": [_short(s, 4000) for s in ctx.samples] or [{"models": ctx.models}],
                       "clauses_evaluated": own,
                       "runs": ctx.models, "log": ctx.notes},
          "assumptions": assumptions,
          "wall_s": round(_real_time() - ctx.t0, 2), "violations": len(new)}
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    with open(os.path.join(OUT, "evidence", ctx.pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    replay = os.path.join(OUT, "replay", ctx.pid + ".json")
    if new:
        os.makedirs(os.path.dirname(replay), exist_ok=True)
        by = {}
        for v in new:
            by.setdefault((v["job"], v["clause"]), []).append(v)
        with open(replay, "w") as f:
            json.dump({"property": ctx.pid, "tier": ctx.tier, "seed": ctx.seed,
                       "violations": [dict(vs[0], occurrences=len(vs)) for vs in by.values()]},
                      f, indent=1, default=str)
        for (job, c), vs in by.items():
            d = vs[0]["detail"]
            print("  %s: clause %s fails %d time(s), first: %s"
                  % (job, c, len(vs), json.dumps(_short(d, 600), default=str)[:700]))
        print("VIOLATION property=%s replay=%s" % (ctx.pid, replay))
        return 1
    if os.path.exists(replay):
        os.unlink(replay)
    print("%s holds: %d states, %d traces, %d clause evaluations, %.1f s"
          % (ctx.pid, ctx.states, ctx.traces, sum(own.values()), ev["wall_s"]))
    return 0
