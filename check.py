#!/opt/venv/bin/python
"""check.py PROPERTY [--tier quick|thorough]: decide one property of /repo."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ENV = {"PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "OMP_NUM_THREADS": "1",
       "OPENBLAS_NUM_THREADS": "1", "MPLBACKEND": "agg"}
PY = "/opt/venv/bin/python"
if os.environ.get("VERIF_ENV") != "1":
    os.environ.update(ENV, VERIF_ENV="1")
    os.execv(PY, [PY] + sys.argv)

import argparse
import importlib
import traceback

sys.path.insert(0, os.path.join(HERE, "harness"))
REPO = os.environ.get("SKOPT_REPO", "/repo")
sys.path.insert(0, REPO)
import core
import registry


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    a = ap.parse_args()
    prop = registry.PROPS[a.pid]
    ctx = core.Ctx(a.pid, a.tier, a.seed)
    os.environ["MPLCONFIGDIR"] = os.path.join(ctx.scratch, "mpl")
    os.makedirs(os.environ["MPLCONFIGDIR"])
    try:
        try:
            import skopt
            assert os.path.realpath(skopt.__file__).startswith(REPO + "/"), skopt.__file__
            fam = importlib.import_module(prop["family"])
        except AssertionError:
            raise
        except Exception:
            ctx.violations.append({"job": "import", "clause": "Importable", "scenario": None,
                                   "detail": traceback.format_exc()[-2000:]})
        else:
            fam.run(ctx)
        rc = core.finish(ctx, prop["level"], prop["assumptions"])
    except core.Machinery as e:
        print("MACHINERY %s: %s" % (a.pid, e))
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        ctx.close()
    sys.stdout.flush()
    os._exit(rc)


if __name__ == "__main__":
    main()
