"""Run the check of one property:  /opt/venv/bin/python check.py C01 [--job PART:N]

Tier from VERIF_TIER (quick or thorough), seed from VERIF_SEED (recorded only: nothing explored is random)."""
import importlib
import os
import sys
import warnings

for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[_v] = "1"
os.environ["MPLBACKEND"] = "Agg"
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from mc import core  # noqa: E402

sys.path.insert(0, core.REPO)
os.chdir(HERE)


def main():
    pid = sys.argv[1]
    only = None
    if len(sys.argv) > 3 and sys.argv[2] == "--job":
        part, n = sys.argv[3].rsplit(":", 1)
        only = (part, int(n))
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "0"))
    warnings.simplefilter("ignore")
    sys.stdout = open(os.devnull, "w")  # the code under test prints
    ctx = core.Ctx(pid, tier, seed, "model_checking", only)
    doing = "importing the code"
    try:
        mod = importlib.import_module("mc." + pid.lower())
        doing = "preparing the exploration"
        mod.run(ctx)
    except (Exception, SystemExit) as e:
        import traceback
        tb = traceback.format_exc()
        if core.REPO + os.sep not in tb:
            raise
        ctx.total.violations.append({"part": "import", "job": 0, "what": f"{type(e).__name__}: {e}",
                                     "case": doing, "key": None, "traceback": tb})
    return ctx.finish()


if __name__ == "__main__":
    code = main()
    core.REAL_STDOUT.flush()
    sys.exit(code)
