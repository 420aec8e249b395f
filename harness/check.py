"""check.py <property id>: quick or thorough according to VERIF_TIER, seeded by VERIF_SEED."""
import sys, os, importlib, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import Ctx, Infra


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ctx = Ctx(prop, tier, seed)
    try:
        importlib.import_module("props." + prop).check(ctx)
        rc = ctx.finish()
    except Infra as ex:
        if ctx.violations:
            rc = ctx.finish()
        else:
            print("ERROR (machinery): %s" % ex)
            rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        ctx.close()
    sys.exit(rc)


main()
