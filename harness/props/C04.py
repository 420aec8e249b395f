"""C04 importance weights and SMC evidence: helper functions, arbitrary histories, and runs."""
import random
from drv_kinds import KINDS
from runs import run_jobs, check_runs


def check(ctx):
    rnd = random.Random(ctx.seed)
    R = 1 if ctx.quick else 6
    jobs = [dict(what="ess", kind=k, reps=12 * R, seed=rnd.randrange(2**31)) for k in KINDS]
    jobs += [dict(what="mix", reps=30 * R, seed=rnd.randrange(2**31)) for _ in range(8)]
    ctx.validate("TraceFun", ctx.drive("drv_fun", jobs, timeout=120))
    check_runs(ctx, run_jobs(ctx, 4, n_frozen=4))
