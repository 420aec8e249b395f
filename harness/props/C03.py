"""C03 temperature ladder."""
from runs import run_jobs, check_runs


def check(ctx):
    ctx.mc("MC_Ladder", "MC_Ladder" if ctx.quick else "MC_Ladder_deep", workers="4")
    if not ctx.quick:
        ctx.mc_notices("MC_Ladder", ['restart', 'sides'])
    check_runs(ctx, run_jobs(ctx, 3, n_frozen=4, n_peaked=16))
