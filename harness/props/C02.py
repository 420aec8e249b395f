"""C02 support: every likelihood evaluation and every stored particle."""
from runs import run_jobs, check_runs


def check(ctx):
    ctx.mc("MC_Population", "MC_Population" if ctx.quick else "MC_Population_deep", workers="4")
    if not ctx.quick:
        ctx.mc_notices("MC_Population", ['no-guard'])
    check_runs(ctx, run_jobs(ctx, 2, dict(points=True)))
