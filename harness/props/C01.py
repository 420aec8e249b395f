"""C01 every stored particle record is coherent: all fields of every recorded particle, recomputed."""
from runs import run_jobs, check_runs


def check(ctx):
    ctx.mc("MC_Population", "MC_Population" if ctx.quick else "MC_Population_deep", workers="4")
    if not ctx.quick:
        ctx.mc_notices("MC_Population", ['blob-alias', 'warm-field', 'index-field', 'undefined-ratio'])
    check_runs(ctx, run_jobs(ctx, 1, n_frozen=4))
