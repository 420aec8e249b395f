"""C12 posterior()."""
from runs import run_jobs, check_runs


def check(ctx):
    over = dict(post=True, counts=[[12, {}], [6, dict(trim_importance_weights=False)], [6, dict(ess_trim=0.6, bins_trim=40)]])
    check_runs(ctx, run_jobs(ctx, 12, over, n_frozen=6, quick_limit=90))
