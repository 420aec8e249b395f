"""Sampler runs judged by TracePMC: job selection shared by the properties about runs."""
import scen


def run_jobs(ctx, salt, over=None, n_frozen=0, n_peaked=0, limit=None, quick_limit=None, **fix):
    """Pairwise-covering run scenarios; thorough: several arrays and larger populations."""
    s = ctx.seed * 1000 + salt
    jobs = scen.covering(s, **fix)
    if ctx.quick:
        if quick_limit:
            jobs = jobs[:quick_limit]
    else:
        for k in range(1, 4):
            jobs += scen.covering(s + 100 * k, **fix)
        jobs += scen.big(s, 40)
    for i, j in enumerate(jobs):
        if i % 9 == 4:
            j["live"] = False      # the same run without save points
    for i, j in enumerate(jobs):
        if i % 5 == 2 and j.get("live", True):
            j["restart"] = [[2], [5], [1, 1], [3, 4], [8]][(i // 5) % 5]      # resumed from checkpoints on the way
    jobs += scen.frozen(s, n_frozen if ctx.quick else 4 * n_frozen)
    jobs += scen.peaked(s, n_peaked if ctx.quick else 5 * n_peaked)
    for j in jobs:
        j.update(over or {})
    return jobs


def check_runs(ctx, jobs, batch=200):
    for i in range(0, len(jobs), batch):
        ctx.validate("TracePMC", ctx.drive("drv_run", jobs[i:i + batch]))
    ctx.extra["run_scenarios"] = len(jobs)
