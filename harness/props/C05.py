"""C05 stopping rule and history: runs (also resumed ones) judged iteration by iteration, plus command sequences of the lineage model."""
import random
from runs import run_jobs, check_runs
from props.C11 import command_sequences, jobs_for


def check(ctx):
    ctx.mc("MC_Lineage", "MC_Lineage" if ctx.quick else "MC_Lineage_deep")
    check_runs(ctx, run_jobs(ctx, 5, n_frozen=4))
    rnd = random.Random(ctx.seed + 5)
    jobs = [j for j in jobs_for(ctx, command_sequences(ctx), rnd, 24 if ctx.quick else 200) if "cmds" in j]
    ctx.extra["command_sequences_replayed"] = len(jobs)
    ctx.validate("TraceResume", ctx.drive("drv_resume", jobs))
