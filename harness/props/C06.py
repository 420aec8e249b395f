"""C06 likelihood-call counter: runs, resumed runs, and each kernel on its own."""
import random
from runs import run_jobs, check_runs
from props.C11 import command_sequences, jobs_for
import props.C07 as C07


def check(ctx):
    ctx.mc("MC_Lineage", "MC_Lineage" if ctx.quick else "MC_Lineage_deep")
    check_runs(ctx, run_jobs(ctx, 6))
    rnd = random.Random(ctx.seed + 6)
    jobs = [j for j in jobs_for(ctx, command_sequences(ctx), rnd, 24 if ctx.quick else 200) if "cmds" in j]
    ctx.extra["command_sequences_replayed"] = len(jobs)
    ctx.validate("TraceResume", ctx.drive("drv_resume", jobs))
    kj = [j for j in C07.jobs_for(ctx, rnd) if j["what"] in ("chain", "step")]
    rnd.shuffle(kj)
    ctx.validate("TraceKernel", ctx.drive("drv_kernel", kj[:40 if ctx.quick else 400]))
