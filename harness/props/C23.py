"""C23 interrupted runs: user code fails at any point of a run; the run is continued in place or from a state saved afterwards."""
import random
import scen
from runs import check_runs

EXC = ["RuntimeError", "ValueError", "IndexError", "TypeError", "KeyboardInterrupt", "StopIteration", "FloatingPointError", "KeyError", "MemoryError",
       "AttributeError", "SystemExit", "LinAlgError"]


def jobs_for(ctx, rnd):
    jobs = scen.covering(ctx.seed * 1000 + 23)
    if not ctx.quick:
        for k in range(1, 4):
            jobs += scen.covering(ctx.seed * 1000 + 23 + 100 * k)
    jobs += scen.peaked(ctx.seed * 1000 + 23, 6 if ctx.quick else 40)
    for i, j in enumerate(jobs):
        ns = j.get("n_steps", 1)
        na = j.get("n_active") or (j.get("n_effective") or 32) // 2
        j["faults"] = []
        if i % 7 == 6:
            j["live"] = False
        if j["precondition"] and i % 2:
            j["rec"] = True
        for q in range(1 + i % 3):
            where = "flow" if j.get("rec") and rnd.random() < 0.4 else "prior" if rnd.random() < 0.2 else "lik"
            # anywhere from the first warm-up batch to the evidence stage
            left = rnd.choice([rnd.randrange(4 * na), rnd.randrange(12 * na), rnd.randrange(40 * na)]) if where != "flow" else rnd.randrange(rnd.choice([4, 25, 60]))
            j["faults"].append(dict(where=where, left=left, exc=EXC[(i + 5 * q) % len(EXC)], then=["again", "save"][(i // 2 + q) % 2]))
    return jobs


def check(ctx):
    ctx.mc("MC_Interrupt", "MC_Interrupt" if ctx.quick else "MC_Interrupt_deep")
    if not ctx.quick:
        ctx.mc_notices("MC_Interrupt", ["counter", "target", "current", "untrained"])
    rnd = random.Random(ctx.seed * 101 + 23)
    jobs = jobs_for(ctx, rnd)
    ctx.extra["faults_armed"] = sum(len(j["faults"]) for j in jobs)
    check_runs(ctx, jobs)
