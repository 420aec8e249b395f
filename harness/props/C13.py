"""C13 executors: the same run, every way of evaluating the likelihood."""
import random
import scen
from lib import run_tlc, Infra

POOLS = ["int2", "reorder", "lazy", "thread", "mp", "mpi", "int3", "int1"]


def check(ctx):
    rnd = random.Random(ctx.seed * 13 + 13)
    ctx.mc("MC_Dist", "MC_Dist" if ctx.quick else "MC_Dist_deep", workers="4")
    if not ctx.quick:
        rc, out, _, _ = run_tlc(ctx.java, ctx.scratch, "MC_Dist", "MC_Dist_bug_unordered")
        if rc != 12:
            raise Infra("the model does not notice unordered results")
    jobs = []
    for k in range(1 if ctx.quick else 6):
        base = scen.covering(ctx.seed * 1000 + 13 + 50 * k)
        rnd.shuffle(base)
        for i, j in enumerate(base[:44 if ctx.quick else 200]):
            j.pop("vectorize", None)
            if i % 4 == 1:
                j.pop("blob", None)
            j["modes"] = ["serial", "serial"] if i % 6 == 5 else ["serial"] + [POOLS[i % 8], POOLS[(3 * i + 1) % 8]]
            if j.get("blob", "none") == "none":
                j["modes"] = j["modes"] + ["vectorize"]
            if i % 3 == 0:
                j["args"] = rnd.choice([[0.5, -2.0], [[1.0, 2.0], 3.0], [], [0.0], ["abc", 1.5], [None, 2.0, False], [0, ""]])
            if i % 3 != 1 and rnd.random() < 0.6:
                j["kwargs"] = rnd.choice([dict(b=0.25), dict(b=1.0, a=-3.0), {}, dict(data=[1.0, 2.0], c="xy"), dict(b=None, a=0, f=False), dict(c="", d=None)])
            if i % 7 == 3 and j["precondition"]:
                j["flow"] = "maf3"
            j["noise"] = rnd.randrange(10**6)
            j["W"] = rnd.randint(1, 4)
            jobs.append(j)
    ctx.extra["twin_runs"] = sum(len(j["modes"]) - 1 for j in jobs)
    for i in range(0, len(jobs), 200):
        ctx.validate("TraceDist", ctx.drive("drv_twin", jobs[i:i + 200]))
