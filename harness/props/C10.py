"""C10 atomic saves: the save algorithm model, the recorded operations of real saves, and real saves cut at every operation."""
import random
import scen
from lib import run_tlc, Infra, build_shim

TARGETS = ["pmc_1.state", "run.v1.state", "sub/dir/pmc_12.state", "final", "a.b/c.state"]
SIBLINGS = [[], ["pmc_2.state", "pmc_1.temp", "pmc_10.state"], ["run.v2.state", "run.temp", "run.v1.bak"], ["sub/dir/pmc_1.state", "sub/dir/pmc_12.temp"], ["final.state", "final.old"]]


def check(ctx):
    rnd = random.Random(ctx.seed * 17 + 10)
    ctx.mc("MC_Checkpoint", "MC_Checkpoint" if ctx.quick else "MC_Checkpoint_deep", workers="2")
    if not ctx.quick:
        for b in ("inplace", "nosync", "noflush", "sharedtemp"):
            rc, out, _, _ = run_tlc(ctx.java, ctx.scratch, "MC_Checkpoint", "MC_Checkpoint_bug_" + b)
            if rc != 12:
                raise Infra("the model does not notice " + b)
    base = scen.covering(ctx.seed * 1000 + 10)
    rnd.shuffle(base)
    jobs = []
    n = 16 if ctx.quick else 120
    for i in range(n):
        j = dict(base[i % len(base)])
        j.pop("runs")
        k = i % 5
        j.update(what="cut", target=TARGETS[k], siblings=SIBLINGS[[1, 2, 3, 4, 1][k]] if i % 4 != 1 else [], before=i % 3 != 1, old="run" if i % 4 else "fresh", totals=[30, 70],
                 pathlib=bool(i % 2), rel=i % 5 == 3, max=70 if ctx.quick else 100000)
        if i % 6 == 2:
            j["garbage"] = [j["target"] + ".temp", j["target"] + ".tmp", j["target"].replace(".state", "") + ".temp"]
            j["garbage"] = [g for g in j["garbage"] if g not in j["siblings"] and g != j["target"]]
        jobs.append(j)
    for i in range(6 if ctx.quick else 40):
        j = dict(base[(n + i) % len(base)])
        j.pop("runs")
        j.update(what="run", dir=["states", "a/b", "."][i % 3], label=["pmc", "run.v1", "x"][i % 3], totals=[[60], [40, 80]][i % 2], every=1 + i % 3)
        jobs.append(j)
    for i in range(4 if ctx.quick else 30):
        j = dict(base[(2 * n + i) % len(base)])
        j.pop("runs")
        j.update(what="pair", before=bool(i % 2), totals=[40, 80],
                 targets=[["pmc_1.state", "pmc_2.state"], ["run.v1.state", "run.v2.state"], ["final", "final.state"], ["d/pmc_1.state", "d/pmc_10.state"]][i % 4])
        jobs.append(j)
    res = ctx.drive("drv_ckpt", jobs, env=dict(LD_PRELOAD=build_shim()), timeout=400)
    ctx.extra["cut_saves"] = sum(1 for _, ls in res for l in ls if '"ev": "cut"' in l)
    ctx.validate("TraceCheckpoint", res)
