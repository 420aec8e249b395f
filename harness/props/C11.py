"""C11 resume: the command sequences of Lineage.tla on the real sampler, plus the exhaustive design model."""
import random, re
import scen
from lib import run_tlc, Infra

BUGS = ["warm-restart", "stale-results", "iter-index", "resume-counter"]


def command_sequences(ctx):
    """All behaviours of the model with three commands (TLC enumerates them)."""
    rc, out, gen, dist = run_tlc(ctx.java, ctx.scratch, "MC_Lineage", "MC_Lineage_gen", workers="2")
    if rc:
        raise Infra("MC_Lineage_gen: " + out[-800:])
    ctx.mcs.append("MC_Lineage_gen: %d states" % dist)
    seqs = set()
    for m in re.findall(r'<<\s*"CMD",\s*(<<.*?>>)\s*>>\n', out, re.S):
        seqs.add(re.sub(r"\s+", "", m).replace("<<", "[").replace(">>", "]"))
    import json
    return [json.loads(x) for x in sorted(seqs)]


def weight(c):
    kinds = [x[0] for x in c]
    return kinds.count("resume") * 3 + ("read" in kinds) + (kinds[0] == "save") + sum(x[0] in ("run", "resume") and x[-1] > 0 for x in c)


def jobs_for(ctx, seqs, rnd, n):
    base = scen.covering(ctx.seed * 1000 + 11)
    rnd.shuffle(base)
    good = [c for c in seqs if any(x[0] == "resume" for x in c)]
    jobs = []
    for i in range(n):
        j = dict(base[i % len(base)])
        j.pop("runs")
        j["cmds"] = max(rnd.sample(good, 6), key=weight) if i % 4 else rnd.choice(good)
        if j["precondition"] and i % 2:
            j["totals"], j["nev"] = [70, 70], 40
        else:
            j["totals"], j["nev"] = [45, 90], 0
        j["dir"] = ["states", "a/b", "out"][i % 3]
        j["label"] = ["pmc", "my_run", "x"][i % 3]
        if i % 5 == 2:
            j["same"] = True
        elif i % 5 == 3:
            j["fork"] = True       # every resume in a process of its own
        jobs.append(j)
    # every save point of a run, one after the other
    for i in range(4 if ctx.quick else 20):
        j = dict(base[(n + i) % len(base)])
        j.pop("runs")
        j["totals"], j["nev"] = ([70, 70], 40) if j["precondition"] else ([80, 80], 0)
        j["cmds"] = [["save"], ["run", 1, 1, 0]] + [["resume", k, 1, 0, 0] for k in list(range(1, 9)) + [1000, 1001]]
        jobs.append(j)
    for i in range(4 if ctx.quick else 12):
        j = dict(base[(2 * n + i) % len(base)])
        j.pop("runs")
        if j.pop("vectorize", None):
            pass
        j["totals"], j["what"] = [40, 70], "pool"
        jobs.append(j)
    return jobs


def check(ctx):
    rnd = random.Random(ctx.seed)
    ctx.mc("MC_Lineage", "MC_Lineage" if ctx.quick else "MC_Lineage_deep")
    ctx.mc("MC_Lineage", "MC_Lineage_live")
    if not ctx.quick:
        for b in BUGS:
            rc, out, _, _ = run_tlc(ctx.java, ctx.scratch, "MC_Lineage", "MC_Lineage_bug_" + b)
            if rc != 12:
                raise Infra("the model does not notice " + b)
    seqs = command_sequences(ctx)
    ctx.extra["command_sequences_in_model"] = len(seqs)
    jobs = jobs_for(ctx, seqs, rnd, 60 if ctx.quick else 600)
    ctx.extra["command_sequences_replayed"] = len(jobs)
    for i in range(0, len(jobs), 200):
        ctx.validate("TraceResume", ctx.drive("drv_resume", jobs[i:i + 200]))
