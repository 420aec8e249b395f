"""C24 observing a run: command sequences of Observe.tla on the real sampler, compared with one plain run."""
import json, random, re
import scen
from lib import run_tlc, Infra

BUGS = ["fresh-tuning", "posterior-draws", "results-alias", "one-more", "save-draws", "shown-tuning"]


def command_sequences(ctx):
    rc, out, gen, dist = run_tlc(ctx.java, ctx.scratch, "MC_Observe", "MC_Observe_gen", workers="2")
    if rc:
        raise Infra("MC_Observe_gen: " + out[-800:])
    ctx.mcs.append("MC_Observe_gen: %d states" % dist)
    seqs = set()
    for m in re.findall(r'<<\s*"CMD",\s*(<<.*?>>)\s*>>\n', out, re.S):
        seqs.add(re.sub(r"\s+", "", m).replace("<<", "[").replace(">>", "]").replace("TRUE", "true").replace("FALSE", "false"))
    return [json.loads(x) for x in sorted(seqs)]


def useful(c):
    """A run below the final total, then looks: the last run then continues what was looked at."""
    kinds = [x[0] for x in c]
    low = [i for i, x in enumerate(c) if x[0] == "run" and x[1] == 1]
    if not low or any(x[0] == "run" and x[1] == 2 for x in c):
        return 0
    after = kinds[low[0] + 1:]
    return 1 + sum(k != "run" for k in after) + (kinds[0] in ("save", "pickle"))


def jobs_for(ctx, seqs, rnd, n):
    jobs = []
    base = []
    k = 0
    while len(base) < n:
        base += scen.covering(ctx.seed * 1000 + 24 + 100 * k)
        k += 1
    rnd.shuffle(base)
    for i in range(n):
        j = dict(base[i])
        j.pop("runs")
        pick = rnd.sample(seqs, 8)
        a = max(pick, key=useful) if i % 4 else pick[0]
        # behaviours of the model are closed under continuation: play two, one after the other
        b = [c for c in rnd.choice(seqs) if not (c[0] == "run" and c[1] == 2)] if i % 2 else []
        j["cmds"] = list(a) + b
        # every pair of a look and a continuation gets its turn
        if i % 3 == 0:
            j["cmds"] = [["run", 1, bool(i % 2), i % 3]] + [[x] for x in rnd.sample(["results", "posterior", "evidence", "save", "pickle"], 2)]
        j["totals"] = [[50, 100], [30, 80], [60, 61], [70, 140]][i % 4]
        j["lastshow"], j["lastevery"] = bool(i // 2 % 2), (0, 1, 2)[i % 3]
        j["vary"] = i
        if i % 4 == 3 and not j.get("vectorize"):
            j["pool"] = True            # the sampler's own pool stays in use
            j["cmds"] = j["cmds"] + [["pickle"], ["save"]][i // 4 % 2:]
        jobs.append(j)
    return jobs


def check(ctx):
    rnd = random.Random(ctx.seed * 31 + 24)
    ctx.mc("MC_Observe", "MC_Observe" if ctx.quick else "MC_Observe_deep")
    if not ctx.quick:
        ctx.mc_notices("MC_Observe", BUGS)
    seqs = command_sequences(ctx)
    ctx.extra["command_sequences_in_model"] = len(seqs)
    jobs = jobs_for(ctx, seqs, rnd, 70 if ctx.quick else 500)
    ctx.extra["command_sequences_replayed"] = len(jobs)
    for i in range(0, len(jobs), 200):
        ctx.validate("TraceObserve", ctx.drive("drv_observe", jobs[i:i + 200]))
