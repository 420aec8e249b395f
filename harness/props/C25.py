"""C25 several samplers in one process: the interleavings of Isolate.tla on two real samplers."""
import json, random, re
import scen
from lib import run_tlc, Infra

BUGS = ["shared-default", "input-edited", "shared-stream", "input-used-up", "shared-results"]


def interleavings(ctx):
    rc, out, gen, dist = run_tlc(ctx.java, ctx.scratch, "MC_Isolate", "MC_Isolate_gen", workers="2")
    if rc:
        raise Infra("MC_Isolate_gen: " + out[-800:])
    ctx.mcs.append("MC_Isolate_gen: %d states" % dist)
    seqs = set()
    for m in re.findall(r'<<\s*"CMD",\s*(<<.*?>>)\s*>>\n', out, re.S):
        seqs.add(re.sub(r"\s+", "", m).replace("<<", "[").replace(">>", "]"))
    return [json.loads(x) for x in sorted(seqs)]


def value(c):
    """Runs of one sampler with something of the other in between."""
    n = 0
    for q in "AB":
        k = [i for i, o in enumerate(c) if o[0] == q and o[1] in ("build", "run")]
        n += sum(any(o[0] != q and o[1] in ("build", "run") for o in c[a + 1:b]) for a, b in zip(k, k[1:]))
    return n


def jobs_for(ctx, seqs, rnd, n):
    base, k = [], 0
    while len(base) < 2 * n:
        base += scen.covering(ctx.seed * 1000 + 25 + 100 * k)
        k += 1
    rnd.shuffle(base)
    jobs = []
    for i in range(n):
        a, b = dict(base[2 * i]), dict(base[2 * i + 1])
        a.pop("runs"), b.pop("runs")
        same = i % 2 == 0
        if same:
            for key in ("prior", "cut", "m", "s", "hole", "periodic", "reflective"):
                b.pop(key, None)
                if key in a:
                    b[key] = a[key]
            if len(a["prior"]) == 1 and b.get("flow") == "nsf1":
                b["flow"] = "maf1"
            b.setdefault("n_steps", 1)
        j = dict(A=a, B=b, sameprior=same, ops=max(rnd.sample(seqs, 5), key=value), usetrain=i % 3 != 0, asarray=i % 5 == 1,
                 train=[{}, dict(patience=2), dict(batch_size=8, noise=0.1)][i % 3])
        d = min(len(a["prior"]), len(b["prior"]))
        j["periodic"] = [None, [0], [0]][i % 3]
        j["reflective"] = [None, None, [1] if d > 1 else None][i % 3]
        for q in (a, b):
            if rnd.random() < 0.25:
                q["noseed"] = True
        if i % 6 in (2, 3):
            for q in (a, b):
                q.update(precondition=True, flow="maf3")      # built by name
        if i % 6 == 4:
            b["seed"] = a["seed"]
        jobs.append(j)
    return jobs


def check(ctx):
    rnd = random.Random(ctx.seed * 31 + 25)
    ctx.mc("MC_Isolate", "MC_Isolate" if ctx.quick else "MC_Isolate_deep")
    if not ctx.quick:
        ctx.mc_notices("MC_Isolate", BUGS)
    seqs = interleavings(ctx)
    ctx.extra["interleavings_in_model"] = len(seqs)
    jobs = jobs_for(ctx, seqs, rnd, 60 if ctx.quick else 400)
    ctx.extra["interleavings_replayed"] = len(jobs)
    for i in range(0, len(jobs), 200):
        ctx.validate("TraceIsolate", ctx.drive("drv_isolate", jobs[i:i + 200]))
