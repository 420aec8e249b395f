"""C19 importance-sampling evidence: runs with a user-supplied flow that records its own draws."""
import random
import scen
from runs import check_runs

SEQS = [[[60, 400]], [[50, 0]], [[50, 300], [90, 0]], [[40, 0], [90, 250]], [[40, 250], [70, 300]], [[40, 200], [41, 0], [70, 200]], [[50, 1]], [[50, 7], [50, 500]]]


def jobs_for(ctx, rnd):
    jobs = []
    n = 1 if ctx.quick else 8
    for k in range(n):
        for i, p in enumerate(scen.PRIORS):
            for kern in ("ptpcn", "prwm") if not ctx.quick else (["ptpcn", "prwm"][(i + k) % 2],):
                for h in range(2 if ctx.quick else 3):
                    r = {d: rnd.choice(v) for d, v in scen.DIMS.items()}
                    r.update(prior=p, kernel=kern, hole=(h == 1 and p not in ("ub", "erl")), bc="-", nprior="default", sizes=rnd.choice(["48/16", "32/16"]))
                    if not scen.feasible(r) or (p == "ub" and r["hole"]):
                        continue
                    j = scen.to_job(r, rnd)
                    j.update(rec=True, epochs=rnd.choice([8, 30]), n_effective=64, n_active=32, runs=rnd.choice(SEQS[:1] + SEQS[2:] if h else SEQS), live=rnd.random() < 0.5)
                    jobs.append(j)
    for i in range(6 if ctx.quick else 40):        # without preconditioning n_evidence is ignored
        r = {d: rnd.choice(v) for d, v in scen.DIMS.items()}
        r.update(kernel=["tpcn", "rwm"][i % 2], hole=False, bc="-", prior=rnd.choice(["n2", "nu", "cutu", "u1"]))
        j = scen.to_job(r, rnd)
        j.update(rec=True, runs=rnd.choice(SEQS))
        jobs.append(j)
    return jobs


def check(ctx):
    rnd = random.Random(ctx.seed * 7 + 19)
    ctx.mc("MC_Evidence", "MC_Evidence" if ctx.quick else "MC_Evidence_deep", workers="4")
    jobs = jobs_for(ctx, rnd)
    ctx.extra["evidence_runs"] = sum(len(j["runs"]) for j in jobs)
    check_runs(ctx, jobs)
