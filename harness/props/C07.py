"""C07 Metropolis-Hastings kernels."""
import random
from concurrent.futures import ThreadPoolExecutor
from scen import PRIORS

KINDS = ["ptpcn", "prwm", "tpcn", "rwm"]


def problem(rnd, name, **over):
    P = PRIORS[name]
    j = dict(prior=P["prior"], m=P["m"], s=[v * rnd.choice([0.6, 1.0, 3.0]) for v in P["s"]], transform=rnd.choice(["probit", "logit"]),
             seed=rnd.randrange(2**31))
    if "cut" in P:
        j["cut"] = P["cut"]
    if rnd.random() < 0.4 and P["prior"][0]["k"] in ("norm", "unif"):
        c = P["prior"][0]
        j["hole"] = c["a"] - 0.5 * c["b"] if c["k"] == "norm" else c["a"] + 0.2 * c["b"]
    if all(c["k"] in ("unif", "beta22") for c in P["prior"]) and rnd.random() < 0.5:
        j.update(rnd.choice([dict(periodic=[0]), dict(reflective=[0])]))
    d = len(P["prior"])
    j["fa"] = [round(rnd.uniform(0.5, 2.0), 3) for _ in range(d)]
    j["fb"] = [round(rnd.uniform(-1, 1), 3) for _ in range(d)]
    j.update(over)
    return j


def jobs_for(ctx, rnd):
    R = 1 if ctx.quick else 5
    jobs = []
    names = list(PRIORS)
    for r in range(R):
        for i, name in enumerate(names):
            for k, kind in enumerate(KINDS):
                fl = "real" if (i + k + r) % 3 == 0 else "asinh"
                jobs.append(problem(rnd, name, what="step", kind=kind, n=250, betas=[rnd.choice([0.0, 0.03, 0.4]), 1.0], flow=fl,
                                    blob=rnd.choice(["none", "none", "named", "str", "vec"])))
                jobs.append(problem(rnd, name, what="chain", kind=kind, n=6, betas=[0.2, 1.0], flow=fl, arch=rnd.choice(["maf1", "maf2"])))
        for i, name in enumerate(("n2", "ub", "n1", "erl", "nu", "log3")):
            for k, kind in enumerate(KINDS):
                jobs.append(problem(rnd, name, what="law", kind=kind, n=6000, one=True, betas=[0.5], sigma=[0.25, 0.6, 0.85, 0.97][(i + k + r) % 4],
                                    far=i % 2 == 1))
                for q in ("hole", "periodic", "reflective"):
                    jobs[-1].pop(q, None)
        # invariance: walkers drawn from the target are distributed as the target after any number of steps
        for i, (name, beta) in enumerate((("n2", 0.7), ("n1", 0.3), ("ub", 0.0), ("erl", 0.0), ("log3", 0.0), ("n2", 1.0))):
            for k, kind in enumerate(KINDS):
                P = PRIORS[name]
                jobs.append(dict(prior=P["prior"], m=P["m"], s=P["s"], transform=rnd.choice(["probit", "logit"]), seed=rnd.randrange(2**31), what="inv", kind=kind,
                                 n=8000, betas=[beta], nmax=[1, 2, 6, 12][(i + k + r) % 4], flow="asinh", fa=[0.8, 1.5, 1.1][:len(P["prior"])],
                                 fb=[0.3, -0.5, 0.1][:len(P["prior"])]))
        for name in ("n2", "nu", "edge", "cutu"):
            for kind in KINDS:
                jobs.append(problem(rnd, name, what="inrun", kind=kind, n_active=32, n_effective=64, total=100, resample=rnd.choice(["mult", "syst"]),
                                    blob=rnd.choice(["none", "named"])))
    return jobs


def check(ctx):
    rnd = random.Random(ctx.seed * 77 + 7)
    with ThreadPoolExecutor(2) as ex:
        m = ex.submit(ctx.mc, "MC_MH", "MC_MH" if ctx.quick else "MC_MH_deep")
        jobs = jobs_for(ctx, rnd)
        for i in range(0, len(jobs), 160):
            ctx.validate("TraceKernel", ctx.drive("drv_kernel", jobs[i:i + 160]))
        m.result()
