"""C16 product prior: every family, every ordered pair of families, and random longer lists."""
import random

FAM = ["norm", "unif", "expon", "rexp", "beta22", "laplace", "logistic", "gamma2", "halfnorm", "cauchy"]


def comp(rnd, k):
    if rnd.random() < 0.25:          # very small and very large scales
        b = 10 ** rnd.uniform(-10, 8)
        return dict(k=k, a=b * rnd.choice([0, 1, -3, rnd.uniform(-8, 8)]), b=b)
    return dict(k=k, a=round(rnd.uniform(-8, 8), 2), b=round(10 ** rnd.uniform(-1.5, 1.5), 3))


def check(ctx):
    rnd = random.Random(ctx.seed * 17 + 16)
    lists = [[k] for k in FAM] + [[a, b] for a in FAM for b in FAM]
    lists += [[rnd.choice(FAM) for _ in range(rnd.choice([3, 4, 6]))] for _ in range(30 if ctx.quick else 300)]
    jobs = []
    for rep in range(1 if ctx.quick else 4):
        for l in lists:
            cs = [comp(rnd, k) for k in l]
            for i in range(1, len(cs)):       # repeated components, sometimes the very same object
                if rnd.random() < 0.25:
                    cs[i] = dict(cs[0])
            big = 1500 if ctx.quick else 6000
            jobs.append(dict(comps=cs, sizes=[1, rnd.choice([2, 3, 7]), len(cs), big], seed=rnd.randrange(2**31), share=rnd.random() < 0.5))
    for i in range(0, len(jobs), 200):
        ctx.validate("TracePrior", ctx.drive("drv_prior", jobs[i:i + 200]))
    ctx.extra["component_lists"] = len(jobs)
    ctx.assumptions.append("columns of 1500+ draws are compared with the component's distribution function by the DKW bound (false-alarm probability 1e-10 per column)")
