"""C21 proposal geometry: formulas, fixed point, equivariance, and runs that need it in low and high dimension."""
import random
import scen


def check(ctx):
    rnd = random.Random(ctx.seed * 19 + 21)
    jobs = [dict(kind=k, d=d, reps=6 if ctx.quick else 60, seed=rnd.randrange(2**31))
            for k in ("normal", "t2", "cauchy", "unif", "skew", "modes", "dups") for d in (1, 2, 3, 5)]
    ctx.validate("TraceGeometry", ctx.drive("drv_geometry", jobs))
    js = scen.covering(ctx.seed * 1000 + 21)
    rnd.shuffle(js)
    js.sort(key=lambda j: len(j["prior"]) != 1)
    js = js[:40 if ctx.quick else 128]
    for j in js:
        j["geom"], j["live"] = True, True
    ctx.validate("TracePMC", ctx.drive("drv_run", js))
