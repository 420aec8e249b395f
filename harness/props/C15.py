"""C15 reparameterisation: every mix of bounds, both transforms, all scalings; folding lattice replayed."""
import itertools, random


def jobs_for(ctx, rnd):
    jobs = []
    dims = (1, 2, 3) if ctx.quick else (1, 2, 3, 4)
    mixes = ["".join(m) for d in dims for m in itertools.product("nlrb", repeat=d)]
    for rep in range(1 if ctx.quick else 6):
        rnd.shuffle(mixes)
        for i in range(0, len(mixes), 7):
            jobs.append(dict(what="maps", mixes=mixes[i:i + 7], seed=rnd.randrange(2**31)))
    jobs.append(dict(what="shared", seed=rnd.randrange(2**31)))
    R, W = (12, 5) if ctx.quick else (60, 9)
    for lo in range(-2, 3):
        for w in range(1, W + 1):
            for unit in (1.0, 0.5, 0.125):
                # column 0 periodic, 1 reflective, 2 free, 3 and 4 the other way round with shifted bounds
                los, his = [lo, lo, lo, -lo, lo + 1], [lo + w, lo + w, lo + w, -lo + w, lo + 1 + 2 * w]
                xs = [[v, v, v, -v, v + 1] for v in range(-R, R + 1)]
                for per, ref in (([0, 4], [1, 3]), ([0], []), ([], [1, 0]), ([], [])):
                    jobs.append(dict(what="bclat", lo=los, hi=his, unit=unit, periodic=per, reflective=ref, x=xs))
    for _ in range(8 if ctx.quick else 60):
        jobs.append(dict(what="bc", reps=12, seed=rnd.randrange(2**31)))
    return jobs


def check(ctx):
    rnd = random.Random(ctx.seed * 13 + 15)
    ctx.mc("MC_Fold", "MC_Fold" if ctx.quick else "MC_Fold_deep")
    jobs = jobs_for(ctx, rnd)
    ctx.extra["bound_mixes"] = "all mixes of 4 kinds in 1..%d dimensions" % (3 if ctx.quick else 4)
    ctx.validate("TraceReparam", ctx.drive("drv_reparam", jobs))
