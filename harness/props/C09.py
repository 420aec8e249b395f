"""C09 weight trimming."""
import itertools, random
from concurrent.futures import ThreadPoolExecutor
from drv_kinds import KINDS


def check(ctx):
    rnd = random.Random(ctx.seed)
    top = 3 if ctx.quick else 4
    N = 4 if ctx.quick else 5
    ws = [list(w) for n in range(1, N + 1) for w in itertools.product(range(top + 1), repeat=n) if sum(w) > 0]
    opts = [[1, 0.5], [2, 0.9], [3, 0.75], [7, 0.99], [5, 1.0], [40, 0.6]]
    jobs = []
    k = max(1, len(ws) // 8)
    for i in range(0, len(ws), k):
        jobs.append(dict(what="trimgrid", ws=ws[i:i + k], opts=opts if ctx.quick else opts + [[13, 0.85], [100, 0.3]]))
    for kind in KINDS:
        for r in range(1 if ctx.quick else 8):
            jobs.append(dict(what="trim", kind=kind, reps=14 if ctx.quick else 60, seed=rnd.randrange(2**31)))
    with ThreadPoolExecutor(2) as ex:
        m = ex.submit(ctx.mc, "MC_Trim", "MC_Trim" if ctx.quick else "MC_Trim_deep")
        ctx.validate("TraceFun", ctx.drive("drv_fun", jobs, timeout=60 if ctx.quick else 400))
        m.result()
    ctx.assumptions += ["weights non-negative with positive finite sum", "thresholds within 1e-9 of an order statistic may fall either side"]
