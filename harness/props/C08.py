"""C08 resampling."""
import itertools, random
from concurrent.futures import ThreadPoolExecutor
from drv_kinds import KINDS
from runs import check_runs
import scen


def function_jobs(ctx, rnd):
    top, N, sizes = (3, 3, [1, 2, 3, 5]) if ctx.quick else (3, 4, [1, 2, 3, 4, 5, 7])
    ws = [list(w) for n in range(1, N + 1) for w in itertools.product(range(top + 1), repeat=n) if sum(w) > 0]
    k = max(1, len(ws) // 8)
    jobs = [dict(what="comb", ws=ws[i:i + k], sizes=sizes) for i in range(0, len(ws), k)]
    for kind in KINDS:
        for r in range(1 if ctx.quick else 6):
            jobs.append(dict(what="syst", kind=kind, reps=24 if ctx.quick else 80, seed=rnd.randrange(2**31)))
        jobs.append(dict(what="systavg", kind=kind, reps=1 if ctx.quick else 5, seed=rnd.randrange(2**31)))
    return jobs


def check(ctx):
    rnd = random.Random(ctx.seed)
    with ThreadPoolExecutor(2) as ex:
        m = ex.submit(ctx.mc, "MC_Systematic", "MC_Systematic" if ctx.quick else "MC_Systematic_deep")
        ctx.validate("TraceFun", ctx.drive("drv_fun", function_jobs(ctx, rnd), timeout=120))
        m.result()
    # runs in which every proposal is rejected expose the ancestors of each iteration
    check_runs(ctx, scen.frozen(ctx.seed * 1000 + 8, 48 if ctx.quick else 400))
