"""C14 MPI pool: the protocol model under every schedule, and the real pool under every schedule of small worlds."""
import random, json


def check(ctx):
    rnd = random.Random(ctx.seed * 5 + 14)
    ctx.mc("MC_MPIPool", "MC_MPIPool" if ctx.quick else "MC_MPIPool_deep", workers="6", timeout=1500)
    jobs = [dict(what="single")]
    cap = 1500 if ctx.quick else 40000
    small = [(1, [[]]), (1, [[1]]), (1, [[1, 2], [3]]), (2, [[]]), (2, [[4]]), (2, [[1, 2]]), (2, [[1, 2, 3]]), (2, [[5, 5], [6, 7]]), (3, [[1, 2]]), (3, [[1, 2, 3]]), (2, [[1], [], [2, 3]]), (3, [[9], [8, 7]]),
             (4, [[1, 2]]), (2, [[1, 2, 3, 4]])]
    if not ctx.quick:
        small += [(3, [[1, 2, 3, 4]]), (3, [[1, 2], [3, 4, 5]]), (2, [[1, 2, 3, 4, 5]]), (4, [[1, 2, 3, 4]])]
    for i, (W, maps) in enumerate(small):
        for rv in (False, True):
            jobs.append(dict(what="all", W=W, maps=maps, max=cap, rendezvous=rv, kind=["list", "array", "tuple", "gen"][i % 4], **{"with": bool(i % 2)}, none=bool(i % 3 == 1), comm=bool(i % 2) != rv))
    for i in range(40 if ctx.quick else 400):
        W = rnd.randint(1, 7)
        maps = [[rnd.randint(0, 40) for _ in range(rnd.choice([0, 1, W - 1, W, W + 1, 2 * W, 3 * W + 1, 20]))] for _ in range(rnd.randint(1, 4))]
        jobs.append(dict(what="random", W=W, maps=maps, n=12, seed=rnd.randrange(2**31), rendezvous=rnd.random() < 0.4, kind=rnd.choice(["list", "array", "tuple", "gen"]),
                         none=rnd.random() < 0.5, comm=rnd.random() < 0.5, **{"with": rnd.random() < 0.5}))
    jobs.append(dict(what="many", W=rnd.choice([2, 3]), n=33000 if ctx.quick else 140000, seed=rnd.randrange(2**31)))
    res = ctx.drive("drv_mpi", jobs, timeout=700 if ctx.quick else 3000)
    st = [json.loads(l) for _, ls in res for l in ls if '"ev": "stats"' in l]
    ctx.extra["schedules_enumerated"] = sum(s["schedules"] for s in st)
    ctx.extra["worlds_enumerated_completely"] = sum(s["complete"] for s in st)
    ctx.extra["worlds"] = len(st)
    ctx.validate("TraceMPI", res)
