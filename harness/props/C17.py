"""C17 flows: every named architecture and user-supplied ones, fresh, perturbed and trained parameters."""
import random

ARCH = ["maf3", "maf6", "maf12", "nsf3", "nsf6", "nsf12", "default", "zmaf", "znsf"]
BAD = ["maf", "nsf", "maf4", "nsf9", "MAF3", "nsf_6", "", "realnvp", "maf3 ", 3, None, 6.0]


def check(ctx):
    rnd = random.Random(ctx.seed * 29 + 17)
    jobs = [dict(what="names", names=[[b, False] for b in BAD] + [[a, True] for a in ARCH[:6]])]
    for r in range(1 if ctx.quick else 5):
        for a in ARCH:
            for d in (1, 2, 3, 5):
                for p in ("fresh", "perturbed", "trained"):
                    if p == "trained" and (d in (1, 5) or a in ("maf12", "nsf12")) and ctx.quick:
                        continue
                    jobs.append(dict(what="flow", arch=a, d=d, params=p, amp=rnd.choice([0.02, 0.08]), seed=rnd.randrange(2**31), n=16, nj=4,
                                     size=rnd.choice([3, 50, 600]), tx=2e-2, tl=2e-2))
    rnd.shuffle(jobs)
    ctx.validate("TraceFlow", ctx.drive("drv_flow", jobs))
    ctx.extra["flows"] = len(jobs)
