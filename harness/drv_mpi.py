"""MPIPool under every (small) or many random (larger) schedules of a deterministic MPI (C14)."""
import random, atexit
import numpy as np
import fakempi
from worker import HarnessError


class Quiet(list):
    def append(self, e):
        pass


def work(arg):
    r = fakempi.CUR["comm"].Get_rank()
    fakempi.CUR["comm"].w.log.append(dict(op="exec", rank=r, arg=int(arg)))
    return value(int(arg))


def work2(arg):
    r = fakempi.CUR["comm"].Get_rank()
    fakempi.CUR["comm"].w.log.append(dict(op="exec", rank=r, arg=int(arg)))
    return None if int(arg) % 3 == 0 else value(int(arg))


def value(a):
    return 3 * a + 1


def tasks_of(kind, args):
    if kind == "array": return np.array(args)
    if kind == "tuple": return tuple(args)
    if kind == "gen": return (a for a in args)
    return list(args)


def one(job, choose):
    """One run: W workers, the maps of job['maps'] in order, then close.  Returns the operation log."""
    log = []
    w = fakempi.world(job["W"] + 1, choose, rendezvous=job.get("rendezvous", False), log=log, limit=400 + 60 * sum(len(m) for m in job["maps"]))

    def main(rank):
        from pocomc.parallel import MPIPool
        comm = fakempi.CUR["comm"] if job.get("comm") else None
        if rank != 0:
            MPIPool(comm) if comm is not None else MPIPool()
            log.append(dict(op="past-exit", rank=rank))     # workers never return from the constructor
            return
        pool = MPIPool(comm=comm) if comm is not None else MPIPool()
        if job.get("with"):
            with pool as p:
                body(p)
                log.append(dict(op="closing"))
        else:
            body(pool)
            log.append(dict(op="closing"))
            pool.close()
        log.append(dict(op="closed"))

    def body(pool):
        for i, args in enumerate(job["maps"]):
            f = work2 if (job.get("none") and i % 2) else work
            log.append(dict(op="map", args=list(args), none=f is work2))
            r = pool.map(f, tasks_of(job["kind"], args))
            log.append(dict(op="ret", islist=isinstance(r, list), res=[-1 if v is None else int(v) for v in r]))
    out = w.start([main] * (job["W"] + 1))
    if out == "stuck":
        raise HarnessError("scheduler stuck")
    return log, out, w.steps


def emit_run(job, emit, log, out, sched):
    evs = []
    for e in log:
        evs.append(dict(op=e["op"], rank=e.get("rank", e.get("src", 0)), dst=e.get("dst", -1), tag=e.get("tag", -1), quit=e.get("quit", False), arg=e.get("arg", -1),
                        args=e.get("args", []), none=e.get("none", False), res=e.get("res", []), what=e.get("what", "")))
    emit(ev="run", W=job["W"], outcome=out, ops=evs, sched=sched[:80])


def run(job, emit):
    atexit.register = lambda *a, **k: None      # the fake world is gone at interpreter exit
    fakempi.install()
    if job["what"] == "single":
        w = fakempi.world(1, lambda a: a[0])
        res = []
        def main(rank):
            from pocomc.parallel import MPIPool
            try:
                MPIPool()
                res.append(False)
            except ValueError:
                res.append(True)
        w.start([main])
        emit(ev="flag", clause="C14.needs-a-worker", ok=res == [True])
        return
    if job["what"] == "many":        # more tasks than any fixed-width tag
        rnd = random.Random(job["seed"])
        res = []
        w = fakempi.world(job["W"] + 1, lambda alts: max(alts, key=lambda a: a[0]), log=Quiet(), limit=40 * job["n"])

        def main(rank):
            from pocomc.parallel import MPIPool
            with MPIPool() as pool:
                res.append(pool.map(work, list(range(job["n"]))) == [value(a) for a in range(job["n"])])
        w.start([main] * (job["W"] + 1))
        emit(ev="flag", clause="C14.results-in-task-order", ok=res == [True])
        return
    seen = set()
    n = 0
    if job["what"] == "all":
        # depth-first enumeration of every schedule
        prefix = []
        while True:
            taken = []
            def choose(alts):
                k = len(taken)
                i = prefix[k] if k < len(prefix) else 0
                taken.append((i, len(alts)))
                return alts[i]
            log, out, _ = one(job, choose)
            n += 1
            key = repr(log)
            if key not in seen:
                seen.add(key)
                emit_run(job, emit, log, out, [i for i, _ in taken])
            while taken and taken[-1][0] + 1 >= taken[-1][1]:
                taken.pop()
            if not taken or n >= job["max"]:
                break
            prefix = [i for i, _ in taken[:-1]] + [taken[-1][0] + 1]
        emit(ev="stats", schedules=n, complete=not taken)
    else:
        rnd = random.Random(job["seed"])
        for _ in range(job["n"]):
            mode = rnd.choice(["uniform", "prio", "lifo", "slow"])
            prio = {}
            slow = rnd.randrange(1, job["W"] + 1)
            taken = []
            def choose(alts):
                if mode == "uniform" or rnd.random() < 0.1:
                    c = rnd.choice(alts)
                elif mode == "prio":
                    c = max(alts, key=lambda a: prio.setdefault(a[0], rnd.random()))
                    if rnd.random() < 0.1:
                        prio[c[0]] = rnd.random()
                elif mode == "lifo":
                    c = alts[-1] if rnd.random() < 0.5 else alts[0]
                else:
                    o = [a for a in alts if a[0] != slow and not (a[2] and isinstance(a[2], tuple) and a[2][0] == slow)]
                    c = rnd.choice(o or alts)
                taken.append(alts.index(c))
                return c
            log, out, _ = one(job, choose)
            emit_run(job, emit, log, out, taken)
