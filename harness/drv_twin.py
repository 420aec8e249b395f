"""The same run with the likelihood evaluated in different ways (C13)."""
import numpy as np, os, random, time, collections
import targets as tg
import fakempi
from drv import F, FV, digest
from drv_run import mk_prior, mk_lik, mk_kwargs, entry_digest, quiet, blob_digest


class Reorder:
    """A pool that finishes tasks in some other order; map returns results in task order."""
    def __init__(self, seed, lazy=False):
        self.rnd, self.lazy, self.bad = random.Random(seed), lazy, 0

    def map(self, f, tasks):
        tasks = list(tasks)
        order = list(range(len(tasks)))
        self.rnd.shuffle(order)
        out = [None] * len(tasks)
        for i in order:
            out[i] = f(tasks[i])
        return iter(out) if self.lazy else out


def one(job, mode, tag):
    """A complete run in the given mode -> observations."""
    import pocomc, torch
    ef = os.path.abspath("evals-%s" % tag)
    open(ef, "w").close()
    np.random.seed(job["noise"] + len(tag))
    torch.manual_seed(job["noise"] + 1 + len(tag))
    prior = mk_prior(job)
    j = dict(job, vectorize=mode == "vectorize")
    lik = mk_lik(j, evalfile=ef, sleep=1e-4 if mode == "thread" else None)
    kw = mk_kwargs(j)
    kw["vectorize"] = j["vectorize"]
    if "args" in job:
        kw["likelihood_args"] = [np.array(a) if isinstance(a, list) else a for a in job["args"]]
    if "kwargs" in job:
        kw["likelihood_kwargs"] = dict(job["kwargs"])
    close = None
    if mode in ("int1", "int2", "int3"):
        kw["pool"] = int(mode[-1])
    elif mode == "mp":
        from multiprocess import Pool
        kw["pool"] = close = Pool(2)
    elif mode == "thread":
        from concurrent.futures import ThreadPoolExecutor
        kw["pool"] = ThreadPoolExecutor(4)
    elif mode in ("reorder", "lazy"):
        kw["pool"] = Reorder(job["seed"] + 3, mode == "lazy")

    def body():
        smp = pocomc.Sampler(prior, lik, **kw)
        obs = []
        for ntot, nev in job["runs"]:
            with quiet():
                smp.run(n_total=ntot, n_evidence=nev, progress=False)
            obs.append(observe(job, smp))
        if mode in ("int1", "int2", "int3") and hasattr(getattr(smp, "pool", None), "terminate"):
            smp.pool.terminate()
        return obs, smp

    if mode == "mpi":
        obs, smp = in_mpi(job, kw, body)
    else:
        obs, smp = body()
    if close is not None:
        close.terminate()
    pts = collections.Counter(open(ef).read().split())
    res = smp.results
    x = np.concatenate(res["x"])
    add = np.concatenate(res["logl"]) - np.array([np.ravel(v)[0] if not isinstance(v, tuple) else v[0] for v in (lik.pure(r) for r in x)], dtype=float)
    return dict(mode=mode, entries=[o["entries"] for o in obs], posts=[o["post"] for o in obs], z=[o["z"] for o in obs], e=[o["e"] for o in obs],
                evals=digest(np.array(sorted("%s:%d" % p for p in pts.items()))), nevals=sum(pts.values()), calls=obs[-1]["calls"], add=[F(np.min(add)), F(np.max(add))],
                blobs=[o["blobs"] for o in obs])


def observe(job, smp):
    res = smp.results
    have = job.get("blob", "none") != "none"
    blobs = res["blobs"] if have else None
    T = len(res["beta"])
    rng = np.random.get_state()
    post = digest(*[np.asarray(a, dtype=float) for a in smp.posterior()]) + digest(*smp.posterior(resample=True))
    np.random.set_state(rng)
    z, e = smp.evidence()
    return dict(entries=[entry_digest(res, k, None) for k in range(T)], blobs=[blob_digest(b) for b in blobs] if have else [], post=post, z=F(z), e=F(-1.0 if e is None else e),
                calls=int(getattr(smp, "calls", -1)))


def in_mpi(job, kw, body):
    import atexit
    atexit.register = lambda *a, **k: None
    fakempi.install()
    rnd = random.Random(job["seed"] + 9)
    w = fakempi.world(1 + job.get("W", 3), lambda alts: rnd.choice(alts), limit=10**7, log=Forget())
    got = []

    def main(rank):
        from pocomc.parallel import MPIPool
        with MPIPool() as pool:
            kw["pool"] = pool
            got.append(body())
    out = w.start([main] * (1 + job.get("W", 3)))
    if not got:
        raise RuntimeError("run under the MPI pool ended with %s: %s" % (out, w.log.exc))
    return got[0]


class Forget(list):
    exc = ""
    def append(self, e):
        if e["op"] == "exc":
            self.exc = e["what"]


def run(job, emit):
    for i, mode in enumerate(job["modes"]):
        o = one(job, mode, "m%d" % i)
        exp = 0.0
        if "args" in job or "kwargs" in job:
            exp = tg.extra_of([np.array(a) if isinstance(a, list) else a for a in job.get("args", [])], job.get("kwargs", {}))
        emit(ev="ref" if i == 0 else "twin", expect=F(exp), **o)
