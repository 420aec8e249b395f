"""Command sequences of Lineage.tla (run / read / save / crash / resume) executed on the real sampler."""
import numpy as np, os, glob
import targets as tg
from drv import F, digest
from drv_run import mk_prior, mk_lik, mk_kwargs, n_batches, entry_digest, quiet, iattr, FIELDS


class Crash(BaseException):
    pass


W = dict(rng={}, saved=None, crash=None)   # process-wide, outside the pickled sampler


class CrashLik(tg.Lik):
    def __call__(self, x, *a, **k):
        maybe_crash()
        return super().__call__(x, *a, **k)


class CrashVec(tg.VecLik):
    def __call__(self, x, *a, **k):
        maybe_crash()
        return super().__call__(x, *a, **k)


def maybe_crash():
    c = W["crash"]
    if c is not None and c():
        raise Crash()


def rng_state():
    import torch
    return np.random.get_state(), torch.get_rng_state().clone()


def set_rng(st):
    import torch
    np.random.set_state(st[0])
    torch.set_rng_state(st[1])


def digs(res, job):
    have = "blobs" in res and job.get("blob", "none") != "none"
    return [entry_digest(res, k, res["blobs"] if have else None) for k in range(len(res["beta"]))]


def spy():
    import pocomc

    class Spy(pocomc.Sampler):
        def save_state(self, path):
            super().save_state(path)
            W["saved"](self, str(path))
    return Spy


def build(job, seed):
    cls = CrashVec if job.get("vectorize") else CrashLik
    lik = cls(job["m"], job["s"], job.get("off", 0.0), job.get("hole"), False, job.get("blob", "none"))
    kw = mk_kwargs(job)
    kw["random_state"] = seed
    kw["output_dir"] = job.get("dir", "states")
    kw["output_label"] = job.get("label", "pmc")
    return spy()(mk_prior(job), lik, **kw)


class CountingPool:
    """An external pool: map in order, counting what it was given."""
    def __init__(self):
        self.n = 0

    def map(self, f, xs):
        xs = list(xs)
        self.n += len(xs)
        return [f(x) for x in xs]


def do_pool(job, emit):
    """A state saved with or without a pool is resumed by a sampler with or without one."""
    for saver, loader in ((False, True), (True, False), (True, True)):
        tg.reset_log()
        W.update(crash=None, saved=lambda s, p: None)
        d = "d%d%d" % (saver, loader)
        def make(pool):
            kw = mk_kwargs(job)
            kw.update(output_dir=d, pool=pool)
            return spy()(mk_prior(job), mk_lik(job), **kw)
        a = make(CountingPool() if saver else None)
        with quiet():
            a.run(n_total=job["totals"][0], n_evidence=0, progress=False, save_every=2)
        fs = sorted(glob.glob(d + "/*.state"), key=lambda f: (len(f), f))
        for f in (fs[0], fs[-1]):
            pool = CountingPool() if loader else None
            b = make(pool)
            e0 = tg.LOG["evals"]
            with quiet():
                b.run(n_total=job["totals"][1], n_evidence=0, progress=False, resume_state_path=f)
            made = tg.LOG["evals"] - e0
            emit(ev="flag", clause="C11.own-pool-used", ok=bool(not loader or pool.n == made))
            emit(ev="flag", clause="C11.pool-not-in-state", ok=bool(b.pool is pool))


def run(job, emit):
    if job.get("what") == "pool":
        return do_pool(job, emit)
    helpers = [helper(job) for _ in range(3)] if job.get("fork") else []
    play(job, emit, job["cmds"], helpers)


def helper(job):
    """A separate process, started before anything happened here, that will carry out one resume."""
    import pickle
    r1, w1 = os.pipe()
    r2, w2 = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(w1); os.close(r2)
        code, out = 0, []
        try:
            data = os.fdopen(r1, "rb").read()
            if data:
                m = pickle.loads(data)
                W["rng"] = m["rng"]
                try:
                    play(job, lambda **e: out.append(e), [m["cmd"]], [], m["S"])
                except BaseException as ex:
                    import traceback
                    out.append(dict(ev="raise", exc=type(ex).__name__, msg=str(ex)[:300], tb=traceback.format_exc()[-1200:]))
                os.fdopen(w2, "wb").write(pickle.dumps((out, W["rng"], m["S"])))
        finally:
            os._exit(0)
    os.close(r1); os.close(w2)
    return w1, r2, pid


def delegate(h, c, S):
    import pickle
    w1, r2, pid = h
    with os.fdopen(w1, "wb") as f:
        f.write(pickle.dumps(dict(cmd=c, S={k: S[k] for k in ("evals_at", "n_at", "prior_at")}, rng=W["rng"])))
    with os.fdopen(r2, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data)


def play(job, emit, cmds, helpers, shared=None):
    tg.reset_log()
    totals = job["totals"]
    nev = job.get("nev", 0)
    S = dict(known=0, base=0, evals_at={}, n_at={}, prior_at={}, cur=None, prior0=0)
    if shared is not None:
        S.update(shared)

    def evals():
        return S["base"] + tg.LOG["evals"] - S["log0"]

    def filename(p):
        return os.path.relpath(p, os.getcwd())

    def saved(smp, path):
        n = len(smp.results["beta"]) if S["started"] else 0
        d = digs(smp.results, job) if n else []
        p = filename(path)
        W["rng"][p] = rng_state()
        S["evals_at"][p] = evals()
        S["n_at"][p] = n
        S["prior_at"][p] = len(tg.LOG["rvs"]) > S["prior0"] or S["restored"]
        emit(ev="saved", path=p, n=n, digs=d, t=iattr(smp, "t"), calls=iattr(smp, "calls"), evals=int(evals()), manual=S["manual"])

    W["saved"] = saved
    S.update(log0=0, started=False, restored=False, manual=False)

    def observe(smp, what, **kw):
        res = smp.results if S["started"] else None
        d = digs(res, job) if res else []
        emit(ev=what, digs=d, lens=[len(res[f]) for f in FIELDS] if res else [], iters=[int(i) for i in res["iter"]] if res else [],
             calls=[int(i) for i in res["calls"]] if res else [], t=iattr(smp, "t"), total=iattr(smp, "calls"), evals=int(evals()),
             rvs=len(tg.LOG["rvs"]) - S["prior0"], **kw)

    def files():
        return sorted(filename(f) for f in glob.glob(os.path.join(os.getcwd(), "**", "*"), recursive=True) if os.path.isfile(f))

    def go(smp, tot, every, crash, resume=None, t0=0):
        W["crash"] = None
        n_ev0 = tg.LOG["evals"]
        if crash:
            # die inside the evaluation work of the crash-th iteration of this call
            def due():
                return iter_count(smp) - t0 >= crash - 1 and tg.LOG["evals"] > n_ev0
            W["crash"] = due
        before = files()
        emit(ev="call", kind="resume" if resume else "run", total=int(tot), every=int(every or 0), t0=int(t0), files=before,
             dir=job.get("dir", "states"), label=job.get("label", "pmc"), path=resume or "")
        S["started"] = True
        crashed = False
        try:
            with quiet():
                kw = dict(n_total=tot, n_evidence=nev, progress=False, save_every=every or None)
                if resume:
                    kw["resume_state_path"] = resume
                smp.run(**kw)
        except Crash:
            crashed = True
        W["crash"] = None
        if crashed:
            emit(ev="crashed", files=files())
            return None
        z, err = smp.evidence()
        observe(smp, "done", files=files(), logz=F(z), err=F(-1.0 if err is None else err), tot=int(tot))
        return smp

    def iter_count(smp):
        try:
            return len(smp.results["beta"])
        except Exception:
            return 0

    smp = None
    if shared is None:
        emit(ev="problem", batches=n_batches(job), nact=int(job.get("n_active") or 0), seed=job["seed"], nev=int(nev))
        # the reference: one uninterrupted run to the largest total
        smp = build(job, job["seed"])
        W["crash"] = None
        S["started"] = True
        with quiet():
            smp.run(n_total=max(totals), n_evidence=nev, progress=False)
        z, err = smp.evidence()
        ref = smp.results
        emit(ev="ref", digs=digs(ref, job), calls=[int(i) for i in ref["calls"]], logz=F(z), err=F(-1.0 if err is None else err),
             res=digest(np.asarray(ref["logw"], float)), total=iattr(smp, "calls"), tot=int(max(totals)))
        S["started"] = False
        tg.reset_log()
        smp = build(job, job["seed"])
    for c in cmds:
        if c[0] == "run":
            if smp is None:
                smp = fresh(job, S)
                emit(ev="new")
            n0 = iter_count(smp) if S["started"] else 0
            smp = go(smp, totals[c[1] - 1], c[2], c[3], t0=n0)
        elif c[0] == "read" and smp is not None and S["started"]:
            observe(smp, "read")
        elif c[0] == "save" and smp is not None:
            S["manual"] = True
            with quiet():
                smp.save_state(os.path.join(job.get("mdir", "manual"), "m.state"))
            S["manual"] = False
        elif c[0] == "resume":
            have = [f for f in W["rng"] if os.path.exists(f)]
            if not have:
                continue
            # the file of that iteration, or the nearest one there is
            def dist(f):
                b = os.path.basename(f)
                k = 1001 if b == "m.state" else 1000 if b.endswith("_final.state") else int(b.split("_")[-1].split(".")[0])
                return abs(k - c[1]), f
            f = min(have, key=dist)
            if helpers:
                out, W["rng"], sh = delegate(helpers.pop(), c, S)
                for e in out:
                    emit(**e)
                if shared is None:
                    S["evals_at"], S["n_at"], S["prior_at"] = sh["evals_at"], sh["n_at"], sh["prior_at"]
                smp = None
                continue
            if job.get("same") and smp is not None:
                pass                               # the same object is taken back to the file's state
            else:
                smp = build(job, 12345)
            S["base"], S["log0"] = S["evals_at"][f], tg.LOG["evals"]
            S["prior0"] = len(tg.LOG["rvs"])
            S["restored"] = S["prior_at"][f]
            S["manual"] = False
            emit(ev="load", path=f, hadprior=bool(S["prior_at"][f]))
            set_rng(W["rng"][f])
            smp = go(smp, totals[c[2] - 1], c[3], c[4], resume=f, t0=S["n_at"][f])


def fresh(job, S):
    S.update(base=0, log0=tg.LOG["evals"], prior0=len(tg.LOG["rvs"]), restored=False, started=False)
    return build(job, job["seed"])
