"""Runs of the real sampler, recorded for TracePMC (C01-C06, C08, C12, and parts of C07, C11, C19)."""
import numpy as np, os, io, contextlib, sys, random
import targets as tg
from drv import F, FV, FM, IV, digest

FIELDS = ["u", "x", "logdetj", "logl", "logp", "iter", "logz", "calls", "steps", "efficiency", "ess", "accept", "beta"]


def mk_prior(job):
    return tg.LoggedPrior(job["prior"], job.get("cut"), job.get("lattice", False))


def mk_lik(job, **kw):
    cls = tg.VecLik if job.get("vectorize") else tg.Lik
    return cls(job["m"], job["s"], job.get("off", 0.0), job.get("hole"), job.get("lattice", False), job.get("blob", "none"), **kw)


def mk_kwargs(job):
    d = len(job["prior"])
    kw = dict(random_state=job["seed"], pytorch_threads=1)
    for k in ("n_effective", "n_active", "vectorize", "periodic", "reflective", "transform", "train_frequency", "precondition", "dynamic",
              "metric", "n_prior", "sample", "n_steps", "n_max_steps", "resample", "output_dir", "output_label"):
        if k in job:
            kw[k] = job[k]
    if job.get("blob") in tg.BLOB_DTYPE:
        kw["blobs_dtype"] = tg.BLOB_DTYPE[job["blob"]]
    if job.get("precondition", True):
        f = job.get("flow", "maf1")
        import torch
        torch.manual_seed(job["seed"] % 2**31)      # user-supplied flows are initialised before the sampler seeds
        kw["flow"] = (tg.rec_flow if job.get("rec") else tg.tiny_flow)(d, f) if f in ("maf1", "maf2", "nsf1") else f
        kw["train_config"] = dict(epochs=job.get("epochs", 3))
    else:
        kw["flow"] = "maf3"
    return kw


def n_batches(job):
    na, ne = sizes(job)
    if job.get("n_prior") is None:
        return 2 * max(ne // na, 1)
    return max(job["n_prior"] // na, 1)


def sizes(job):
    ne, na = job.get("n_effective", 512), job.get("n_active", 256)
    if na is None:
        na = ne // 2
    if ne is None:
        ne = 2 * na
    return na, ne


def cfg_event(job, tracked=True):
    na, ne = sizes(job)
    d = len(job["prior"])
    ns = job.get("n_steps")
    ns = d // 2 if ns is None else ns
    nm = job.get("n_max_steps")
    nm = 10 * ns if nm is None else nm
    return dict(ev="cfg", neff=ne, nact=na, ness=-1, nprior=job.get("n_prior") or -1, tf=job.get("train_frequency") or -1, batches=n_batches(job), metric=job.get("metric", "ess"), dynamic=job.get("dynamic", True),
                resample=job.get("resample", "mult"), tracked=tracked, frozen=bool(job.get("lattice", False)),
                full=all(c["k"] == "norm" for c in job["prior"]) and job.get("cut") is None,
                maxsteps=max(1, nm), prior=[dict(k=c["k"], a=F(c["a"]), b=F(c["b"])) for c in job["prior"]],
                hascut=job.get("cut") is not None, cut=F(job.get("cut") or 0.0), m=FV(job["m"]), s=FV(job["s"]), off=F(job.get("off", 0.0)),
                hashole=job.get("hole") is not None, hole=F(job.get("hole") or 0.0))


def entry_digest(res, k, blobs):
    # numbers are compared as doubles: numpy widens integer columns when a float is appended
    return digest(*[np.asarray(res[f][k], dtype=float) for f in FIELDS]) + (blob_digest(blobs[k]) if blobs is not None else "")


def blob_digest(b):
    b = np.asarray(b)
    return digest(b.astype(float) if b.dtype.kind in "biuf" else b)


def iattr(smp, name):
    """An integer attribute of the sampler, -1 when there is no such attribute."""
    v = getattr(smp, name, None)
    return -1 if v is None else int(v)


class Recorder:
    """Turns the sampler's exposed state into trace events; never touches the sampler's own data."""
    def __init__(self, job, emit, lik, prior):
        self.job, self.emit, self.lik, self.prior = job, emit, lik, prior
        self.n = 0
        self.ids = {}
        self.flat = []
        self.kept = 0         # evaluations of the lineage up to the end of the last completed run
        self.base = 0         # evaluations of the lineage before this process's log
        self.is_ev = False
        self.flow_dig = self.geo_dig = ""
        self.want_pts = job.get("points", False)

    def evals(self):
        return self.base + tg.LOG["evals"]

    def snapshot(self, smp, final=False):
        """Called between iterations (live) or after a run: record all new history entries."""
        if self.want_pts:
            pts = tg.LOG["pts"]
            if pts:
                self.emit(ev="evals", pts=FM(pts))
                del pts[:]
        res = smp.results
        T = len(res["beta"])
        have = "blobs" in res and self.job.get("blob", "none") != "none"
        blobs = res["blobs"] if have else None
        digs = [entry_digest(res, k, blobs) for k in range(T)]
        lens = [len(res[f]) for f in FIELDS] + ([len(blobs)] if have else [])
        if not final and T != self.n + 1:
            self.emit(ev="flag", clause="C05.one-entry-per-iteration", ok=False)
        if self.job.get("geom") and not final and T == self.n + 1 and self.n >= n_batches(self.job):
            self.geometry(smp, res)
        for k in range(self.n, T):
            live = k == T - 1 and (not final or not self.is_ev)
            self.entry(smp, res, blobs, k, digs if live else digs[:k + 1], lens if live else [k + 1], live, k == T - 1)
        if T < self.n:
            self.emit(ev="flag", clause="C05.history-append-only", ok=False)
        self.n = max(self.n, T)
        return res, digs, lens

    def geometry(self, smp, res):
        """The geometry the last iteration's proposals were made with, against the population before it."""
        k = len(res["beta"]) - 1
        pre = self.job.get("precondition", True)
        g = getattr(smp, "theta_geometry" if pre else "u_geometry", None)
        nm, nc = getattr(g, "normal_mean", None), getattr(g, "normal_cov", None)
        if g is None or not hasattr(g, "normal_mean"):
            return
        if nm is None:
            self.emit(ev="flag", clause="C21.fitted-before-use", ok=False)
            return
        dg = digest(nm, nc, g.t_mean, g.t_cov, g.t_nu)
        Z = np.concatenate(res["u"][:k])
        if pre:
            from pocomc.tools import flow_numpy_wrapper
            ps = digest(*[p.detach().numpy() for p in smp.flow.flow.parameters()])
            trained = ps != self.flow_dig
            self.flow_dig = ps
            self.emit(ev="trained", k=int(k), trained=bool(trained), one=float(res["beta"][k]) == 1.0, first=k == n_batches(self.job))
            if dg == self.geo_dig:
                self.emit(ev="flag", clause="C21.refit-with-flow", ok=not trained)
                return
            Z = flow_numpy_wrapper(smp.flow).forward(Z)[0]
        self.geo_dig = dg
        ok = np.ndim(nc) == 2 and np.shape(nm) == (Z.shape[1],)
        self.emit(ev="geom", beta=F(res["beta"][k]), Z=FM(Z), nm=FV(nm) if ok else [], nc=FM(nc) if ok else [], tm=FV(g.t_mean), ok=bool(ok))

    def entry(self, smp, res, blobs, k, digs, lens, live, last):
        x, u = np.asarray(res["x"][k]), np.asarray(res["u"][k])
        xre, jre = smp.scaler.inverse(np.array(u, dtype=float))
        pure = [self.lik.pure(r) for r in x]
        val = [p[0] if isinstance(p, tuple) else p for p in pure]
        kind = self.job.get("blob", "none")
        blob = [tg.norm_blob(b, kind) for b in blobs[k]] if blobs is not None else []
        bre = [tg.norm_blob(p[1:], kind) for p in pure] if kind != "none" else []
        gid = []
        for i, r in enumerate(x):
            key = r.tobytes()
            g = self.ids.get(key)
            if g is None:
                g = self.ids[key] = len(self.flat) + 1
            gid.append(g)
            self.flat.append(key)
        na = len(x)
        pr = np.concatenate(tg.LOG["rvs"]) if tg.LOG["rvs"] else np.empty((0, x.shape[1]))
        pr = pr[k * na:(k + 1) * na] if k < n_batches(self.job) else pr[:0]
        if k < n_batches(self.job) and len(pr) != na and live:
            self.emit(ev="flag", clause="C11.prior-batch-recorded-once", ok=False)
            live = False
        self.emit(ev="iter", live=bool(live), last=bool(last), rows=na, digs=digs, dig=digs[k] if k < len(digs) else "", lens=lens, gid=gid,
                  perm=random.Random("%d/%d" % (self.job["seed"], k)).sample(range(1, na + 1), na),
                  logl=FV(res["logl"][k]), logp=FV(res["logp"][k]), logdetj=FV(res["logdetj"][k]), x=FM(x), u=FM(u), xre=FM(xre), jre=FV(jre),
                  lre=FV(val), pre=FV(self.prior.pure_logpdf(x)), blob=blob, bre=bre, pr=FM(pr) if live else [],
                  iter=int(res["iter"][k]), calls=int(res["calls"][k]), steps=int(res["steps"][k]), ess=F(res["ess"][k]),
                  accept=F(res["accept"][k]), beta=F(res["beta"][k]), logz=F(res["logz"][k]),
                  evals=int(self.evals()), tgt=int(smp.n_effective), tattr=iattr(smp, "t"), cattr=iattr(smp, "calls"))

    def done(self, smp, nev):
        res, digs, lens = self.snapshot(smp, final=True)
        z, err = smp.evidence()
        self.kept = self.evals()
        self.emit(ev="done", digs=digs, lens=lens, logw=FV(res["logw"]), logz=F(z), haserr=err is not None, err=F(err if err is not None else 0.0),
                  **{"is": bool(self.is_ev)}, nev=int(nev), cattr=iattr(smp, "calls"), evals=int(self.evals()))


def evidence_event(smp, emit, nev, is_ev):
    """All draws made from the flow in the last run, mapped to parameter space."""
    import torch
    z = torch.cat(tg.DRAWS) if tg.DRAWS else torch.empty((0, smp.n_dim))
    del tg.DRAWS[:]
    if not len(z):
        tg.LOG["at_draw"] = tg.LOG["evals"]
    x, ldj, logq = [], [], []
    if len(z):
        with torch.no_grad():
            d = smp.flow.flow()
            u, l = d.transform.inv.call_and_ladj(z)
            logq = (d.base.log_prob(z) - l).numpy().astype(float)
        x, ldj = smp.scaler.inverse(u.numpy())
    val, err = smp.evidence()
    emit(**{"is": bool(is_ev)}, ev="is", nev=int(nev), x=FM(x), ldj=FV(ldj), logq=FV(logq), logz=F(val), haserr=err is not None, err=F(err if err is not None else 0.0),
         evaluated=int(tg.LOG["evals"] - tg.LOG["at_draw"]))


def spy_class():
    import pocomc

    class Spy(pocomc.Sampler):
        """Sampler whose save points are handed to the recorder (and optionally really saved)."""
        def save_state(self, path):
            REC["hook"](self, str(path))

        def really_save(self, path):
            pocomc.Sampler.save_state(self, path)
    return Spy


class Restart(BaseException):
    """The process 'ends' right after a save; a new sampler resumes the file."""


REC = dict(hook=None)


def row_key(x, logl, logp, blob):
    return x.tobytes() + np.float64(logl).tobytes() + np.float64(logp).tobytes() + (blob.encode() if blob else b"")


def posterior_events(job, smp, rec, emit, opts_list, counts=()):
    kind = job.get("blob", "none")
    res = smp.results
    X = np.concatenate(res["x"]); LL = np.concatenate(res["logl"]); LP = np.concatenate(res["logp"])
    B = [tg.norm_blob(b, kind) for ent in res["blobs"] for b in ent] if kind != "none" else [None] * len(X)
    full, bare = {}, {}
    for i in range(len(X)):
        full.setdefault(row_key(X[i], LL[i], LP[i], B[i]), []).append(i + 1)
        bare.setdefault(row_key(X[i], LL[i], LP[i], None), []).append(i + 1)
    before = digest(X, LL, LP)
    for o in opts_list:
        out = smp.posterior(**o)
        rs, lw, rb = o.get("resample", False), o.get("return_logw", False), o.get("return_blobs", False)
        parts = list(out)
        x = parts.pop(0)
        w = None if rs else parts.pop(0)
        ll, lp = parts.pop(0), parts.pop(0)
        bl = parts.pop(0) if rb else None
        if parts:
            emit(ev="flag", clause="C12.rows-aligned", ok=False)
            continue
        lens = [len(x), len(ll), len(lp)] + ([len(w)] if w is not None else []) + ([len(bl)] if bl is not None else [])
        if len(set(lens)) != 1:
            emit(ev="flag", clause="C12.rows-aligned", ok=False)
            continue
        used, pos = {}, []
        table = full if rb else bare
        for i in range(len(x)):
            key = row_key(np.asarray(x[i]), ll[i], lp[i], tg.norm_blob(bl[i], kind) if rb else None)
            c = table.get(key, [])
            k = used.get(key, 0)
            if rs:
                pos.append(c[0] if c else 0)
            else:
                pos.append(c[k] if k < len(c) else 0)
                used[key] = k + 1
        trim = o.get("trim_importance_weights", True)
        kept = len(smp.posterior(trim_importance_weights=trim, **{k: v for k, v in o.items() if k in ("ess_trim", "bins_trim")})[0]) if rs else 0
        emit(ev="post", pos=pos, lens=lens, resample=bool(rs), logform=bool(lw), trim=bool(trim), ess=F(o.get("ess_trim", 0.99)),
             bins=int(o.get("bins_trim", 1000)), w=FV(w) if w is not None else [], nrows=len(x), kept=kept)
    for reps, o in counts:
        c = np.zeros(len(X), int)
        for _ in range(reps):
            out = smp.posterior(resample=True, **o)
            for i in range(len(out[0])):
                h = bare.get(row_key(np.asarray(out[0][i]), out[1][i], out[2][i], None))
                if h is None:
                    emit(ev="flag", clause="C12.rows-aligned", ok=False)
                    break
                c[rec.ids[X[h[0] - 1].tobytes()] - 1] += 1
        emit(ev="postcount", reps=reps, trim=bool(o.get("trim_importance_weights", True)), ess=F(o.get("ess_trim", 0.99)), bins=int(o.get("bins_trim", 1000)), counts=IV(c))
    res2 = smp.results
    emit(ev="flag", clause="C12.history-unchanged", ok=digest(np.concatenate(res2["x"]), np.concatenate(res2["logl"]), np.concatenate(res2["logp"])) == before)
    if kind == "none":
        try:
            smp.posterior(return_blobs=True)
            ok = False
        except ValueError:
            ok = True
        emit(ev="flag", clause="C12.blobs-refused", ok=ok)
    a, b = smp.posterior(), smp.posterior()
    emit(ev="flag", clause="C12.repeatable", ok=digest(*a) == digest(*b))


POST_OPTS = [dict(), dict(trim_importance_weights=False), dict(return_logw=True), dict(trim_importance_weights=False, return_logw=True),
             dict(ess_trim=0.8, bins_trim=50), dict(ess_trim=1.0), dict(ess_trim=0.5, bins_trim=10, return_logw=True),
             dict(resample=True), dict(resample=True, trim_importance_weights=False), dict(resample=True, ess_trim=0.7, bins_trim=20, return_logw=True)]


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


def interrupted(job, smp, rec, emit, fault, ex, lik):
    """User code raised inside run(): what is left, and how the run is continued."""
    same = ex is tg.FAULT["raised"]
    tg.FAULT.update(where=None, raised=None)
    # entries completed after the last save point
    is_ev, rec.is_ev = rec.is_ev, True
    if iattr(smp, "t") > 0 or rec.n > 0:
        res, digs, lens = rec.snapshot(smp, final=True)
        last = int(res["calls"][-1]) if len(res["calls"]) else 0
    else:
        digs, lens, last = [], [], 0
    rec.is_ev = is_ev
    last = max(last, rec.kept)
    del tg.DRAWS[:]
    # the interrupted iteration's evaluations do not belong to the lineage
    rec.base += last - rec.evals()
    emit(ev="fault", same=bool(same), where=fault["where"], digs=digs, lens=lens, tattr=iattr(smp, "t"), cattr=iattr(smp, "calls"), tgt=iattr(smp, "n_effective"))
    if fault.get("then") == "again":
        return smp, {}
    with quiet():
        smp.really_save("fault.state")
    kw = mk_kwargs(job)
    kw["random_state"] = (job["seed"] + 29) % 2**31
    return type(smp)(mk_prior(job), lik, **kw), dict(resume_state_path="fault.state")


def run(job, emit):
    tg.reset_log(job.get("points", False))
    prior, lik = mk_prior(job), mk_lik(job)
    emit(**cfg_event(job, tracked=job.get("live", True)))
    Spy = spy_class()
    rec = Recorder(job, emit, lik, prior)
    smp = Spy(prior, lik, **mk_kwargs(job))
    emit(ev="flag", clause="C20.likelihood-not-called-by-constructor", ok=tg.LOG["evals"] == 0)

    stops = list(job.get("restart", []))     # save points at which the run is abandoned and resumed by a new sampler
    n = [0]

    def hook(s, path):
        if not path.endswith("_final.state"):
            rec.snapshot(s)
            n[0] += 1
            if stops and n[0] >= stops[0]:
                stops.pop(0)
                n[0] = 0
                with quiet():
                    s.really_save("restart.state")
                raise Restart()
    REC["hook"] = hook
    faults = list(job.get("faults", []))
    for (ntot, nev) in job["runs"]:
        emit(ev="start", ntotal=int(ntot), tattr=iattr(smp, "t"))
        rec.is_ev = nev > 0 and job.get("precondition", True)
        more = {}
        while True:
            fault = faults.pop(0) if faults else None
            if fault:
                tg.arm(fault["where"], fault["left"], fault["exc"])
            try:
                with quiet():
                    smp.run(n_total=ntot, n_evidence=nev, progress=False, save_every=1 if job.get("live", True) else None, **more)
                if fault and tg.FAULT["raised"] is not None:
                    emit(ev="flag", clause="C23.exception-reaches-caller", ok=False)
                tg.FAULT["where"] = None
                break
            except Restart:
                kw = mk_kwargs(job)
                kw["random_state"] = (job["seed"] + 17) % 2**31
                smp = Spy(mk_prior(job), lik, **kw)
                more = dict(resume_state_path="restart.state")
            except BaseException as ex:
                if fault and tg.FAULT["raised"] is not None:
                    smp, more = interrupted(job, smp, rec, emit, fault, ex, lik)
                    emit(ev="start", ntotal=int(ntot), tattr=-1 if more else iattr(smp, "t"))
                    continue
                # A posterior this narrow can collapse the population onto fewer points than there are parameters.
                # The library gives up with this error; everything recorded up to then is still judged.
                if not (isinstance(ex, np.linalg.LinAlgError) and job.get("may_degenerate")):
                    raise
                return
        rec.done(smp, nev)
        if job.get("rec"):
            evidence_event(smp, emit, nev, rec.is_ev)
        if job.get("post"):
            opts = POST_OPTS + ([dict(o, return_blobs=True) for o in POST_OPTS] if job.get("blob", "none") != "none" else [])
            posterior_events(job, smp, rec, emit, opts, job.get("counts", ()))
