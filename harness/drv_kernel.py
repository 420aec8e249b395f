"""Calls of the four MCMC kernels (and kernel calls made by real runs), recorded for TraceKernel."""
import numpy as np
import targets as tg
from drv import F, FV, FM
from drv_run import mk_prior, mk_lik, mk_kwargs, cfg_event, quiet

NAMES = {"ptpcn": "preconditioned_pcn", "prwm": "preconditioned_rwm", "tpcn": "pcn", "rwm": "rwm"}


class AsinhFlow:
    """theta = a asinh(v) + b with its exact Jacobian; the interface of pocomc.Flow used by the kernels."""
    def __init__(self, a, b):
        self.a, self.b = np.asarray(a, float), np.asarray(b, float)

    def forward(self, v):
        import torch
        v = np.asarray(v.detach(), float)
        th = self.a * np.arcsinh(v) + self.b
        ld = np.sum(np.log(self.a) - 0.5 * np.log1p(v * v), axis=1)
        return torch.tensor(th, dtype=torch.float32), torch.tensor(ld, dtype=torch.float32)

    def inverse(self, th):
        import torch
        t = (np.asarray(th.detach(), float) - self.b) / self.a
        v = np.sinh(t)
        ld = np.sum(np.log(np.cosh(t)) - np.log(self.a), axis=1)
        return torch.tensor(v, dtype=torch.float32), torch.tensor(ld, dtype=torch.float32)


class Rec:
    """Records what passes between a kernel and its collaborators, step by step."""
    def __init__(self, scaler, flow):
        self.scaler, self.flow = scaler, flow
        self.cur, self.steps, self.stats = {}, [], []
        self.evals = 0

    # -- proxies
    def scaler_proxy(self):
        rec = self

        class P:
            def __getattr__(self, k):
                return getattr(rec.scaler, k)

            def inverse(self, u):
                u0 = np.array(u, dtype=float)
                x, ld = rec.scaler.inverse(u)
                rec.cur.setdefault("u1", u0)
                rec.cur.update(u=u0, x=np.array(x, float), ld=np.array(ld, float))
                return x, ld
        return P()

    def flow_proxy(self):
        rec = self

        class P:
            def __getattr__(self, k):
                return getattr(rec.flow, k)

            def forward(self, v):
                th, ld = rec.flow.forward(v)
                rec.start = (np.array(th.detach(), float), -np.array(ld.detach(), float))
                return th, ld

            def inverse(self, th):
                v, ld = rec.flow.inverse(th)
                rec.cur.update(th=np.array(th.detach(), float), lf=np.array(ld.detach(), float))
                return v, ld
        return P()

    def bar(self):
        rec = self

        class Bar:
            info = dict(calls=0)

            def update_stats(self, d):
                if "acc" in d:
                    rec.stats.append(float(d["acc"]))
                    rec.steps.append(rec.cur)
                    rec.cur = {}

            def update_iter(self):
                pass

            def close(self):
                pass
        return Bar()

    def loglike(self, f):
        def g(x):
            self.evals += len(x)
            return f(x)
        return g


def walkers(y, x, u, ld, lf, blob):
    return [dict(y=FV(y[k]), x=FV(x[k]), u=FV(u[k]), ld=F(ld[k]), lf=F(lf[k]), blob=blob[k]) for k in range(len(x))]


def results(res, n, blob):
    return [dict(x=FV(res["x"][k]), u=FV(res["u"][k]), ld=F(res["logdetj"][k]), logl=F(res["logl"][k]), logp=F(res["logp"][k]), blob=blob[k]) for k in range(n)]


def blob_text(lik, kind, xs):
    if kind == "none":
        return [""] * len(xs)
    out = []
    for x in xs:
        p = lik.pure(x) if np.all(np.isfinite(x)) else None
        out.append(tg.norm_blob(p[1:], kind) if isinstance(p, tuple) else "")
    return out


def geometry(mu, cov, nu):
    from pocomc.geometry import Geometry
    g = Geometry()
    g.t_mean, g.t_cov, g.t_nu = np.array(mu, float), np.array(cov, float), nu
    g.normal_mean, g.normal_cov = np.array(mu, float), np.array(cov, float)
    return g


def exact_draws(job, prior, rng):
    """Draws of the tempered posterior: the prior for beta = 0, a conjugate normal otherwise."""
    if job["betas"][0] == 0:
        x = prior.rvs(2 * job["n"])
        return x[np.isfinite(prior.pure_logpdf(x))][:job["n"]]
    cols = []
    for c, m, s in zip(job["prior"], job["m"], job["s"]):
        a, b, beta = c["a"], c["b"], job["betas"][0]
        prec = 1 / b**2 + beta / s**2
        cols.append((a / b**2 + beta * m / s**2) / prec + rng.normal(size=job["n"]) / prec**0.5)
    return np.array(cols).T


def setup(job, rng):
    """Scaler fitted to prior draws, starting walkers, flow and geometry for one call."""
    from pocomc.scaler import Reparameterize
    d = len(job["prior"])
    np.random.seed(int(rng.integers(2**31)))
    prior, lik = mk_prior(job), mk_lik(job)
    sc = Reparameterize(d, bounds=prior.bounds, periodic=job.get("periodic"), reflective=job.get("reflective"), transform=job.get("transform", "probit"))
    draws = prior.rvs(400)
    sc.fit(draws)
    x = prior.rvs(job["n"] * 8)
    v = np.array([lik.value(r) for r in x], float)
    x = x[np.isfinite(v)][:job["n"]]
    if job["what"] == "inv":
        x = exact_draws(job, prior, rng)
    if job.get("one"):
        x = np.repeat(x[:1], job["n"], axis=0)
    u = sc.forward(x)
    x2, ld = sc.inverse(u)
    kind = job["kind"]
    flow = None
    if kind in ("ptpcn", "prwm"):
        if job.get("flow") == "real":
            import torch, zuko
            from pocomc.flow import Flow
            torch.manual_seed(int(rng.integers(2**31)))
            flow = Flow(d, tg.tiny_flow(d, job.get("arch", "maf1")))
            for p in flow.flow.parameters():
                p.data += 0.2 * torch.randn_like(p)
        else:
            flow = AsinhFlow(job["fa"], job["fb"])
    return prior, lik, sc, x2, u, ld, flow


def start_points(kind, flow, u):
    import torch
    if flow is None:
        return u.copy(), np.zeros(len(u))
    with torch.no_grad():
        th, ld = flow.forward(torch.tensor(u, dtype=torch.float32))
    return np.array(th, float), -np.array(ld, float)


def like_fn(job, lik):
    """What Sampler hands to the kernels: rows -> (logl, blobs)."""
    kind = job.get("blob", "none")
    dt = {"named": np.dtype(tg.BLOB_DTYPE["named"]), "str": object, "vec": float, "scalar": float}.get(kind)

    def f(x):
        r = [lik(v) for v in x]
        if kind == "none":
            return np.array(r, float), None
        b = np.array([t[1:] for t in r], dtype=dt)
        if b.ndim > 1 and b.shape[1] == 1:
            b = b[:, 0]
        return np.array([t[0] for t in r], float), b
    return f


def call(job, kind, rng, rec, prior, lik, sc, x, u, ld, flow, beta, sigma, nmax, nsteps, mu, cov, nu):
    import pocomc.mcmc as mc
    like = like_fn(job, lik)
    logl, blobs = like(x)
    logp = prior.pure_logpdf(x)
    g = geometry(mu, cov, nu)
    st = dict(u=u.copy(), x=x.copy(), logdetj=ld.copy(), logp=logp.copy(), logl=logl.copy(), beta=beta, blobs=None if blobs is None else blobs.copy())
    fn = dict(loglike=rec.loglike(like), logprior=prior.logpdf, scaler=rec.scaler_proxy(), flow=rec.flow_proxy() if flow is not None else None,
              u_geometry=g, theta_geometry=g)
    np.random.seed(int(rng.integers(2**31)))
    return getattr(mc, NAMES[kind])(st, fn, dict(n_max=nmax, n_steps=nsteps, progress_bar=rec.bar(), proposal_scale=sigma))


def geo_of(rng, y, spread):
    d = y.shape[1]
    mu = y.mean(0) + 0.2 * rng.normal(size=d)
    c = np.cov(y.T).reshape(d, d) * spread + 1e-3 * np.eye(d)
    if d > 1:
        q = rng.normal(size=(d, d)) * 0.2
        c = c + q @ q.T * np.mean(np.diag(c))
    return mu, c, float(rng.choice([0.8, 2.0, 5.0, 40.0]))


def head(kind, beta, d, mu, cov, nu):
    return dict(kind=kind, beta=F(beta), d=d, nu=F(nu), mu=FV(mu), cov=FM(cov), inv=FM(np.linalg.inv(cov)))


def prop_of(job, kind, lik, step, n):
    y = step["th"] if kind in ("ptpcn", "prwm") else step["u"]
    lf = step["lf"] if kind in ("ptpcn", "prwm") else np.zeros(n)
    return walkers(y, step["x"], step["u"], step["ld"], lf, blob_text(lik, job.get("blob", "none"), step["x"]))


def emit_cfg(job, emit):
    emit(**cfg_event(job), flow=job.get("flow", "asinh") if job["kind"] in ("ptpcn", "prwm") else "none", fa=FV(job.get("fa", [1])), fb=FV(job.get("fb", [0])))


def result_blobs(job, res, n):
    kind = job.get("blob", "none")
    return [""] * n if kind == "none" else [tg.norm_blob(b, kind) for b in res["blobs"]]


def run(job, emit):
    tg.reset_log()
    if job["what"] == "inrun":
        return inrun(job, emit)
    rng = np.random.default_rng(job["seed"])
    kind, d = job["kind"], len(job["prior"])
    emit_cfg(job, emit)
    for beta in job["betas"]:
        prior, lik, sc, x, u, ld, flow = setup(job, rng)
        n = len(x)
        y, lf = start_points(kind, flow, u)
        cloud = y if n > 8 and not job.get("one") else y[0] + rng.normal(size=(40, d))
        mu, cov, nu = geo_of(rng, cloud, job.get("spread", 1.0))
        if job["what"] == "law":      # unequal scales and strong correlations: the factor's orientation matters
            sd = np.sqrt(np.diag(cov)) * 3.0 ** np.arange(d)
            cov = (0.75 * np.ones((d, d)) + 0.25 * np.eye(d)) * np.outer(sd, sd)
        if job.get("far"):            # a start several scale lengths from the geometry's centre, light tails
            mu, nu = y[0] - 5.0 * np.linalg.cholesky(cov) @ np.ones(d) / d**0.5, float(rng.choice([40.0, 1e6]))
        sigma = float(job.get("sigma") or rng.choice([0.3, 0.6, 0.9]))
        rec = Rec(sc, flow)
        old = walkers(y, x, u, ld, lf, blob_text(lik, job.get("blob", "none"), x))
        if job["what"] == "step":
            res = call(job, kind, rng, rec, prior, lik, sc, x, u, ld, flow, beta, sigma, 1, 1, mu, cov, nu)
            if len(rec.steps) != 1:
                emit(ev="flag", clause="C07.steps-in-range", ok=False)
                continue
            emit(ev="step", **head(kind, beta, d, mu, cov, nu), old=old, prop=prop_of(job, kind, lik, rec.steps[0], n),
                 new=results(res, n, result_blobs(job, res, n)), accept=F(res["accept"]), steps=int(res["steps"]), calls=int(res["calls"]), evals=rec.evals)
        elif job["what"] == "chain":
            for k in range(n):
                rec = Rec(sc, flow)
                nm = int(rng.choice([1, 3, 7, 12, 0]))
                res = call(job, kind, rng, rec, prior, lik, sc, x[k:k + 1], u[k:k + 1], ld[k:k + 1], flow, beta, sigma, nm, int(rng.choice([1, 3, 8])), mu, cov, nu)
                steps = [dict(prop=prop_of(job, kind, lik, s, 1)[0], acc=F(a)) for s, a in zip(rec.steps, rec.stats)]
                emit(ev="chain", **head(kind, beta, d, mu, cov, nu), old=old[k], steps=steps, new=results(res, 1, result_blobs(job, res, 1))[0],
                     nmax=nm, nsteps=int(res["steps"]), accept=F(res["accept"]), calls=int(res["calls"]), evals=rec.evals)
        elif job["what"] == "inv":
            # one half of the walkers decides whether they started as draws of the target (the recording), the other is judged
            mu, cov, nu = y.mean(0) + 0.5 * y.std(0), np.cov(y.T).reshape(d, d) * 0.6, 3.0
            res = call(job, kind, rng, rec, prior, lik, sc, x, u, ld, flow, beta, sigma, job["nmax"], job["nmax"], mu, cov, nu)
            emit(ev="inv", **head(kind, beta, d, mu, cov, nu), x0=FM(x), x=FM(res["x"]), moved=int(np.sum(np.any(res["x"] != x, axis=1))))
        elif job["what"] == "law":
            res = call(job, kind, rng, rec, prior, lik, sc, x, u, ld, flow, beta, sigma, 1, 1, mu, cov, nu)
            s = rec.steps[0]
            ys = s["th"] if flow is not None else s["u1"]
            emit(ev="law", **head(kind, beta, d, mu, cov, nu), sigma=F(sigma), y0=FV(y[0]), ys=FM(ys), linv=FM(np.linalg.inv(np.linalg.cholesky(cov))))


def inrun(job, emit):
    """Kernel calls of a real run: the iteration's own temperature, scaler, flow and geometry are used."""
    import pocomc, pocomc.sampler as ps
    kind = job["kind"]
    job = dict(job, precondition=kind in ("ptpcn", "prwm"), sample="tpcn" if "tpcn" in kind else "rwm", n_steps=1, n_max_steps=1, flow="maf1")
    ecfg = dict(job, flow="real")
    emit_cfg(ecfg, emit)
    missing = [n for n in NAMES.values() if not hasattr(ps, n)]
    if missing:
        return                       # kernels reached some other way: this observation point is not there
    prior, lik = mk_prior(job), mk_lik(job)
    smp = pocomc.Sampler(prior, lik, **mk_kwargs(job))
    pend = []
    orig = {n: getattr(ps, n) for n in NAMES.values()}

    def wrap(name):
        def g(state_dict, function_dict, option_dict):
            rec = Rec(smp.scaler, smp.flow)
            geo = function_dict["theta_geometry"] if name.startswith("pre") else function_dict["u_geometry"]
            fn = dict(function_dict)
            fn["scaler"] = rec.scaler_proxy()
            fn["flow"] = rec.flow_proxy()
            fn["loglike"] = rec.loglike(function_dict["loglike"])
            op = dict(option_dict)
            op["progress_bar"] = rec.bar()
            old = {k: np.array(state_dict[k]) for k in ("u", "x", "logdetj")}
            mu, cov, nu = ((geo.t_mean, geo.t_cov, geo.t_nu) if "pcn" in name else (geo.normal_mean, geo.normal_cov, 1.0))
            mu, cov, nu = np.array(mu, float), np.array(cov, float).reshape(len(mu), len(mu)), float(nu)
            res = orig[name](state_dict, fn, op)
            pend.append((name, old, rec, mu, cov, nu, {k: (np.array(v) if isinstance(v, np.ndarray) else v) for k, v in res.items()}, len(pend)))
            return res
        return g
    for n in orig:
        setattr(ps, n, wrap(n))
    try:
        with quiet():
            smp.run(n_total=job["total"], n_evidence=0, progress=False)
    finally:
        for n, f in orig.items():
            setattr(ps, n, f)
    betas = smp.results["beta"]
    first = len(betas) - len(pend)
    emit(ev="flag", clause="C07.kernel-of-configuration", ok=all(p[0] == NAMES[kind] for p in pend) and len(pend) > 0)
    d = len(job["prior"])
    for name, old, rec, mu, cov, nu, res, i in pend:
        n = len(old["x"])
        y, lf = rec.start if job["precondition"] else (old["u"], np.zeros(n))
        bt = blob_text(lik, job.get("blob", "none"), old["x"])
        emit(ev="step", **head(kind, float(betas[first + i]), d, mu, cov, nu), old=walkers(y, old["x"], old["u"], old["logdetj"], lf, bt),
             prop=prop_of(job, kind, lik, rec.steps[0], n), new=results(res, n, result_blobs(job, res, n)), accept=F(res["accept"]),
             steps=int(res["steps"]), calls=int(res["calls"]), evals=rec.evals)
