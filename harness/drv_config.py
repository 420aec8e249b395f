"""Configurations of Config.tla replayed into the real constructor and short runs (C20)."""
import numpy as np, inspect, warnings
import targets as tg
from drv_run import iattr, quiet

BASE = dict(neff=-1, nact=-1, nprior=-1, tf=-1, ness=-1, transform="probit", metric="ess", sample="tpcn", resample="mult", flow="<user>", vectorize=False, blobs=False)
FITOPTS = ["validation_split", "epochs", "batch_size", "patience", "learning_rate", "annealing", "gaussian_scale", "laplace_scale", "noise", "shuffle", "clip_grad_norm"]


def build(c, extra, job):
    """-> sampler, prior; raises whatever the constructor raises."""
    import pocomc
    d = job.get("d", 1)
    prior = tg.LoggedPrior([dict(k="norm", a=0.0, b=1.0)] * d)
    cls = tg.VecLik if c["vectorize"] else tg.Lik
    w = job.get("width", 1e6)
    lik = cls([0.2] * d, [w] * d)
    none = lambda v: None if v == -1 else v
    kw = dict(n_effective=none(c["neff"]), n_active=none(c["nact"]), n_steps=1, n_max_steps=1, random_state=job["seed"])
    for k, n in (("nprior", "n_prior"), ("tf", "train_frequency"), ("ness", "n_ess")):
        if c[k] != -1:
            kw[n] = c[k]
    for k in ("transform", "metric", "sample", "resample"):
        if c[k] != BASE[k] or job["seed"] % 2:
            kw[k] = None if c[k] == "<None>" else c[k]
    f = c["flow"]
    kw["flow"] = tg.tiny_flow(d, "maf1") if f == "<user>" else {"<None>": None, "<3>": 3}.get(f, f)
    kw["vectorize"] = c["vectorize"]
    if c["blobs"]:
        kw["blobs_dtype"] = [("a", float)] if job["seed"] % 2 else float
    kw.update(extra)
    return pocomc.Sampler(prior, lik, **kw)


def run(job, emit):
    warnings.simplefilter("ignore")
    for c, extra in job["cfgs"]:
        c = dict(BASE, **c)
        tg.reset_log()
        smp, raised, ve = None, False, False
        try:
            smp = build(c, extra, job)
        except Exception as ex:
            raised, ve = True, isinstance(ex, ValueError)
        emit(ev="built", c=c, evals=tg.LOG["evals"], raised=raised, valueerror=ve)
        if smp is None:
            continue
        emit(ev="attrs", c=c, nact=iattr(smp, "n_active"), neff=iattr(smp, "n_effective"), tf=iattr(smp, "train_frequency"))
        calls, defaults = [], None
        if extra.get("precondition", True):
            if "train_config" in extra and extra["train_config"]:
                defaults = options_of(build(c, {k: v for k, v in extra.items() if k != "train_config"}, job), job)
                tg.reset_log()
            spy_fit(smp, calls)
        if not job.get("run", True):
            continue
        try:
            with quiet():
                smp.run(n_total=job.get("ntotal", 1), n_evidence=0, progress=False)
        except np.linalg.LinAlgError:
            continue          # a population of a handful of particles may have no geometry (see C21)
        res = smp.results
        rows = [len(x) for x in res["x"]]
        drawn = np.concatenate(tg.LOG["rvs"]) if tg.LOG["rvs"] else np.empty((0, 1))
        known = {r.tobytes() for r in drawn}
        # warm-up entries: made of fresh prior draws, each batch its own
        nb, seen = 0, set()
        for k in range(len(rows)):
            keys = {np.ascontiguousarray(r).tobytes() for r in res["x"][k]}
            if not (keys <= known) or keys & seen or len(keys) != rows[k]:
                break
            seen |= keys
            nb += 1
        emit(ev="ran", c=c, rows=rows, ess=[int(round(float(e))) for e in res["ess"]], batches=nb, drawn=len(drawn))
        if calls:
            ks = [k for k, _ in calls]
            emit(ev="train", c=c, fit=[k in ks for k in range(nb, len(rows))], one=[float(res["beta"][k]) == 1.0 for k in range(nb, len(rows))])
            if defaults:
                user = extra["train_config"]
                got = calls[0][1]
                emit(ev="options", opts=[dict(key=o, named=o in user, got=repr(got.get(o)), user=repr(capped(o, user.get(o), got)), default=repr(defaults.get(o))) for o in FITOPTS])


def capped(o, v, got):
    """The batch size of a small population is at most half of it."""
    return int(min(v, got["_n"] // 2)) if o == "batch_size" and v is not None else v


def spy_fit(smp, calls):
    flow = getattr(smp, "flow", None)
    fit = getattr(flow, "fit", None)
    if fit is None:
        return
    sig = inspect.signature(fit)

    def stub(*a, **kw):
        b = sig.bind(*a, **kw)
        b.apply_defaults()
        d = {k: (int(v) if isinstance(v, (np.integer,)) else v) for k, v in b.arguments.items() if k in FITOPTS}
        d["_n"] = len(b.arguments["x"])
        calls.append((len(smp.results["beta"]), d))
        return {}
    flow.fit = stub


def options_of(smp, job):
    calls = []
    spy_fit(smp, calls)
    with quiet():
        smp.run(n_total=1, n_evidence=0, progress=False)
    return calls[0][1] if calls else None
