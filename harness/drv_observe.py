"""Command sequences of Observe.tla (run calls and looks between them) on the real sampler, against one plain run."""
import numpy as np, io, contextlib
import targets as tg
from drv import F, digest
from drv_run import mk_prior, mk_lik, mk_kwargs, iattr, FIELDS
from drv_resume import digs, CountingPool


@contextlib.contextmanager
def silent():
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        yield


POOL = [None]


def build(job):
    import pocomc
    kw = mk_kwargs(job)
    POOL[0] = None
    if job.get("pool"):
        kw["pool"] = POOL[0] = CountingPool()
    kw.update(output_dir=job.get("dir", "states"), output_label=job.get("label", "pmc"))
    return pocomc.Sampler(mk_prior(job), mk_lik(job), **kw)


def post(smp, job):
    blobs = job.get("blob", "none") != "none"
    a = smp.posterior(return_logw=True, trim_importance_weights=False, return_blobs=blobs)
    return digest(*[np.asarray(v, float) for v in a[:4]])


def state(smp, job):
    z, err = smp.evidence()
    return dict(digs=digs(smp.results, job), logz=F(z), err=F(-1.0 if err is None else err), post=post(smp, job),
                total=iattr(smp, "calls"), t=iattr(smp, "t"), evals=int(tg.LOG["evals"]),
                pooled=POOL[0].n if POOL[0] else int(tg.LOG["evals"]))


def plain(job, total):
    tg.reset_log()
    smp = build(job)
    with silent():
        smp.run(n_total=total, n_evidence=0, progress=False)
    return state(smp, job)


def look(smp, job, kind, i, emit):
    """One of the ways to look, with all its non-random options."""
    blobs = job.get("blob", "none") != "none"
    with silent():
        if kind == "results":
            r = smp.results
            keep = {k: np.array(r[k], copy=True) for k in FIELDS + ["logw"]}
            if i % 2:
                # the arrays belong to the user: what is done to them does not reach the history (then they are put back)
                p0 = post(smp, job)
                for k in keep:
                    r[k][...] = -7
                emit(ev="flag", clause="C24.results-are-the-users", ok=post(smp, job) == p0)
                for k in keep:
                    r[k][...] = keep[k]
        elif kind == "posterior":
            for trim in (True, False):
                for lw in (True, False):
                    out = smp.posterior(return_logw=lw, trim_importance_weights=trim, return_blobs=blobs, ess_trim=(0.99, 0.5)[i % 2], bins_trim=(1000, 7)[i % 2])
                    for v in out[:4]:
                        v[...] = -7           # they belong to the user too
        elif kind == "evidence":
            smp.evidence()
        elif kind == "save":
            smp.save_state("looked/s%d.state" % (i % 2))
        elif kind == "pickle":
            import dill
            dill.dumps(smp)
        else:
            raise ValueError(kind)


def run(job, emit):
    totals = job["totals"]
    # where plain runs to each total stop
    stops = []
    for t in totals:
        s = plain(job, t)
        stops.append(len(s["digs"]))
    emit(ev="plain", stops=stops, **s)
    tg.reset_log()
    smp = build(job)
    ran = False
    cmds = list(job["cmds"]) + [["run", len(totals), job.get("lastshow", False), job.get("lastevery", 0)]]
    for i, c in enumerate(cmds):
        if c[0] == "run":
            with silent():
                smp.run(n_total=totals[c[1] - 1], n_evidence=0, progress=bool(c[2]), save_every=c[3] or None)
            ran = True
            emit(ev="ran", which=c[1], last=i == len(cmds) - 1, **state(smp, job))
        else:
            if c[0] in ("results", "posterior", "evidence") and not ran:
                continue
            look(smp, job, c[0], job["vary"] + i, emit)
            d = digs(smp.results, job) if ran else []
            emit(ev="looked", kind=c[0], digs=d, total=iattr(smp, "calls"), evals=int(tg.LOG["evals"]))
