"""Interleavings of Isolate.tla on two real samplers of one process, against each sampler alone in a process of its own."""
import numpy as np, os, pickle, copy
import targets as tg
from drv import F, digest
from drv_run import mk_lik, mk_kwargs, iattr
from drv_resume import digs, rng_state, set_rng
from drv_observe import silent, post


def alone(f):
    """f() in a process of its own."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                out = ("ok", f())
            except BaseException as e:
                out = ("exc", "%s: %s" % (type(e).__name__, str(e)[:300]))
            with os.fdopen(w, "wb") as g:
                g.write(pickle.dumps(out))
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as g:
        data = g.read()
    os.waitpid(pid, 0)
    kind, v = pickle.loads(data)
    if kind == "exc":
        raise RuntimeError("alone: " + v)
    return v


def flat(v):
    """The value of one of the caller's objects, as text."""
    if isinstance(v, dict):
        return "{" + ",".join("%r:%s" % (k, flat(v[k])) for k in v) + "}"
    if isinstance(v, (list, tuple)):
        return type(v).__name__ + "[" + ",".join(flat(x) for x in v) + "]"
    if isinstance(v, np.ndarray):
        return "array%s%s" % (v.shape, digest(v))
    return repr(v)


class StoredPrior(tg.LoggedPrior):
    """A user's prior that keeps its bounds in an array of its own."""
    bounds = None

    def __init__(self, comps, cut=None, lattice=False):
        super().__init__(comps, cut, lattice)
        self.bounds = np.array(self.inner.bounds, dtype=float)

    def __reduce__(self):
        return StoredPrior, (self.comps, self.cut, self.lattice)


def user_prior(job):
    return StoredPrior(job["prior"], job.get("cut"), job.get("lattice", False))


class World:
    """The caller: owns the objects, keeps one random stream per sampler."""
    def __init__(self, job):
        self.job = job
        self.smp, self.rng, self.runs, self.lik = {}, {}, {}, {}
        tg.reset_log()
        a = job["A"]
        self.prior = {"A": user_prior(a)}
        self.prior["B"] = self.prior["A"] if job["sameprior"] else user_prior(job["B"])
        # the caller's objects, the same ones given to both samplers
        self.objs = dict(train=dict(epochs=3, **job.get("train", {})), args=[np.array([1.0, 2.0]), 3.0], kwargs=dict(b=0.25, data=[1.0, 2.0]),
                         periodic=job.get("periodic"), reflective=job.get("reflective"))
        if job.get("asarray"):
            for k in ("periodic", "reflective"):
                if self.objs[k] is not None:
                    self.objs[k] = np.array(self.objs[k])
        self.start = {q: self.stream(job[q]["seed"]) for q in "AB"}

    def stream(self, seed):
        import torch
        st = rng_state()
        np.random.seed(seed % 2**31)
        torch.manual_seed(seed % 2**31)
        mine = rng_state()
        set_rng(st)
        return mine

    def inputs(self):
        return {**{k: flat(v) for k, v in self.objs.items()},
                **{"prior" + q: digest(np.asarray(p.bounds)) + str(p.dim) for q, p in self.prior.items()}}

    def op(self, q, what):
        import pocomc
        j = self.job[q]
        set_rng(self.rng.get(q, self.start[q]))
        out = {}
        with silent():
            if what == "build":
                kw = mk_kwargs(j)
                if self.job["usetrain"] and j.get("precondition", True):
                    kw["train_config"] = self.objs["train"]
                kw.update(likelihood_args=self.objs["args"], likelihood_kwargs=self.objs["kwargs"], output_dir="out", output_label="run" + q)
                for k in ("periodic", "reflective"):
                    kw.pop(k, None)
                    if self.objs[k] is not None:
                        kw[k] = self.objs[k]
                if j.get("noseed"):
                    kw["random_state"] = None
                self.lik[q] = mk_lik(j)
                self.smp[q] = pocomc.Sampler(self.prior[q], self.lik[q], **kw)
                self.runs[q] = 0
            elif what == "run":
                self.runs[q] += 1
                self.smp[q].run(n_total=25 + 25 * self.runs[q], n_evidence=0, progress=False, save_every=[None, 2][self.runs[q] % 2])
            elif what == "look":
                smp = self.smp[q]
                smp.results
                smp.posterior(trim_importance_weights=False)
                smp.evidence()
            elif what == "save":
                self.smp[q].save_state("out/%s.state" % q)
        self.rng[q] = rng_state()
        if self.runs[q]:
            smp = self.smp[q]
            z, err = smp.evidence()
            out = dict(digs=digs(smp.results, j), logz=F(z), post=post(smp, j), calls=iattr(smp, "calls"), t=iattr(smp, "t"))
        else:
            out = dict(digs=[], logz=F(0.0), post="", calls=iattr(self.smp[q], "calls"), t=iattr(self.smp[q], "t"))
        c = getattr(self.smp[q], "train_config", None)
        out["conf"] = flat({k: c[k] for k in sorted(c)}) if isinstance(c, dict) else ""
        # the next draws of this sampler's stream
        out["next"] = digest(np.random.rand(3))
        set_rng(self.rng[q])
        return out


def files(q):
    return {f: open("out/" + f, "rb").read() for f in (os.listdir("out") if os.path.isdir("out") else []) if q in f}


def run(job, emit):
    ops = job["ops"]

    def solo(q):
        d = "alone" + q
        os.makedirs(d)
        os.chdir(d)
        w = World(job)
        return [w.op(p, what) for p, what in ops if p == q]
    for q in "AB":
        emit(ev="alone", q=q, states=alone(lambda: solo(q)))
    w = World(job)
    before = w.inputs()
    for q, what in ops:
        other = "B" if q == "A" else "A"
        f0 = files(other)
        s = w.op(q, what)
        emit(ev="op", q=q, what=what, state=s, inputs=w.inputs() == before, others=files(other) == f0)
