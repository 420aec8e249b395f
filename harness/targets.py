"""User-side ingredients (priors, likelihoods, blobs, pools) with call logs, described by JSON.

Everything lives at module level so that dill pickles it by reference: the logs below are this process's
logs whatever state file was loaded.
"""
import os
import numpy as np
import scipy.stats as ss

LOG = dict(evals=0, pts=None, rvs=[], lp_calls=0, batches=0)


def reset_log(points=False):
    LOG.update(evals=0, pts=[] if points else None, rvs=[], lp_calls=0, batches=0)
    FAULT.update(where=None, left=0, raised=None)


FAULT = dict(where=None, left=0, raised=None)
FAULTS = {c.__name__: c for c in (RuntimeError, ValueError, IndexError, TypeError, KeyboardInterrupt, StopIteration, FloatingPointError, KeyError, MemoryError,
                                  AttributeError, SystemExit, np.linalg.LinAlgError)}


def arm(where, left, exc):
    """The user code at `where` fails after `left` more evaluations."""
    FAULT.update(where=where, left=left, raised=None, exc=exc)


def trip(where, n=1):
    if FAULT["where"] != where:
        return
    FAULT["left"] -= n
    if FAULT["left"] < 0:
        FAULT.update(where=None, raised=FAULTS[FAULT["exc"]]("user code failed"))
        raise FAULT["raised"]


def dist(c):
    k, a, b = c["k"], c["a"], c["b"]
    if k == "norm": return ss.norm(a, b)
    if k == "unif": return ss.uniform(a, b)
    if k == "expon": return ss.expon(a, b)
    if k == "rexp": return ss.weibull_max(1, loc=a, scale=b)
    if k == "beta22": return ss.beta(2, 2, loc=a, scale=b)
    if k == "laplace": return ss.laplace(a, b)
    if k == "logistic": return ss.logistic(a, b)
    if k == "gamma2": return ss.gamma(2, loc=a, scale=b)
    if k == "halfnorm": return ss.halfnorm(a, b)
    if k == "cauchy": return ss.cauchy(a, b)
    raise ValueError(k)


class LoggedPrior:
    """pocomc.Prior with the draws recorded and, optionally, a support cut x_0 + x_1 <= cut inside the bounds."""
    def __init__(self, comps, cut=None, lattice=False):
        import pocomc
        self.inner = pocomc.Prior([dist(c) for c in comps])
        self.comps, self.cut, self.lattice = comps, cut, lattice

    def __reduce__(self):
        # rebuilt from its description, so that a restored prior draws from the global generator again
        # (a pickled scipy distribution carries a private copy of it)
        return LoggedPrior, (self.comps, self.cut, self.lattice)

    @property
    def dim(self):
        return self.inner.dim

    @property
    def bounds(self):
        return self.inner.bounds

    def logpdf(self, x):
        LOG["lp_calls"] += 1
        trip("prior", len(x))
        return self.pure_logpdf(x)

    def pure_logpdf(self, x):
        x = np.asarray(x)
        lp = np.array(self.inner.logpdf(x), dtype=float)
        if self.cut is not None:
            lp = np.where(x[:, 0] + x[:, -1] <= self.cut, lp, -np.inf)
        return lp

    def rvs(self, size=1):
        x = np.array(self.inner.rvs(size), dtype=float)
        if self.cut is not None:
            for _ in range(1000):
                bad = ~(x[:, 0] + x[:, -1] <= self.cut)
                if not bad.any():
                    break
                x[bad] = self.inner.rvs(int(bad.sum()))
        if self.lattice:
            x = np.round(x * 2.0**24) / 2.0**24
        LOG["rvs"].append(x.copy())
        return x


class Lik:
    """log L = off - 1/2 sum ((x_i-m_i)/s_i)^2 + blob; -inf where x_0 < hole (or off the 2^-24 lattice)."""
    def __init__(self, m, s, off=0.0, hole=None, lattice=False, blob="none", evalfile=None, sleep=None, nan=None):
        self.m, self.s = np.asarray(m, float), np.asarray(s, float)
        self.off, self.hole, self.lattice, self.blob = off, hole, lattice, blob
        self.evalfile, self.sleep, self.nan = evalfile, sleep, nan

    def value(self, x):
        t = (x[0] - self.m[0]) / self.s[0]
        q = t * t
        for i in range(1, len(self.m)):
            t = (x[i] - self.m[i]) / self.s[i]
            q = q + t * t
        v = self.off - 0.5 * q
        if self.hole is not None:
            v = np.where(x[0] < self.hole, -np.inf, v)
        if self.lattice:
            g = x[0] * 2.0**24
            v = np.where(np.floor(g) == g, v, -np.inf)
        return v

    def blobs(self, x):
        a = float(x[0] * 3.0 + x[-1]); k = int(np.floor(abs(a) * 1000)) % 997
        b = self.blob
        if b == "scalar": return (a,)
        if b == "int": return (k,)
        if b == "vec": return (a, float(x[-1] - 7.0 * x[0]))
        if b == "named": return (a, k)
        if b == "str": return ("p" * (1 + k % 7) + "%.9f" % a,)
        if b == "mixed": return (a, "q%.9f" % a)
        if b == "obj": return ({"a": a, "k": k},)
        if b == "arr": return (np.array([a, 2 * a, -a]),)
        return ()

    def pure(self, x):
        v = float(self.value(x))
        b = self.blobs(x)
        return (v, *b) if b else v

    def __call__(self, x, *args, **kwargs):
        self.note(x)
        if self.sleep:
            import time
            time.sleep(self.sleep * (float(abs(x[0])) % 1.0))
        r = self.pure(x)
        if args or kwargs:
            add = extra_of(args, kwargs)
            r = (r[0] + add, *r[1:]) if isinstance(r, tuple) else r + add
        return r

    def note(self, x):
        trip("lik")
        LOG["evals"] += 1
        if LOG["pts"] is not None:
            LOG["pts"].append(np.array(x, float))
        if self.evalfile:
            fd = os.open(self.evalfile, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
            os.write(fd, (np.asarray(x, float).tobytes().hex() + "\n").encode())
            os.close(fd)


def extra_of(args, kwargs):
    """What the extra likelihood arguments add to the log-likelihood: depends on order, names and values."""
    n = lambda v: 0.375 if v is None else float(len(v)) if isinstance(v, str) else float(np.sum(v))
    return sum((i + 1) * n(v) for i, v in enumerate(args)) + sum((10 + ord(k[0]) % 7) * n(v) for k, v in kwargs.items())


class VecLik(Lik):
    def __call__(self, x, *args, **kwargs):
        trip("lik", len(x))
        LOG["evals"] += len(x)
        LOG["batches"] += 1
        if LOG["pts"] is not None:
            LOG["pts"].extend(np.array(x, float))
        if self.evalfile:
            fd = os.open(self.evalfile, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
            os.write(fd, "".join(np.asarray(r, float).tobytes().hex() + "\n" for r in x).encode())
            os.close(fd)
        v = np.array(self.value(np.asarray(x).T), dtype=float).reshape(len(x))
        return v + extra_of(args, kwargs) if (args or kwargs) else v


def norm_blob(b, kind):
    """Canonical text of one blob, from a stored row or from the user function's return value."""
    if isinstance(b, np.void):
        b = b.tolist()
    if isinstance(b, np.ndarray):
        b = b.tolist()
    if isinstance(b, (tuple, list)):
        b = [v.tolist() if isinstance(v, (np.ndarray, np.generic)) else v for v in b]
        while isinstance(b, list) and len(b) == 1 and kind in ("scalar", "int", "str", "obj", "arr"):
            b = b[0]
    if isinstance(b, np.generic):
        b = b.item()
    if isinstance(b, (list, tuple)):
        return "[" + ",".join(repr(v) for v in b) + "]"
    return repr(b)


BLOB_DTYPE = {"named": [("a", float), ("b", int)]}


def tiny_flow(dim, kind="maf1"):
    """A small zuko flow, to keep preconditioned runs fast."""
    import zuko
    if kind == "nsf1":
        return zuko.flows.NSF(features=dim, bins=4, transforms=1, hidden_features=[8])
    return zuko.flows.MAF(dim, transforms=1 if kind == "maf1" else 2, hidden_features=[8])


DRAWS = []      # base-space draws of recording flows, whatever route the sampler takes to them


def note_draw(z):
    if not DRAWS:
        LOG["at_draw"] = LOG["evals"]      # likelihood evaluations before the first draw
    DRAWS.append(z.detach().clone().reshape(-1, z.shape[-1]))
    return z


def rec_flow(dim, kind="maf1"):
    """A tiny flow that records every draw made from its base distribution."""
    f = tiny_flow(dim, kind)
    f.__class__ = _RECNSF if kind == "nsf1" else _RECMAF
    return f


def _mk_rec():
    import zuko

    class RecBase(zuko.distributions.DiagNormal):
        def rsample(self, shape=()):
            z = super().rsample(shape)
            return note_draw(z)

        def sample(self, sample_shape=()):
            z = super().sample(sample_shape)
            return note_draw(z)

    def mk(cls, name):
        def forward(self, c=None):
            trip("flow")
            d = cls.forward(self, c)
            assert type(d.base) in (zuko.distributions.DiagNormal, RecBase), type(d.base)
            d.base.__class__ = RecBase
            return d
        return type(name, (cls,), dict(forward=forward, __module__=__name__))
    return mk(zuko.flows.MAF, "_RECMAF"), mk(zuko.flows.NSF, "_RECNSF")


_RECMAF, _RECNSF = _mk_rec()
