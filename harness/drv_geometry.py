"""Calls of pocomc's Geometry (C21)."""
import numpy as np
from drv import F, FV, FM


def sample(rng, kind, n, d):
    A = rng.normal(size=(d, d)) * 0.4 + np.eye(d)
    if kind == "normal":
        z = rng.normal(size=(n, d))
    elif kind == "t2":
        z = rng.standard_t(2, size=(n, d))
    elif kind == "cauchy":
        z = np.clip(rng.standard_t(1, size=(n, d)), -1e4, 1e4)
    elif kind == "unif":
        z = rng.uniform(-1, 1, (n, d))
    elif kind == "skew":
        z = rng.exponential(size=(n, d))
    elif kind == "modes":
        z = rng.normal(size=(n, d)) + 8.0 * rng.integers(0, 2, (n, 1))
    elif kind == "dups":
        z = rng.normal(size=(max(n // 4, 2 * d + 4), d))[rng.integers(0, max(n // 4, 2 * d + 4), n)]
        z[: d + 2] += 1e-3 * rng.normal(size=(d + 2, d))
    x = z @ A.T
    return x * 10.0 ** rng.uniform(-3, 3, d) + rng.normal(size=d) * 10.0 ** rng.integers(0, 3)


def fit(X, w, seed):
    from pocomc.geometry import Geometry
    g = Geometry()
    np.random.seed(seed)
    if w is None:
        g.fit(X)
    else:
        g.fit(X, weights=w)
    return g


def fields(g):
    nc, tc = np.asarray(g.normal_cov, float), np.asarray(g.t_cov, float)
    m2 = lambda a: FM(a) if a.ndim == 2 else []
    return dict(nm=FV(g.normal_mean), nc=m2(nc), shape=list(nc.shape), tm=FV(g.t_mean), tc=m2(tc), tshape=list(tc.shape), nu=F(g.t_nu))


def run(job, emit):
    rng = np.random.default_rng(job["seed"])
    for _ in range(job["reps"]):
        d = job["d"]
        n = int(rng.choice([4 * d + 6, 40, 150]))
        X = sample(rng, job["kind"], n, d)
        mode = str(rng.choice(["none", "counts", "counts", "float", "equal"]))
        D = X
        exact = True
        if mode == "none":
            w = None
        elif mode == "equal":
            w = np.full(n, 1.0 / n)
        elif mode == "counts":
            c = rng.multinomial(n, rng.dirichlet(np.full(n, 2.0)))
            w = c / n          # systematic resampling reproduces these counts for every offset
            D = np.repeat(X, c, axis=0)
            # offsets so extreme that rounding could move a copy are not forced here
        else:
            w = rng.dirichlet(np.full(n, 1.5))
            exact = False
        seed = int(rng.integers(2**31))
        Xc, wc = X.copy(), None if w is None else w.copy()
        g = fit(Xc, wc, seed)
        pure = bool(np.array_equal(Xc, X) and (w is None or np.array_equal(w, wc)))
        ww = np.ones(n) if w is None else w
        f = fields(g)
        emit(ev="geo", kind=job["kind"], mode=mode, d=d, X=FM(X), w=FV(ww), D=FM(D) if exact else [], exact=exact, pure=pure, **f)
        c = 10.0 ** rng.uniform(-2, 2, d) * rng.choice([-1.0, 1.0], d)
        t = rng.normal(size=d) * 5 * np.abs(c) * X.std(0)
        f2 = fields(fit(t + c * X, None if w is None else w.copy(), seed))
        emit(ev="equiv", d=d, X=FM(X), c=FV(c), t=FV(t), a=f, b=f2)
