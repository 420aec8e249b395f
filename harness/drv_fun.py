"""Calls of the sample-level helpers on generated inputs (C04 helpers, C08 systematic, C09 trimming)."""
import numpy as np
from drv import F, FV, IV


class Offset:
    """Script the next uniform draw, whichever numpy entry point is used; remembers whether it was asked."""
    def __init__(self, u):
        self.u, self.n = u, 0

    def __enter__(self):
        self.saved = {k: getattr(np.random, k) for k in ("random", "random_sample", "rand", "uniform", "ranf", "sample")}
        def plain(size=None, *a):
            self.n += 1
            return self.u if size is None else np.full(size, self.u)
        def unif(low=0.0, high=1.0, size=None):
            self.n += 1
            v = low + (high - low) * self.u
            return v if size is None else np.full(size, v)
        for k in self.saved:
            setattr(np.random, k, unif if k == "uniform" else plain)
        return self

    def __exit__(self, *a):
        for k, v in self.saved.items():
            setattr(np.random, k, v)


def weight_vector(rng, kind, n):
    if kind == "uniform":
        return np.full(n, 1.0 / n)
    if kind == "ones":
        return np.ones(n)
    if kind == "dirichlet":
        return rng.dirichlet(np.full(n, rng.choice([0.05, 0.3, 1.0, 5.0])))
    if kind == "logs":
        w = np.exp(rng.normal(0, rng.choice([0.1, 1, 4, 30]), n)); return w / w.max()
    if kind == "zeros":
        w = rng.dirichlet(np.ones(n)); w[rng.random(n) < 0.5] = 0.0
        w[rng.integers(n)] = 0.3
        return w
    if kind == "onehot":
        w = np.zeros(n); w[rng.integers(n)] = 1.0; return w
    if kind == "ends0":
        w = rng.dirichlet(np.ones(n)); w[0] = 0; w[-1] = 0; w[n // 2] += 0.1; return w / w.sum()
    if kind == "tenths":
        w = np.full(n, 0.1); return w
    if kind == "ties":
        return rng.integers(1, 4, n).astype(float)
    if kind == "big":
        return rng.random(n) * 10.0 ** rng.integers(-200, 200)
    if kind == "scaled":
        return rng.dirichlet(np.ones(n)) * rng.choice([0.5, 3.0, 1e-3])
    if kind == "resampled":
        return rng.multinomial(n, rng.dirichlet(np.ones(n))).astype(float) + 0.0
    raise ValueError(kind)


KINDS = ["uniform", "ones", "dirichlet", "logs", "zeros", "onehot", "ends0", "tenths", "ties", "big", "scaled", "resampled"]


def run(job, emit):
    globals()["do_" + job["what"]](job, emit)


def do_syst(job, emit):
    from pocomc.tools import systematic_resample
    rng = np.random.default_rng(job["seed"])
    for r in range(job["reps"]):
        kind = job["kind"]
        n = int(rng.choice([1, 2, 3, 5, 10, 17, 64, 200]) if kind != "tenths" else 10)
        if kind in ("ends0",):
            n = max(n, 3)
        size = int(rng.choice([1, 2, 3, 7, n, 2 * n, 50, 333]))
        w = weight_vector(rng, kind, n)
        mode = r % 4
        seed = int(rng.integers(2**31))
        same = True
        if mode == 0:
            idx = systematic_resample(size, w.copy(), random_state=seed)
            np.random.seed(seed + 1)
            np.random.rand(int(rng.integers(1, 5)))
            same = bool(np.array_equal(idx, systematic_resample(size, weights=w.copy(), random_state=seed)))
        elif mode == 1:
            np.random.seed(seed % 2**31)
            w0 = w.copy()
            idx = systematic_resample(size, w0)
            emit(ev="flag", clause="C08.inputs-untouched", ok=np.array_equal(w0, w))
        else:
            u = [0.0, float(np.nextafter(1, 0)), 2.0 ** -53, 0.5][int(rng.integers(4))]
            with Offset(u):
                idx = systematic_resample(size, w.copy())
        emit(ev="syst", kind=kind, size=size, w=FV(w), idx=[i + 1 for i in IV(idx)], same=same, num=-1, den=1, wi=[1])


def do_comb(job, emit):
    """Replay of the exhaustive design model: every small integer weight vector, size and offset."""
    from pocomc.tools import systematic_resample
    for w in job["ws"]:
        W = sum(w)
        for size in job["sizes"]:
            for r in range(W):
                with Offset((2 * r + 1) / (2 * W)) as o:
                    idx = systematic_resample(size, np.array(w, float) / W)
                known = o.n == 1
                emit(ev="syst", kind="comb", size=size, w=FV(w), idx=[i + 1 for i in IV(idx)], same=True,
                     num=2 * r + 1 if known else -1, den=2 * W, wi=w)


def do_systavg(job, emit):
    from pocomc.tools import systematic_resample
    rng = np.random.default_rng(job["seed"])
    for _ in range(job["reps"]):
        n = int(rng.choice([2, 3, 5, 8]))
        size = int(rng.choice([1, 2, 4, 7, 11]))
        w = weight_vector(rng, job["kind"], n)
        M = 400
        c = np.zeros(n)
        asked = True
        for k in range(M):
            with Offset((k + 0.5) / M) as o:
                c += np.bincount(systematic_resample(size, w.copy()), minlength=n)[:n]
            asked &= o.n == 1
        if asked:
            emit(ev="systavg", how="grid", size=size, w=FV(w), mean=FV(c / M), tol=F(2.5 / M))
        M = 2500
        c = np.zeros(n)
        np.random.seed(int(rng.integers(2**31)))
        for k in range(M):
            c += np.bincount(systematic_resample(size, w.copy()), minlength=n)[:n]
        emit(ev="systavg", how="draws", size=size, w=FV(w), mean=FV(c / M), tol=F(7.0 * 0.5 / M ** 0.5))


def do_trim(job, emit):
    from pocomc.tools import trim_weights
    rng = np.random.default_rng(job["seed"])
    for _ in range(job["reps"]):
        kind = job["kind"]
        n = int(rng.choice([1, 2, 3, 5, 11, 40, 101, 256])) if kind != "tenths" else 10
        if kind == "ends0":
            n = max(n, 3)
        w = weight_vector(rng, kind, n)
        ess = float(rng.choice([0.99, 1.0, 0.9, 0.5, 0.1, 0.999, 1e-3, rng.random()]))
        bins = int(rng.choice([1000, 1000, 2, 1, 10, 37, 100]))
        ids = np.arange(n)
        samples = ids if rng.random() < 0.5 else np.stack([ids, rng.random(n)], axis=1)
        kw = {} if (ess == 0.99 and bins == 1000) else dict(ess=ess, bins=bins)
        w0, s0 = w.copy(), samples.copy()
        s, wk = trim_weights(s0, w0, **kw)
        emit(ev="flag", clause="C09.inputs-untouched", ok=np.array_equal(w0, w) and np.array_equal(s0, samples))
        k = s if s.ndim == 1 else s[:, 0]
        emit(ev="trim", kind=kind, w=FV(w), ess=F(ess), bins=bins, ids=[i + 1 for i in IV(k)], wk=FV(wk))


def do_trimgrid(job, emit):
    """Replay of the exhaustive design model: every small integer weight vector."""
    from pocomc.tools import trim_weights
    for w in job["ws"]:
        for bins, ess in job["opts"]:
            # whole-number weights may come as whole numbers
            s, wk = trim_weights(np.arange(len(w)), np.array(w, int if sum(w) % 2 else float), ess=ess, bins=bins)
            emit(ev="trim", kind="grid", w=FV(w), ess=F(ess), bins=bins, ids=[i + 1 for i in IV(s)], wk=FV(wk))


def do_ess(job, emit):
    from pocomc.tools import effective_sample_size, unique_sample_size, compute_ess, increment_logz
    rng = np.random.default_rng(job["seed"])
    for _ in range(job["reps"]):
        n = int(rng.choice([1, 2, 3, 10, 64, 300]))
        kind = job["kind"]
        if kind == "ends0":
            n = max(n, 3)
        w = weight_vector(rng, kind, n)
        n = len(w)
        k = int(rng.choice([1, 2, n, 3 * n, 1000]))
        with np.errstate(divide="ignore"):
            logw = np.log(w) + rng.choice([0.0, -700.0, 300.0, -1e4])
        if rng.random() < 0.2:
            w = rng.integers(0, 9, n)                # counts as weights
            w[rng.integers(n)] += 1
            with np.errstate(divide="ignore"):
                logw = np.log(w)
        w0, l0 = w.copy(), logw.copy()
        emit(ev="ess", kind=kind, w=FV(w), k=k, ess=F(effective_sample_size(w0)), uss=F(unique_sample_size(w0)),
             ussk=F(unique_sample_size(w0, k=k)), logw=FV(logw), cess=F(compute_ess(l0)), inc=F(increment_logz(l0)))
        emit(ev="flag", clause="C04.inputs-untouched", ok=np.array_equal(w0, w) and np.array_equal(l0, logw))


def do_mix(job, emit):
    """Arbitrary histories put straight into the particle store."""
    from pocomc.particles import Particles
    rng = np.random.default_rng(job["seed"])
    for r in range(job["reps"]):
        T, n = int(rng.integers(1, 12)), int(rng.integers(1, 9))
        scale = float(rng.choice([1.0, 10.0, 1e3, 1e5]))
        P = Particles(n, 2)
        beta = np.sort(np.round(rng.random(T), 6)); beta[: int(rng.integers(1, T + 1))] = 0.0
        if rng.random() < 0.5:
            beta[-1] = 1.0
        if rng.random() < 0.3 and T > 2:
            beta[-2] = beta[-1]
        logz = np.where(beta == 0, 0.0, rng.normal(0, scale, T))
        L = -np.abs(rng.normal(0, scale, (T, n))) + rng.choice([0.0, 500.0])
        for t in range(T):
            P.update(dict(u=np.zeros((n, 2)), x=np.zeros((n, 2)), logdetj=np.zeros(n), logl=L[t], logp=np.zeros(n), logw=np.zeros(n),
                          blobs=None, iter=t, logz=logz[t], calls=0, steps=1, efficiency=1.0, ess=1.0, accept=1.0, beta=beta[t]))
        for b in (float(beta[-1]), 1.0, float(rng.random())):
            logw, lz = P.compute_logw_and_logz(b)
            raw, lz2 = P.compute_logw_and_logz(b, normalize=False)
            emit(ev="mix", L=FV(L), betas=FV(beta), logzs=FV(logz), b=F(b), logw=FV(logw), raw=FV(raw), logz=F(lz))
        if r % 3 == 0:
            res = P.compute_results()
            emit(ev="mix", L=FV(L), betas=FV(beta), logzs=FV(logz), b=F(1.0), logw=FV(res["logw"]), raw=FV(P.compute_logw_and_logz(1.0, normalize=False)[0]), logz=F(P.compute_logw_and_logz(1.0)[1]))
