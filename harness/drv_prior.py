"""Calls of pocomc.Prior (C16)."""
import numpy as np
import targets as tg
from drv import F, FV, FM


def run(job, emit):
    import pocomc
    rng = np.random.default_rng(job["seed"])
    comps = job["comps"]
    d = len(comps)
    cs = [dict(k=c["k"], a=F(c["a"]), b=F(c["b"])) for c in comps]
    cache = {}
    dists = [cache.setdefault((c["k"], c["a"], c["b"]), tg.dist(c)) if job["share"] else tg.dist(c) for c in comps]
    P = pocomc.Prior(dists) if job["seed"] % 2 else pocomc.Prior(dists=dists)
    B = np.asarray(P.bounds, float)
    emit(ev="meta", comps=cs, dim=int(P.dim), bounds=FM(B) if B.ndim == 2 else [])
    np.random.seed(job["seed"] % 2**31)
    for size in job["sizes"]:
        x = np.asarray(P.rvs(size) if rng.random() < 0.5 else P.rvs(size=size))
        ok = x.ndim == 2
        emit(ev="draw", comps=cs, size=size, rows=int(x.shape[0]), cols=int(x.shape[1]) if ok else -1, x=FM(x) if ok else [])
    x = np.asarray(P.rvs())
    emit(ev="draw", comps=cs, size=1, rows=int(x.shape[0]), cols=int(x.shape[1]) if x.ndim == 2 else -1, x=FM(x) if x.ndim == 2 else [])
    # densities inside, outside in exactly one coordinate, at the edges, far away
    x = np.asarray(P.rvs(6))
    rows = list(x)
    true = [tg.dist(c).support() for c in comps]
    for i in range(d):
        for v in true[i]:
            if np.isfinite(v):
                for s in (-1, 1):
                    r = x[int(rng.integers(6))].copy()
                    r[i] = v + s * float(rng.choice([1e-6, 0.3, 20.0])) * comps[i]["b"]
                    rows.append(r)
        r = x[int(rng.integers(6))].copy()
        r[i] = comps[i]["a"] + comps[i]["b"] * float(rng.choice([-25.0, 25.0, 3.75, 0.5]))     # (scipy underflows further out)
        rows.append(r)
    rows = np.array(rows)
    rng.shuffle(rows)
    for n in (len(rows), 1):
        y = rows[:n].copy()
        lp = np.asarray(P.logpdf(y), float)
        emit(ev="pdf", comps=cs, x=FM(rows[:n]), lp=FV(lp), pure=bool(np.array_equal(y, rows[:n]) and lp.shape == (n,)))
