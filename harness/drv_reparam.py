"""Calls of pocomc's Reparameterize for every mix of bounds, transform and scaling (C15)."""
import numpy as np
from drv import F, FV, FM


def run(job, emit):
    globals()["do_" + job["what"]](job, emit)


def make_bounds(rng, kinds):
    b = []
    for k in kinds:
        lo = float(np.round(rng.normal() * 10.0 ** rng.integers(-1, 3), int(rng.integers(0, 5))))
        hi = lo + float(np.round(0.01 + abs(rng.normal()) * 10.0 ** rng.integers(-1, 3), 4))
        if rng.random() < 0.3:
            hi = float(np.round(hi, 3)) + 0.001
        b.append({"n": [-np.inf, np.inf], "l": [lo, np.inf], "r": [-np.inf, hi], "b": [lo, hi]}[k])
    return np.array(b)


def interior(rng, b, n, spread):
    d = len(b)
    x = np.empty((n, d))
    for i, (lo, hi) in enumerate(b):
        z = rng.normal(size=n) * spread
        if np.isfinite(lo) and np.isfinite(hi):
            x[:, i] = lo + (hi - lo) * np.clip(1 / (1 + np.exp(-z)), 1e-6, 1 - 1e-6)
        elif np.isfinite(lo):
            x[:, i] = lo + np.exp(z)
        elif np.isfinite(hi):
            x[:, i] = hi - np.exp(z)
        else:
            x[:, i] = 3 * z + rng.normal()
    if d > 1:   # correlate a little through reordering of one column
        o = np.argsort(x[:, 0] + 0.8 * rng.normal(size=n) * x[:, 0].std())
        x[o, -1] = np.sort(x[:, -1]) if rng.random() < 0.5 else x[o, -1]
    return x


def do_maps(job, emit):
    from pocomc.scaler import Reparameterize
    rng = np.random.default_rng(job["seed"])
    for kinds in job["mixes"]:
        b = make_bounds(rng, kinds)
        d = len(kinds)
        given = b.copy()
        for tr in ("probit", "logit"):
            kw = {} if (tr == "probit" and rng.random() < 0.5) else dict(transform=tr)
            arg = None if (set(kinds) == {"n"} and rng.random() < 0.5) else given
            # -- the bare maps
            r = Reparameterize(d, bounds=arg, scale=False, **kw)
            u = np.concatenate([rng.normal(size=(8, d)) * 1.5, rng.uniform(-8, 8, (6, d)), np.full((1, d), 40.0), np.full((1, d), -40.0), np.zeros((1, d))])
            uu = u.copy()
            x, ld = r.inverse(uu)
            emit(ev="raw", kinds=kinds, tr=tr, bounds=FM(b), u=FM(u), x=FM(x), ld=FV(ld), tol=F(1e-9))
            xi = interior(rng, b, 12, 2.0)
            xx = xi.copy()
            uf = r.forward(xx)
            x2 = r.inverse(np.array(uf))[0]
            emit(ev="rawfwd", kinds=kinds, tr=tr, bounds=FM(b), x=FM(xi), u=FM(uf), x2=FM(x2))
            emit(ev="flag", clause="C15.pure", ok=bool(np.array_equal(u, uu) and np.array_equal(xi, xx) and np.array_equal(given, b)))
            # -- standardised
            for diag in (True, False):
                if rng.random() < 0.5:
                    r = Reparameterize(d, bounds=arg, scale=True, diagonal=diag, **kw)
                elif diag:
                    r = Reparameterize(d, bounds=arg, **kw)
                else:
                    r = Reparameterize(d, bounds=arg, diagonal=False, **kw)
                n = int(rng.choice([20, 47, 90]))
                X = interior(rng, b, n, float(rng.choice([0.4, 1.0, 1.6])))
                XX = X.copy()
                r.fit(XX)
                U = r.forward(XX)
                X2 = r.inverse(np.array(U))[0]
                u = np.concatenate([rng.normal(size=(6, d)) * 0.8, rng.uniform(-3, 3, (3, d)), rng.uniform(-9, 9, (3, d))])
                uu = u.copy()
                x, ld = r.inverse(uu)
                mod = [bool(np.abs(row).max() < 3) for row in u]
                with np.errstate(all="ignore"):
                    u2 = r.forward(np.array(x), check_input=False)
                # round trip only where the point is resolved from its bounds
                res = np.ones(len(u), bool)
                for i, (lo, hi) in enumerate(b):
                    if np.isfinite(lo):
                        res &= (x[:, i] - lo) > 1e-6 * max(1, abs(lo))
                    if np.isfinite(hi):
                        res &= (hi - x[:, i]) > 1e-6 * max(1, abs(hi))
                    if np.isfinite(lo) and np.isfinite(hi):
                        p = (x[:, i] - lo) / (hi - lo)
                        res &= (p > 1e-7) & (p < 1 - 1e-7)
                mod = [bool(m and q) for m, q in zip(mod, res)]
                fd = []
                h = 1e-4
                for k in range(4):
                    if not mod[k]:
                        continue
                    p = [r.inverse(np.array([u[k] + h * np.eye(d)[j]]))[0][0] for j in range(d)]
                    m = [r.inverse(np.array([u[k] - h * np.eye(d)[j]]))[0][0] for j in range(d)]
                    fd.append(dict(k=k + 1, p=FM(p), m=FM(m)))
                emit(ev="fit", kinds=kinds, tr=tr, diag=diag, bounds=FM(b), X=FM(X), U=FM(U), X2=FM(X2), u=FM(u), x=FM(x), ld=FV(ld),
                     u2=FM(np.nan_to_num(u2, nan=1e300, posinf=1e300, neginf=-1e300)), mod=mod, fd=fd, h=F(h))
                emit(ev="flag", clause="C15.pure", ok=bool(np.array_equal(X, XX) and np.array_equal(u, uu)))
                # one point at a time gives the same answers
                x1 = np.concatenate([r.inverse(u[k:k + 1].copy())[0] for k in range(5)])
                l1 = np.concatenate([r.inverse(u[k:k + 1].copy())[1] for k in range(5)])
                emit(ev="flag", clause="C15.rowwise", ok=bool(np.allclose(x1, x[:5], rtol=1e-12, atol=1e-12) and np.allclose(l1, ld[:5], rtol=1e-10, atol=1e-10)))
                both = [i for i, k in enumerate(kinds) if k == "b"]
                if both:
                    xe = interior(rng, b, 2 * len(both) + 2, 0.5)
                    for q, i in enumerate(both):
                        xe[2 * q, i], xe[2 * q + 1, i] = b[i, 0], b[i, 1]
                        xe[-1, i], xe[-2, i] = b[i, 0], b[i, 1]
                    for rr in (r, Reparameterize(d, bounds=b, scale=False, transform=tr)):
                        ue = rr.forward(xe.copy())
                        fin = np.nan_to_num(ue, nan=0, posinf=0, neginf=0)
                        xb = rr.inverse(fin)[0]
                        emit(ev="edge", bounds=FM(b), x=FM(xe), u=FM(ue), x2=FM(xb))
                if rng.random() < 0.5 and set(kinds) != {"n"}:
                    for q in range(3):
                        xo = interior(rng, b, 5, 0.5)
                        out = q > 0
                        if out:
                            i = int(rng.choice([i for i, k in enumerate(kinds) if k != "n"]))
                            row = int(rng.integers(5))
                            side = rng.choice([s for s, v in ((0, b[i, 0]), (1, b[i, 1])) if np.isfinite(v)])
                            step = float(rng.choice([1e-9, 0.5, 1e6])) * max(1.0, abs(b[i, side]))
                            xo[row, i] = b[i, side] + (step if side else -step)
                        for f in (r.forward, Reparameterize(d, bounds=b, scale=True, diagonal=diag, transform=tr).fit):
                            try:
                                with np.errstate(all="ignore"):
                                    f(xo)
                                raised = False
                            except ValueError:
                                raised = True
                            emit(ev="refuse", outside=out, raised=raised)


def do_shared(job, emit):
    """The (low, high) pair form of the bounds: the same bounds for every parameter."""
    from pocomc.scaler import Reparameterize
    rng = np.random.default_rng(job["seed"])
    for lo, hi in ((0.0, 1.0), (-2.0, 6.0), (0.5, np.inf), (-np.inf, 4.0), (-np.inf, np.inf)):
        for d in (1, 3, 4):
            for tr in ("probit", "logit"):
                r = Reparameterize(d, bounds=(lo, hi), scale=False, transform=tr)
                u = rng.normal(size=(5, d))
                x, ld = r.inverse(u.copy())
                emit(ev="raw", kinds="pair", tr=tr, bounds=FM([[lo, hi]] * d), u=FM(u), x=FM(x), ld=FV(ld), tol=F(1e-6))


def do_bclat(job, emit):
    """Replay of MC_Fold: every lattice value, several columns at once, on a lattice of spacing 1/2 or 1."""
    from pocomc.scaler import Reparameterize
    lo, hi = job["lo"], job["hi"]
    d = len(lo)
    s = job["unit"]
    b = np.array([[a * s, c * s] for a, c in zip(lo, hi)])
    r = Reparameterize(d, bounds=b, periodic=job["periodic"] or None, reflective=job["reflective"] or None)
    x = np.array(job["x"])
    X = x * s
    keep = X.copy()
    Y = np.asarray(r.apply_boundary_conditions_x(X))
    y = Y / s
    ok = np.array_equal(y, np.round(y))
    emit(ev="bclat", lo=lo, hi=hi, periodic=job["periodic"], reflective=job["reflective"], x=x.tolist(),
         y=np.round(y).astype(int).tolist() if ok else [[-10**6] * d for _ in x], after=np.round(X / s).astype(int).tolist())


def do_bc(job, emit):
    from pocomc.scaler import Reparameterize
    rng = np.random.default_rng(job["seed"])
    for _ in range(job["reps"]):
        d = int(rng.integers(1, 5))
        b = make_bounds(rng, "b" * d)
        lab = rng.integers(0, 3, d)
        per, ref = [int(i) for i in np.where(lab == 1)[0]], [int(i) for i in np.where(lab == 2)[0]]
        r = Reparameterize(d, bounds=b, periodic=(np.array(per) if rng.random() < 0.3 else per) if per or rng.random() < 0.5 else None,
                           reflective=ref if ref or rng.random() < 0.5 else None, transform=str(rng.choice(["probit", "logit"])))
        n = 12
        w = b[:, 1] - b[:, 0]
        x = b[:, 0] + w * np.concatenate([rng.uniform(-0.2, 1.2, (4, d)), rng.uniform(-4, 4, (3, d)), rng.uniform(-300, 300, (1, d)),
                                           rng.uniform(-1e9, 1e9, (1, d))])
        x = np.concatenate([x, b.T, np.full((1, d), float(rng.choice([1e300, -1e300, 1e25])))])
        X = x.copy()
        y = r.apply_boundary_conditions_x(X)
        emit(ev="bc", bounds=FM(b), periodic=per, reflective=ref, x=FM(x), y=FM(y), after=FM(X))
