"""Flow maps, densities and the array wrapper (C17)."""
import numpy as np, warnings, copy
import torch, zuko
from drv import F, FV, FM


def build(job):
    from pocomc.flow import Flow
    d, arch = job["d"], job["arch"]
    torch.manual_seed(job["seed"] % 2**31)
    if arch == "default":
        f = Flow(d)
    elif arch == "zmaf":
        f = Flow(d, zuko.flows.MAF(d, transforms=2, hidden_features=[8, 8]))
    elif arch == "znsf":
        f = Flow(d, zuko.flows.NSF(d, bins=5, transforms=2, hidden_features=[8]))
    else:
        f = Flow(d, arch) if job["seed"] % 2 else Flow(n_dim=d, flow=arch)
    g = torch.Generator().manual_seed(job["seed"] % 2**31)
    if job["params"] == "perturbed":
        with torch.no_grad():
            for p in f.flow.parameters():
                p.add_(job["amp"] * torch.randn(p.shape, generator=g))
    elif job["params"] == "trained":
        x = torch.randn(300, d, generator=g)
        x[:, 0] = x[:, 0] ** 3 / 3 + 1
        if d > 1:
            x[:, 1] = x[:, 1] * 0.3 + 0.5 * x[:, 0]
        f.fit(x, epochs=25, validation_split=0.5)
    return f


def jac(fn, x):
    return [torch.autograd.functional.jacobian(lambda t: fn(t[None])[0][0], r).detach().numpy().astype(float) for r in x]


def mild(t, x):
    """Points where neither the map nor its Jacobian stretches by more than about 400 in any direction."""
    y, l = t.call_and_ladj(x)
    ok = (y.abs().amax(1) < 12) & (l.abs() < 6) & torch.isfinite(l)
    for k in range(len(x)):
        if ok[k]:
            J = torch.autograd.functional.jacobian(lambda r: t(r[None])[0], x[k])
            sv = torch.linalg.svdvals(J)
            ok[k] = bool((sv.max() < 400) & (sv.min() > 1 / 400))
    return ok


def run(job, emit):
    warnings.simplefilter("ignore")
    from pocomc.flow import Flow
    from pocomc.tools import flow_numpy_wrapper
    if job["what"] == "names":
        for name, known in job["names"]:
            try:
                Flow(2, name)
                raised = False
            except ValueError:
                raised = True
            emit(ev="names", name=str(name), known=known, raised=raised)
        return
    f = build(job)
    d = job["d"]
    g = torch.Generator().manual_seed(job["seed"] % 2**31 + 1)
    n = job["n"]
    x = torch.randn(6 * n, d, generator=g) * 1.3
    x[0] *= 4.0
    z = torch.randn(6 * n, d, generator=g)
    # single precision resolves only well-conditioned points: chosen with zuko's own map in double precision
    t = copy.deepcopy(f.flow).double()().transform
    with torch.no_grad():
        x, z = x[mild(t, x.double())][:n], z[mild(t.inv, z.double())][:n]
    if len(x) < n or len(z) < n:
        return
    tx, tl = F(job["tx"]), F(job["tl"])
    with torch.no_grad():
        u, ld = f.forward(x.clone())
        x2, ld2 = f.inverse(u.clone())
        y, zld = f.inverse(z.clone())
        z2, zld2 = f.forward(y.clone())
        lp = f.log_prob(x.clone())
        torch.manual_seed(job["seed"] % 2**31 + 2)
        s, slp = f.sample(job["size"])
        su, sld = f.forward(s.clone())
        keep = mild(t, s.double()) if job["size"] <= 60 else torch.ones(len(s), dtype=bool)
        s1, slp1 = f.sample()
    N = lambda t: t.detach().numpy().astype(float)
    J = jac(f.forward, x[: job["nj"]])
    Ji = jac(f.inverse, z[: job["nj"]]) if d <= 2 else []
    emit(ev="map", arch=job["arch"], x=FM(N(x)), x2=FM(N(x2)), z=FM(N(z)), z2=FM(N(z2)), ld=FV(N(ld)), ld2=FV(N(ld2)), zld=FV(N(zld)), zld2=FV(N(zld2)),
         J=[FM(a) for a in J], Ji=[FM(a) for a in Ji], tx=tx, tl=tl)
    # the same rows one at a time
    for k in range(2):
        with torch.no_grad():
            a, al = f.forward(x[k:k + 1].clone())
            b, bl = f.inverse(a.clone())
            c, cl = f.inverse(z[k:k + 1].clone())
            e, el = f.forward(c.clone())
            one = f.log_prob(x[k:k + 1].clone())
        emit(ev="map", arch=job["arch"], x=FM(N(x[k:k + 1])), x2=FM(N(b)), z=FM(N(z[k:k + 1])), z2=FM(N(e)), ld=FV(N(al)), ld2=FV(N(bl)), zld=FV(N(cl)), zld2=FV(N(el)),
             J=[FM(r) for r in J[k:k + 1]], Ji=[FM(r) for r in Ji[k:k + 1]], tx=tx, tl=tl)
        emit(ev="flag", clause="C17.log-prob", ok=tuple(one.shape) == (1,) and bool(abs(one[0] - lp[k]) <= 2e-2 * (1 + abs(lp[k]))))
    emit(ev="dens", x=FM(N(x)), u=FM(N(u)), ld=FV(N(ld)), lp=FV(N(lp)), s=FM(N(s)), slp=FV(N(slp)), su=FM(N(su)), sld=FV(N(sld)), size=job["size"], rows=len(s), keep=[bool(k) for k in keep],
         law=job["params"] == "fresh", tl=tl)
    emit(ev="flag", clause="C17.sample-log-prob", ok=tuple(s1.shape) == (1, d) and tuple(slp1.shape) == (1,))
    W = flow_numpy_wrapper(f)
    xa = N(x)
    xb, ub = xa.copy(), N(u).copy()
    wf, wfl = W.forward(xb)
    wi, wil = W.inverse(ub)
    emit(ev="wrap", u=FM(N(u)), x2=FM(N(x2)), ld=FV(N(ld)), ld2=FV(N(ld2)), wf=FM(wf), wfl=FV(wfl), wi=FM(wi), wil=FV(wil), tx=tx, tl=tl,
         pure=bool(np.array_equal(xa, xb) and np.array_equal(ub, N(u)) and isinstance(wf, np.ndarray)))
    for k in range(2):
        a, al = W.forward(xa[k:k + 1].copy())
        b, bl = W.inverse(N(u)[k:k + 1].copy())
        emit(ev="wrap", u=FM(N(u)[k:k + 1]), x2=FM(N(x2)[k:k + 1]), ld=FV(N(ld)[k:k + 1]), ld2=FV(N(ld2)[k:k + 1]), wf=FM(a), wfl=FV(al), wi=FM(b), wil=FV(bl), tx=tx, tl=tl, pure=isinstance(a, np.ndarray))
    with torch.no_grad():
        xd = x.double() + 1e-12
        ok = all(torch.equal(a, b) for a, b in zip(f.forward(xd), f.forward(xd.float())))
        ok &= all(torch.equal(a, b) for a, b in zip(f.inverse(xd), f.inverse(xd.float())))
        ok &= torch.equal(f.log_prob(xd), f.log_prob(xd.float()))
        single = f.forward(xd)[0].dtype == torch.float32 and f.log_prob(xd).dtype == torch.float32
    emit(ev="cast", same=bool(ok), single=bool(single))
