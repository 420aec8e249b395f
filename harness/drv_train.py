"""Flow.fit with a scripted density: every loss sequence, split, batch size and weighting (C18)."""
import numpy as np
import torch, zuko
from drv import F, FV, FM


class Holder(torch.nn.Module):
    def __init__(self, hyper):
        super().__init__()
        self.hyper = hyper


class Script(zuko.flows.Flow):
    """A 'flow' whose negative log-density of sample i is values[version] + offset[i].

    version counts the distinct parameter values seen (= optimiser steps, the gradient is constant)."""
    def __init__(self, values, offsets):
        torch.nn.Module.__init__(self)
        self.p = torch.nn.Parameter(torch.zeros(1))
        hyper = torch.nn.Sequential(torch.nn.Linear(2, 2), torch.nn.ReLU(), torch.nn.Linear(2, 1))
        for q in hyper.parameters():
            q.requires_grad_(False)
        self.transform = torch.nn.Module()
        self.transform.transforms = torch.nn.ModuleList([Holder(hyper)])
        self.values, self.offsets = values, offsets
        self.calls, self.seen = [], [0.0]
        self.x, self.shift = None, []

    def version(self):
        v = float(self.p.detach()[0])
        if v not in self.seen:
            self.seen.append(v)
        return self.seen.index(v)

    def forward(self, c=None):
        return Dens(self)


class Mark(torch.autograd.Function):
    @staticmethod
    def forward(ctx, p, rec):
        ctx.rec = rec
        return torch.zeros_like(p)

    @staticmethod
    def backward(ctx, g):
        ctx.rec["trained"] = True
        return g, None


class Dens:
    def __init__(self, f):
        self.f = f

    def log_prob(self, x):
        f = self.f
        ids = np.clip(np.round(x.detach().numpy()[:, 0] / 100.0).astype(int), 0, len(f.offsets) - 1)
        if f.x is not None:
            f.shift.extend((x.detach().numpy().astype(float) - f.x[ids]).ravel())
        v = f.version()
        vals = torch.tensor(f.values[min(v, len(f.values) - 1)] + f.offsets[ids], dtype=torch.float32)
        rec = dict(ids=[int(i) for i in ids], vals=FV(vals.numpy()), version=v, trained=False)
        f.calls.append(rec)
        return -vals + Mark.apply(f.p, rec)


def run(job, emit):
    from pocomc.flow import Flow
    for fit in job["fits"]:
        one(fit, emit)


def one(fit, emit):
    from pocomc.flow import Flow
    rng = np.random.default_rng(fit["seed"])
    torch.manual_seed(fit["seed"] % 2**31)
    n, bs, vs = fit["n"], fit["batch"], fit["split"]
    va = vs > 0
    nt = n - int(np.ceil(vs * n)) if va else n
    nb = -(-nt // bs)
    script = [float("nan") if v == 0 else float(v) for v in fit["script"]]
    E = fit["epochs"]
    vals = np.full((E + 2) * nb + 2, 9.0)
    for e in range(E):
        v = script[e % len(script)]
        if va:
            vals[(e + 1) * nb] = v
            for b in range(1, nb):
                vals[e * nb + b] = 50 + rng.integers(0, 9)
        else:
            vals[e * nb:(e + 1) * nb] = v
    if va:
        vals[0] = 77.0
    offs = np.zeros(n) if fit["flat"] else np.round(rng.random(n), 3)
    f = Script(vals, offs)
    x = torch.tensor(np.column_stack([100.0 * np.arange(n), rng.normal(size=n)]), dtype=torch.float64 if fit.get("double") else torch.float32)
    w = None
    if fit["weighted"]:
        w = torch.tensor(rng.dirichlet(np.full(n, 1.5)), dtype=torch.float32)
    reg = 0.0
    hyper = f.transform.transforms[0].hyper
    ws = [q.detach().numpy().astype(float) for k, q in hyper.named_parameters() if k.endswith("weight")]
    kw = {}
    if fit.get("laplace"):
        kw["laplace_scale"] = fit["laplace"]
        reg += sum(np.abs(q).sum() for q in ws) / fit["laplace"]
    if fit.get("gauss"):
        kw["gaussian_scale"] = fit["gauss"]
        reg += sum((q ** 2).sum() for q in ws) / (2 * fit["gauss"] ** 2)
    for k in ("annealing", "noise", "shuffle", "clip_grad_norm"):
        if k in fit:
            kw[k] = fit[k]
    if va or fit["seed"] % 2:
        kw["validation_split"] = vs
    x0, w0 = x.clone(), None if w is None else w.clone()
    noise = fit.get("noise")
    if noise:
        f.x = x.numpy().astype(float)
    flow = Flow(2, f)
    h = flow.fit(x, weights=w, epochs=E, batch_size=bs, patience=fit["patience"], **kw)
    final = flow.flow.version()
    pure = bool(torch.equal(x, x0) and (w is None or torch.equal(w, w0)))
    emit(ev="fit", n=n, batch=bs, split=F(vs), validate=bool(va), epochs=E, patience=fit["patience"], weighted=w is not None,
         w=FV(w.numpy()) if w is not None else [], reg=F(reg), loss=FV(h["loss"]), vloss=FV(h["val_loss"]), final=final, calls=f.calls, pure=pure,
         noise=F(noise or 0.0), shift=FV(f.shift[:4000]), x=FM(x.numpy().astype(float)) if noise else [])
