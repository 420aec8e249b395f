"""C20 configuration: TLC enumerates the configurations, the real constructor and short runs resolve them."""
import random, re
from lib import run_tlc, Infra

BAD = dict(transform=["", "Probit", "log", "prob", "<None>", "identity"], metric=["", "ESS", "us", "es", "<None>", "perplexity"],
           sample=["", "pcn", "RWM", "tpc", "t", "<None>", "mh"], resample=["", "multi", "sys", "s", "mul", "<None>", "multinomial", "systematic"],
           flow=["", "nsf", "maf", "maf4", "NSF3", "<None>", "nsf36", "realnvp", "<3>"])
GOOD = dict(transform=["probit", "logit"], metric=["ess", "uss"], sample=["tpcn", "rwm"], resample=["mult", "syst"], flow=["<user>", "maf3", "nsf3", "maf6", "nsf6", "maf12", "nsf12"])
TC = [dict(epochs=7), dict(patience=1), dict(epochs=1, patience=0, shuffle=False), dict(batch_size=1, epochs=2), dict(validation_split=0.25), dict(batch_size=5), dict(patience=3, learning_rate=0.01), dict(annealing=True), dict(gaussian_scale=2.0),
      dict(laplace_scale=0.5, shuffle=False), dict(noise=0.1), dict(clip_grad_norm=2.5, epochs=11), dict(batch_size=3, noise=0.2, annealing=True), dict(patience=50), dict(validation_split=0.0)]


def enumerate_cfgs(ctx):
    cfg = "MC_Config" if ctx.quick else "MC_Config_deep"
    out = ctx.mc("MC_Config", cfg, workers="4")
    rows = {tuple(map(int, re.findall(r"-?\d+", m))) for m in re.findall(r'<<"CFG",([^>]*)>>', out)}
    return [dict(neff=a, nact=b, nprior=p, tf=t, ness=s) for a, b, p, t, s in sorted(rows)]


def check(ctx):
    rnd = random.Random(ctx.seed * 3 + 20)
    cfgs = enumerate_cfgs(ctx)
    ctx.extra["configurations_in_model"] = len(cfgs)
    jobs = []
    def batch(items, size, **kw):
        for i in range(0, len(items), size):
            jobs.append(dict(cfgs=items[i:i + size], seed=rnd.randrange(2**31), **kw))
    # every size combination through the constructor
    batch([(c, {}) for c in cfgs], 120, run=False)
    # ... and through a run (temperature reaches 1 at once)
    small = [c for c in cfgs if c["tf"] == -1]
    pick = rnd.sample(small, min(len(small), 220 if ctx.quick else 1500))
    batch([(c, dict(precondition=False, dynamic=bool(rnd.random() < 0.3))) for c in pick], 12, ntotal=1)
    # training schedule (the training itself is stubbed out), longer ladders
    tall = [c for c in cfgs if c["nact"] in (8, 13, 20) and (c["ness"] > 0 or c["neff"] in (-1, 24, 50, 64))]
    pick = rnd.sample(tall, min(len(tall), 90 if ctx.quick else 900))
    batch([(c, dict(dynamic=bool(rnd.random() < 0.3))) for c in pick], 6, width=0.08, ntotal=60, d=2)
    # training options
    opts = [(dict(c), dict(train_config=tc)) for tc in TC for c in rnd.sample(cfgs, 2 if ctx.quick else 12)]
    batch(opts, 6, ntotal=1, d=2)
    # names
    names = []
    for k, vs in BAD.items():
        for v in vs:
            c = {q: rnd.choice(g) for q, g in GOOD.items()}
            c.update({k: v}, neff=24, nact=8)
            names += [(c, dict(precondition=False)), (dict(c, nact=-1, flow="<user>" if k != "flow" else v), {})]
    for _ in range(40 if ctx.quick else 300):
        c = {q: rnd.choice(g) for q, g in GOOD.items()}
        c.update(neff=24, nact=8, vectorize=rnd.random() < 0.5, blobs=rnd.random() < 0.5)
        names.append((c, dict(precondition=rnd.random() < 0.5)))
    for c in (dict(), dict(nprior=20), dict(tf=2)):
        names.append((c, {}))
    for v in (True, False):
        for b in (True, False):
            names.append((dict(neff=20, nact=10, vectorize=v, blobs=b), dict(precondition=False)))
    batch(names, 30, run=False)
    ctx.extra["configurations_replayed"] = sum(len(j["cfgs"]) for j in jobs)
    ctx.validate("TraceConfig", ctx.drive("drv_config", jobs))
    # real training: the flow's parameters change exactly when training is due
    import scen
    rj = [j for j in scen.covering(ctx.seed * 1000 + 20, kernel=["ptpcn", "prwm"], blob="none")][:16 if ctx.quick else 60]
    for j in rj:
        j["geom"] = True
        j["runs"] = rnd.choice([[[60, 0]], [[50, 0], [110, 0]], [[40, 30], [90, 0]]])
    ctx.validate("TracePMC", ctx.drive("drv_run", rj))
