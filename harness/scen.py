"""Run scenarios: pairwise covering arrays over the configuration space, seeded."""
import itertools, random

N = lambda a=0.0, b=1.0: dict(k="norm", a=a, b=b)
U = lambda a=0.0, b=1.0: dict(k="unif", a=a, b=b)
PRIORS = {
    "n2": dict(prior=[N(), N(1.0, 2.0)], m=[0.5, 0.4], s=[0.25, 0.6]),
    "nu": dict(prior=[N(-1.0, 1.5), U(-5.0, 10.0)], m=[-0.5, 0.2], s=[0.3, 1.0]),
    "ub": dict(prior=[U(2.0, 3.0), dict(k="beta22", a=-4.0, b=2.0)], m=[3.2, -2.7], s=[0.4, 0.3]),
    "edge": dict(prior=[U(0.0, 1.0), U(-2.0, 4.0)], m=[0.02, 1.95], s=[0.15, 0.5]),
    "erl": dict(prior=[dict(k="expon", a=1.0, b=2.0), dict(k="rexp", a=-1.0, b=1.0), dict(k="laplace", a=0.0, b=1.0)],
                m=[2.0, -1.5, 0.3], s=[0.6, 0.5, 0.5]),
    "cutu": dict(prior=[U(-3.0, 6.0), U(0.0, 4.0)], cut=2.5, m=[0.3, 1.5], s=[0.5, 0.6]),
    "cutn": dict(prior=[N(0.0, 2.0), N(0.0, 2.0)], cut=0.7, m=[0.3, 0.2], s=[0.5, 0.6]),
    "gh": dict(prior=[dict(k="gamma2", a=0.0, b=1.0), dict(k="halfnorm", a=-1.0, b=2.0)], m=[1.5, 0.5], s=[0.4, 0.5]),
    "n1": dict(prior=[N(0.3, 2.0)], m=[0.9], s=[0.3], n_steps=1),
    "u1": dict(prior=[U(-1.0, 5.0)], m=[3.9], s=[0.5], n_steps=1),
    "log3": dict(prior=[dict(k="logistic", a=0.0, b=1.0), U(10.0, 20.0), N()], m=[0.4, 17.0, 0.1], s=[0.6, 4.0, 0.5]),
}
KERNELS = {"ptpcn": dict(sample="tpcn", precondition=True), "prwm": dict(sample="rwm", precondition=True),
           "tpcn": dict(sample="tpcn", precondition=False), "rwm": dict(sample="rwm", precondition=False)}
SIZES = {"32/16": dict(n_effective=32, n_active=16), "48/16": dict(n_effective=48, n_active=16), "40/-": dict(n_effective=40, n_active=None),
         "-/18": dict(n_effective=None, n_active=18), "24/20": dict(n_effective=24, n_active=20), "16/24": dict(n_effective=16, n_active=24),
         "32/4": dict(n_effective=32, n_active=4)}
BLOBS = ["none", "vec!", "scalar", "int", "vec", "named", "str", "mixed", "obj", "arr"]
BC = {"-": {}, "p0": dict(periodic=[0]), "r0": dict(reflective=[0]), "p1r0": dict(periodic=[1], reflective=[0])}
NPRIOR = ["default", 1, 40, 70]
RUNS = {"one": [[60, 0]], "two": [[50, 0], [110, 0]], "again": [[60, 0], [30, 0]], "three": [[40, 0], [60, 0], [120, 0]],
        "is": [[60, 60]], "is2": [[50, 40], [110, 30]], "is-smc": [[50, 40], [90, 0]], "smc-is": [[50, 0], [90, 50]]}
LIKE = {"mild": dict(), "off": dict(off=-1234.5), "big": dict(off=2.0e5), "flat": dict(flat=50.0), "sharp": dict(flat=0.55)}

DIMS = dict(prior=list(PRIORS), kernel=list(KERNELS), sizes=list(SIZES), blob=BLOBS, bc=list(BC), nprior=NPRIOR, runs=list(RUNS), like=list(LIKE),
            resample=["mult", "syst"], metric=["ess", "uss"], dynamic=[True, False], transform=["probit", "logit"], hole=[False, True],
            tf=["default", 1, 3], steps=["default", "1/2", "2/5"], flow=["maf1", "maf2", "nsf1"])


def feasible(r):
    d = len(PRIORS[r["prior"]]["prior"]) if "prior" in r else 0
    if r.get("bc") == "p1r0" and d == 1:
        return False
    if r.get("sizes") == "32/4" and r.get("hole"):
        return False           # a warm-up batch of four points inside the hole: run() has nothing to replace them with
    return True


def pairwise(rnd, dims, tries=25):
    """Greedy pairwise covering array (every value pair of every two dimensions occurs in some row)."""
    keys = list(dims)
    todo = {(a, x, b, y) for a, b in itertools.combinations(keys, 2) for x in dims[a] for y in dims[b] if feasible({a: x, b: y})}
    rows = []
    while todo:
        best, gain = None, -1
        for _ in range(tries):
            a, x, b, y = rnd.choice(sorted(todo, key=repr)) if _ == 0 else seed
            seed = (a, x, b, y)
            row = {k: rnd.choice(dims[k]) for k in keys}
            row[a], row[b] = x, y
            if not feasible(row):
                continue
            g = sum((p, row[p], q, row[q]) in todo for p, q in itertools.combinations(keys, 2))
            if g > gain:
                best, gain = row, g
        if best is None:
            todo.discard(seed)
            continue
        rows.append(best)
        for p, q in itertools.combinations(keys, 2):
            todo.discard((p, best[p], q, best[q]))
    return rows


def to_job(r, rnd):
    P = PRIORS[r["prior"]]
    j = dict(prior=P["prior"], m=list(P["m"]), s=list(P["s"]))
    for k in ("cut", "n_steps"):
        if k in P:
            j[k] = P[k]
    j.update(KERNELS[r["kernel"]])
    j.update(SIZES[r["sizes"]])
    if r["blob"] == "vec!":
        j["vectorize"] = True
    elif r["blob"] != "none":
        j["blob"] = r["blob"]
    j.update(BC[r["bc"]])
    if r["nprior"] != "default":
        j["n_prior"] = r["nprior"]
    j["runs"] = RUNS[r["runs"]]
    L = LIKE[r["like"]]
    if "off" in L:
        j["off"] = L["off"]
    if "flat" in L:
        j["s"] = [v * L["flat"] for v in j["s"]]
    if r["hole"]:
        c = P["prior"][0]
        j["hole"] = {"norm": c["a"] - 0.5 * c["b"], "unif": c["a"] + 0.1 * c["b"], "expon": c["a"] + 0.3 * c["b"],
                     "gamma2": c["a"] + 0.8 * c["b"], "logistic": c["a"] - c["b"]}[c["k"]]
    for k in ("resample", "metric", "dynamic", "transform"):
        j[k] = r[k]
    if r["tf"] != "default":
        j["train_frequency"] = r["tf"]
    if r["steps"] != "default" :
        a, b = r["steps"].split("/")
        j["n_steps"], j["n_max_steps"] = int(a), int(b)
    if j["precondition"]:
        j["flow"] = r["flow"]
        if len(P["prior"]) == 1 and r["flow"] == "nsf1":
            j["flow"] = "maf1"
    j["seed"] = rnd.randrange(2**31)
    return j


def covering(seed, **fix):
    rnd = random.Random(seed)
    dims = {k: ([fix[k]] if k in fix and not isinstance(fix[k], list) else fix.get(k, v)) for k, v in DIMS.items()}
    return [to_job(r, rnd) for r in pairwise(rnd, dims)]


def big(seed, n):
    """Fewer, larger runs (default-like sizes)."""
    rnd = random.Random(seed)
    out = []
    for _ in range(n):
        r = {k: rnd.choice(v) for k, v in DIMS.items()}
        while not feasible(r):
            r = {k: rnd.choice(v) for k, v in DIMS.items()}
        j = to_job(r, rnd)
        j["n_active"] = rnd.choice([40, 64]); j["n_effective"] = j["n_active"] * rnd.choice([1, 2, 3])
        j["runs"] = [[rnd.choice([200, 400]), rnd.choice([0, 100])]]
        j.pop("n_prior", None)
        out.append(j)
    return out


def frozen(seed, n):
    """Every proposal is rejected, so each iteration exposes its resampled ancestors."""
    rnd = random.Random(seed)
    out = []
    for i in range(n):
        P = rnd.choice(["n2", "nu", "edge"])
        na = rnd.choice([16, 24, 32]) if i % 6 < 4 else [256, 96][i % 2]
        j = dict(prior=PRIORS[P]["prior"], m=PRIORS[P]["m"], s=[rnd.choice([3, 1, 0.4]) * v for v in PRIORS[P]["s"]], lattice=True, n_active=na, n_effective=int(na * rnd.choice([0.5, 1, 1, 2, 3, 4] if na < 96 else [1, 2, 2, 2.5, 3])),
                 resample=["mult", "syst"][i % 2], metric=rnd.choice(["ess", "uss"]), precondition=False, dynamic=rnd.random() < 0.5,
                 sample="tpcn", n_steps=1, n_max_steps=1, n_prior=8 * na, seed=rnd.randrange(2**31), blob=rnd.choice(["none", "named", "str"]))
        j["runs"] = [[rnd.choice([60, 100]), 0]]
        out.append(j)
    return out


def peaked(seed, n):
    """Posteriors far narrower than the prior: many tiny temperature steps."""
    rnd = random.Random(seed)
    out = []
    for i in range(n):
        r = {k: rnd.choice(v) for k, v in DIMS.items()}
        r["prior"], r["kernel"], r["like"], r["nprior"], r["steps"] = ["n2", "nu", "edge", "n1", "log3"][i % 5], "tpcn", "mild", "default", "default"
        while not feasible(r):
            r["bc"], r["hole"] = "-", False
        j = to_job(r, rnd)
        f = [3e-4, 3e-3, 1e-3, 1e-2][i % 4]
        j["s"] = [v * f for v in j["s"]]
        j["n_active"] = rnd.choice([32, 48]); j["n_effective"] = j["n_active"] * rnd.choice([2, 3])
        j["runs"] = [[60, 0]]
        j["may_degenerate"] = True
        out.append(j)
    return out
