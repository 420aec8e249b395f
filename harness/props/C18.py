"""C18 training loop: every short loss sequence (the behaviours of MC_FlowTrain) and the data handling options."""
import itertools, random


def fits_for(ctx, rnd):
    fits = []
    E = 5 if ctx.quick else 7
    for pat in range(0, 4):
        for va in (0.0, 0.5):
            for script in itertools.product((1, 2, 3), repeat=E):
                if ctx.quick and rnd.random() > 0.55:
                    continue
                fits.append(dict(script=script, epochs=E, patience=pat, split=va, n=4, batch=4, flat=True, weighted=False, annealing=rnd.random() < 0.3))
    for _ in range(300 if ctx.quick else 4000):           # longer ones, with NaN losses
        L = rnd.choice([1, 3, 8, 14, 25])
        fits.append(dict(script=[rnd.choice([0, 1, 2, 3, 5, 8]) for _ in range(L)], epochs=rnd.choice([L, 30, 1]), patience=rnd.choice([1, 2, 5, 7, 20]),
                         split=rnd.choice([0.0, 0.5, 0.25]), n=8, batch=8, flat=True, weighted=rnd.random() < 0.5, annealing=rnd.random() < 0.5))
    for _ in range(250 if ctx.quick else 3000):           # data handling
        n = rnd.choice([6, 7, 10, 23, 40])
        f = dict(script=[rnd.choice([2, 3, 4]) for _ in range(6)], epochs=rnd.choice([1, 3, 6]), patience=rnd.choice([1, 2, 20]),
                 split=rnd.choice([0.0, 0.5, 0.2, 0.3, 0.75]), n=n, batch=rnd.choice([1, 2, 3, 5, 16, 1000]), flat=False, weighted=rnd.random() < 0.6,
                 double=rnd.random() < 0.2, shuffle=rnd.random() < 0.7)
        if rnd.random() < 0.3:
            f["laplace"] = rnd.choice([0.1, 1.0, 5.0])
        if rnd.random() < 0.3:
            f["gauss"] = rnd.choice([0.2, 1.0, 3.0])
        if rnd.random() < 0.2:
            f["noise"] = rnd.choice([1e-6, 0.02, 0.04, 0.04])
        fits.append(f)
    for f in fits:
        f["seed"] = rnd.randrange(2**31)
    rnd.shuffle(fits)
    return fits


def check(ctx):
    rnd = random.Random(ctx.seed * 23 + 18)
    ctx.mc("MC_FlowTrain", "MC_FlowTrain" if ctx.quick else "MC_FlowTrain_deep", workers="4")
    fits = fits_for(ctx, rnd)
    jobs = [dict(fits=fits[i:i + 60]) for i in range(0, len(fits), 60)]
    ctx.extra["fits"] = len(fits)
    for i in range(0, len(jobs), 60):
        ctx.validate("TraceFlowTrain", ctx.drive("drv_train", jobs[i:i + 60]))
