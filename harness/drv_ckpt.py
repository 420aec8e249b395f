"""Saving a state, cut short at every file-system operation (C10)."""
import ctypes, os, shutil, io
import numpy as np
import targets as tg
from drv import digest
from drv_run import mk_prior, mk_lik, mk_kwargs, entry_digest, quiet
from worker import HarnessError

NONE, BEFORE, AFTER, TORN, FAIL, SHORT = range(6)
NAMES = ["full", "kill-before", "kill-after", "kill-torn", "fail", "short"]
LIB = None


def shim():
    global LIB
    if LIB is None:
        LIB = ctypes.CDLL(None)
        try:
            LIB.vp_start.argtypes = [ctypes.c_char_p, ctypes.c_int, ctypes.c_int, ctypes.c_int]
        except AttributeError:
            raise HarnessError("file-system shim not loaded")
    return LIB


def record(root, log, k, mode, fn):
    """fn() under the shim -> None or the exception"""
    lib = shim()
    fd = os.open(log, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
    lib.vp_start(os.path.abspath(root).encode(), fd, k, mode)
    try:
        with quiet():
            fn()
        ex = None
    except Exception as e:
        ex = e
    lib.vp_stop()
    os.close(fd)
    return ex


def forked(fn):
    pid = os.fork()
    if pid == 0:
        try:
            rc = fn()
        except BaseException:
            rc = 9
        os._exit(rc or 0)
    _, st = os.waitpid(pid, 0)
    return os.WEXITSTATUS(st) if os.WIFEXITED(st) else -1


def parse(log):
    ops = []
    for l in open(log).read().split("\n"):
        a = l.split("\t")
        if len(a) < 2:
            continue
        o = dict(op=a[0], p=a[1], q="", fd=-1, trunc=False, n=0)
        if a[0] == "open":
            o.update(fd=int(a[2]), trunc=a[3] == "1")
        elif a[0] in ("rename", "link"):
            o["q"] = a[2]
        elif a[0] in ("write", "fsync", "close", "trunc"):
            o["fd"] = int(a[2])
            if a[0] == "write":
                o["n"] = int(a[3])
        ops.append(o)
    return ops


def files(root):
    return sorted(os.path.relpath(os.path.join(d, f), root) for d, _, fs in os.walk(root) for f in fs)


def state_digest(smp):
    try:
        T = smp.t
    except AttributeError:
        T = -1
    p = smp.results if T != 0 else None
    n = len(p["beta"]) if p is not None else 0
    have = p is not None and "blobs" in p and p["blobs"] is not None and getattr(smp, "have_blobs", False)
    return "%d/%s/%s" % (T, getattr(smp, "calls", -1), "-".join(entry_digest(p, k, p["blobs"] if have else None) for k in range(n)))


def save_event(emit, root, target, ops, existing, states):
    paths = sorted({target, *existing, *[o["p"] for o in ops], *[o["q"] for o in ops if o["q"]]})
    emit(ev="save", target=target, ops=ops, paths=paths, existing=existing, states=states)


def build(job):
    import pocomc
    prior, lik = mk_prior(job), mk_lik(job)
    return pocomc.Sampler(prior, lik, **mk_kwargs(job))


def run(job, emit):
    shim()
    if job["what"] == "run":
        return run_series(job, emit)
    if job["what"] == "pair":
        return pair(job, emit)
    root = "root"
    os.makedirs(root)
    smp, other = build(job), build(job)
    def go(n):
        with quiet():
            smp.run(n_total=n, n_evidence=0, progress=False)
    from pathlib import Path
    mk = Path if job.get("pathlib") else str
    target = job["target"]
    if job["old"] == "run":
        go(job["totals"][0])
    A = state_digest(smp)
    existing_states = list(job["siblings"])
    sib_saved = {}
    for s in job["siblings"] + ([target] if job["before"] else []):
        with quiet():
            smp.save_state(os.path.join(root, s))
        if s != target:
            sib_saved[s] = open(os.path.join(root, s), "rb").read()
    for s in job.get("garbage", []):
        os.makedirs(os.path.dirname(os.path.join(root, s)) or ".", exist_ok=True)
        open(os.path.join(root, s), "wb").write(b"\x80\x04garbage" * 60000)
    for k in range(12):
        go(int(job["totals"][1] * 1.4 ** k))
        B = state_digest(smp)
        if A != B:
            break
    if A == B:
        raise HarnessError("states do not differ")

    def classify(r):
        p = os.path.join(r, target)
        if not os.path.exists(p):
            return "absent"
        try:
            other.load_state(p)
            d = state_digest(other)
        except Exception as ex:
            return "broken"
        return "new" if d == B else "old" if d == A else "different"

    def sib(r):
        return {s: open(os.path.join(r, s), "rb").read() if os.path.exists(os.path.join(r, s)) else b"" for s in job["siblings"]}
    before = "old" if job["before"] else "absent"
    if classify(root) != before:
        emit(ev="cut", how="full", k=0, before=before, seen=classify(root), finished=False, others=True, again="new")
        return
    sib0 = sib(root)
    if sib0 != sib_saved:
        emit(ev="flag", clause="C10.other-states-untouched", ok=False)
        return
    if job.get("rel"):
        save = lambda r: smp.save_state(mk(os.path.join(r, target)))
    else:
        save = lambda r: smp.save_state(mk(os.path.abspath(os.path.join(r, target))))

    def attempt(k, mode, n):
        r = "r%d" % n
        shutil.copytree(root, r)
        log = os.path.abspath("log%d" % n)
        rc = forked(lambda: 3 if record(r, log, k, mode, lambda: save(r)) is not None else 0)
        return r, log, rc

    r, log, rc = attempt(0, NONE, 0)
    ops = parse(log)
    existing = files(root)
    if rc != 0:
        emit(ev="cut", how="full", k=0, before=before, seen="broken", finished=True, others=True, again="broken")
        return
    save_event(emit, root, target, ops, existing, job["siblings"] + ([target] if job["before"] else []))
    emit(ev="cut", how="full", k=0, before=before, seen=classify(r), finished=True, others=sib(r) == sib0, again="new")
    gated = [o for o in ops if o["op"] != "close"]
    plan = [(1, BEFORE)]
    for k, o in enumerate(gated, 1):
        plan += [(k, AFTER), (k, FAIL)] + ([(k, TORN), (k, SHORT)] if o["op"] == "write" else [])
    if len(plan) > job["max"]:
        import random
        rnd = random.Random(job["seed"])
        keep = [p for p in plan if gated[p[0] - 1]["op"] != "write" or p[0] <= 3 or p[0] >= len(gated) - 4]
        rest = [p for p in plan if p not in keep]
        plan = sorted(keep + rnd.sample(rest, min(len(rest), max(0, job["max"] - len(keep)))))
    shutil.rmtree(r)
    for n, (k, mode) in enumerate(plan, 1):
        r, log, rc = attempt(k, mode, n)
        seen = classify(r)
        others = sib(r) == sib0
        def again():
            with quiet():
                save(r)
        arc = forked(lambda: again())
        emit(ev="cut", how=NAMES[mode], k=k, before=before, seen=seen, finished=rc == 0, others=others, again=classify(r) if arc == 0 else "failed")
        if rc not in (0, 3, 77):
            raise HarnessError("save ended with %s" % rc)
        shutil.rmtree(r)
        os.unlink(log)


class Trip:
    """Pickling this object calls the function, once."""
    def __init__(self, fn):
        self.fn = fn

    def __getstate__(self):
        fn, self.fn = self.fn, None
        if fn is not None:
            fn()
        return {}


def pair(job, emit):
    """While one process writes its state, another one saves to a different file beside it."""
    import time, pocomc
    root = "root"
    os.makedirs(root)
    prior, lik = mk_prior(job), mk_lik(job)
    a, b, other = pocomc.Sampler(prior, lik, **mk_kwargs(job)), build(job), build(job)
    with quiet():
        a.run(n_total=job["totals"][0], n_evidence=0, progress=False)
        b.run(n_total=job["totals"][1], n_evidence=0, progress=False)
    A, B = state_digest(a), state_digest(b)
    ta, tb = [os.path.join(root, t) for t in job["targets"]]
    if job["before"]:
        with quiet():
            b.save_state(ta)
            a.save_state(tb)
    kid = []

    def meanwhile():
        pid = os.fork()
        if pid == 0:
            rc = 9
            try:
                with quiet():
                    b.save_state(tb)
                rc = 0
            finally:
                os._exit(rc)
        kid.append(pid)
        for _ in range(600):            # unless it waits for us
            if os.waitid(os.P_PID, pid, os.WEXITED | os.WNOHANG | os.WNOWAIT) is not None:
                return
            time.sleep(0.05)
    prior.trip = lik.trip = Trip(meanwhile)
    ok = True
    try:
        with quiet():
            a.save_state(ta)
    except Exception:
        ok = False
    if not kid:
        meanwhile()                     # a state without the user's objects
    ok = os.WEXITSTATUS(os.waitpid(kid[0], 0)[1]) == 0 and ok
    for t, d in ((ta, A), (tb, B)):
        try:
            other.load_state(t)
            ok = ok and state_digest(other) == d
        except Exception:
            ok = False
    emit(ev="flag", clause="C10.saves-do-not-interfere", ok=bool(ok))


def run_series(job, emit):
    """The periodic files of a run, each judged against the ones before."""
    import pocomc
    root = "root"
    os.makedirs(root)
    n = [0]

    class Rec(pocomc.Sampler):
        def save_state(self, path):
            n[0] += 1
            log = os.path.abspath("log%d" % n[0])
            existing = files(root)
            ex = record(root, log, 0, NONE, lambda: pocomc.Sampler.save_state(self, path))
            if ex is not None:
                raise ex
            save_event(emit, root, os.path.relpath(os.path.abspath(path), os.path.abspath(root)), parse(log), existing, existing)
    kw = mk_kwargs(job)
    kw.update(output_dir=os.path.join(root, job["dir"]), output_label=job["label"])
    smp = Rec(mk_prior(job), mk_lik(job), **kw)
    for t in job["totals"]:
        with quiet():
            smp.run(n_total=t, n_evidence=0, progress=False, save_every=job["every"])
