"""Runs jobs of one driver on the real code: worker.py <driver> <jobs.json> <outdir> <timeout>.

pocomc is imported once; every job runs in a forked child so that crashes and hangs of the code under
test become events of the trace ("raise" / "timeout") instead of losing the verdict.
"""
import sys, os, json, fcntl, time, traceback, importlib, signal, faulthandler
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)


def claim(d):
    with open(os.path.join(d, "counter"), "r+") as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        k = int(f.read() or 0)
        f.seek(0)
        f.write(str(k + 1))
        f.truncate()
    return k


def in_repo(tb):
    return any(fr.filename.startswith(REPO + "/") for fr in traceback.extract_tb(tb))


def main():
    drv, jf, d, tmo = sys.argv[1], sys.argv[2], sys.argv[3], float(sys.argv[4])
    jobs = json.load(open(jf))
    import warnings
    warnings.filterwarnings("ignore")
    import pocomc
    assert os.path.realpath(pocomc.__file__).startswith(os.path.realpath(REPO)), pocomc.__file__
    mod = importlib.import_module(drv)
    while True:
        k = claim(d)
        if k >= len(jobs):
            return
        out = os.path.join(d, "out%d.ndjson" % k)
        t = time.time()
        pid = os.fork()
        if pid == 0:
            os.setpgid(0, 0)
            scratch = os.path.join(d, "s%d" % k)
            os.makedirs(scratch)
            os.chdir(scratch)
            import torch
            torch.set_num_threads(1)
            f = open(out, "w")
            def emit(**e):
                f.write(json.dumps(e, allow_nan=False) + "\n")
                f.flush()
            rc = 0
            try:
                mod.run(jobs[k], emit)
            except BaseException as ex:
                tb = traceback.format_exc()
                if isinstance(ex, (HarnessError, MemoryError, ImportError)) or (isinstance(ex, OSError) and not in_repo(ex.__traceback__)):
                    emit(ev="harness-error", tb=tb[-1500:])
                else:
                    emit(ev="raise", exc=type(ex).__name__, msg=str(ex)[:300], tb=tb[-1200:])
            f.close()
            os._exit(rc)
        try:
            os.setpgid(pid, pid)
        except OSError:
            pass
        while True:
            p, st = os.waitpid(pid, os.WNOHANG)
            if p:
                break
            if time.time() - t > tmo:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                st = None
                break
            time.sleep(0.005)
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            pass
        if st is None:
            with open(out, "a") as f:
                f.write("\n" + json.dumps(dict(ev="timeout", secs=tmo)) + "\n")
            fix_partial(out)
            with open(os.path.join(d, "counter"), "w") as f:      # no further jobs: the verdict is clear
                f.write(str(10**9))
        elif st != 0:
            with open(out, "a") as f:
                f.write("\n" + json.dumps(dict(ev="died", status=st)) + "\n")
            fix_partial(out)


def fix_partial(out):
    good = []
    for l in open(out).read().split("\n"):
        try:
            if l:
                json.loads(l)
                good.append(l)
        except ValueError:
            pass
    open(out, "w").write("\n".join(good) + "\n")


class HarnessError(Exception):
    pass


if __name__ == "__main__":
    sys.modules["worker"] = sys.modules["__main__"]
    main()
