"""Shared machinery of the checks: job fan-out onto the real code, TLC runs, verdicts, evidence.

Runs under the system python3 (standard library only); drivers run under /opt/venv/bin/python.
"""
import json, os, re, shutil, signal, subprocess, sys, tempfile, time, hashlib, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
VENV = "/opt/venv/bin/python"
NCPU = max(2, min(8, os.cpu_count() or 2))


class Infra(Exception):
    """The machinery itself failed: neither 'held' nor 'violated'."""


def child_env(**extra):
    e = dict(os.environ)
    e.update(OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", CUDA_VISIBLE_DEVICES="",
             PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", VERIF_REPO=REPO,
             PYTHONPATH=REPO + ":" + os.path.join(VERIF, "harness"))
    e.update({k: str(v) for k, v in extra.items()})
    return e


def build_java():
    """Compile the TLC module overrides (cached by content; falls back to a scratch directory)."""
    src = os.path.join(SPEC, "java", "Floats.java")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    for base in (os.path.join(VERIF, "build"), tempfile.gettempdir()):
        d = os.path.join(base, "java-" + h)
        if os.path.exists(os.path.join(d, "Floats.class")):
            return d
        try:
            os.makedirs(base, exist_ok=True)
            tmp = tempfile.mkdtemp(dir=base)
            r = subprocess.run(["javac", "-nowarn", "-cp", JARS, "-d", tmp, src], capture_output=True, text=True)
            if r.returncode:
                raise Infra("javac: " + r.stderr[-800:])
            try:
                os.rename(tmp, d)
            except OSError:
                shutil.rmtree(tmp, ignore_errors=True)
            if os.path.exists(os.path.join(d, "Floats.class")):
                return d
        except OSError:
            continue
    raise Infra("cannot build the TLC overrides")


def build_shim():
    """Compile the file-system shim used by C10."""
    src = os.path.join(VERIF, "harness", "c", "fsshim.c")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    for base in (os.path.join(VERIF, "build"), tempfile.gettempdir()):
        so = os.path.join(base, "fsshim-%s.so" % h)
        if os.path.exists(so):
            return so
        try:
            os.makedirs(base, exist_ok=True)
            tmp = so + ".%d" % os.getpid()
            r = subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", tmp, src, "-ldl"], capture_output=True, text=True)
            if r.returncode:
                raise Infra("gcc: " + r.stderr[-800:])
            os.rename(tmp, so)
            return so
        except OSError:
            continue
    raise Infra("cannot build the file-system shim")


def run_tlc(javadir, scratch, module, cfg=None, env=None, workers="1", heap="3g", timeout=800, extra=()):
    meta = tempfile.mkdtemp(dir=scratch)
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xmx" + heap, "-Xss64m", "-cp", JARS + ":" + javadir, "tlc2.TLC",
           "-noGenerateSpecTE", "-workers", str(workers), "-metadir", meta, "-config",
           os.path.join(SPEC, (cfg or module) + ".cfg"), *extra, os.path.join(SPEC, module + ".tla")]
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=child_env(**(env or {})), capture_output=True, text=True, timeout=timeout)
        out, rc = r.stdout + r.stderr, r.returncode
    except subprocess.TimeoutExpired as ex:
        out, rc = (ex.stdout or b"").decode("utf8", "replace") if isinstance(ex.stdout, bytes) else (ex.stdout or ""), -9
    shutil.rmtree(meta, ignore_errors=True)
    m = re.findall(r"(\d+) states generated.*?(\d+) distinct states found", out.replace(",", ""))
    gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    return rc, out, gen, dist


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix="vp-%s-" % prop)
        self.java = build_java()
        self.states = self.transitions = self.events = 0
        self.jobs_done = 0
        self.samples, self.assumptions, self.mcs = [], [], []
        self.violations = []
        self.extra = {}
        self.exhaustive = False
        self.hung = False

    @property
    def quick(self):
        return self.tier == "quick"

    def close(self):
        shutil.rmtree(self.scratch, ignore_errors=True)

    # ---- design models -------------------------------------------------------------------
    def mc(self, module, cfg=None, workers="2", timeout=800, extra=(), env=None, heap="4g"):
        rc, out, gen, dist = run_tlc(self.java, self.scratch, module, cfg, workers=workers, timeout=timeout, extra=extra, env=env, heap=heap)
        if rc != 0 or "No error has been found" not in out:
            raise Infra("model %s/%s: rc=%s\n%s" % (module, cfg, rc, out[-3000:]))
        self.states += dist
        self.transitions += gen
        self.mcs.append("%s: %d states, %d transitions" % (cfg or module, dist, gen))
        return out

    def mc_notices(self, module, bugs):
        """The model with a deliberately wrong step must violate its own invariants (the model is not vacuous)."""
        for b in bugs:
            rc, out, _, _ = run_tlc(self.java, self.scratch, module, "%s_bug_%s" % (module, b))
            if rc not in (12, 13):
                raise Infra("the model %s does not notice %s: rc=%s\n%s" % (module, b, rc, out[-2000:]))

    # ---- the real code -------------------------------------------------------------------
    def drive(self, driver, jobs, timeout=240, nproc=None, env=None):
        """Run every job on the real code (one forked child per job); returns [(job, [json lines])]."""
        d = tempfile.mkdtemp(dir=self.scratch)
        jf = os.path.join(d, "jobs.json")
        json.dump(jobs, open(jf, "w"))
        open(os.path.join(d, "counter"), "w").write("0")
        n = min(nproc or NCPU, len(jobs))
        ps = [subprocess.Popen([VENV, os.path.join(VERIF, "harness", "worker.py"), driver, jf, d, str(timeout)],
                               env=child_env(**(env or {})), stdout=open(os.path.join(d, "w%d.log" % i), "w"),
                               stderr=subprocess.STDOUT, cwd=d, start_new_session=True) for i in range(n)]
        rcs = [p.wait() for p in ps]
        for p in ps:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
        res = []
        hung = int(open(os.path.join(d, "counter")).read() or 0) >= 10**9
        self.hung = self.hung or hung
        for i, j in enumerate(jobs):
            f = os.path.join(d, "out%d.ndjson" % i)
            if not os.path.exists(f):
                if hung:
                    continue
                logs = "".join(open(os.path.join(d, "w%d.log" % k)).read()[-1500:] for k in range(n))
                raise Infra("driver %s: job %d produced nothing (rcs %s)\n%s" % (driver, i, rcs, logs))
            lines = [l for l in open(f).read().split("\n") if l]
            for l in lines[-1:]:
                if '"ev": "harness-error"' in l:
                    raise Infra("driver %s job %d %s: %s" % (driver, i, json.dumps(j)[:300], json.loads(l)["tb"]))
            res.append((j, lines))
        shutil.rmtree(d, ignore_errors=True)
        return res

    # ---- trace validation ----------------------------------------------------------------
    def validate(self, module, results, chunks=None, timeout=800, only=None):
        """Let TLC judge every recorded line; collects the clauses that fail."""
        results = [(j, l) for j, l in results if l]
        if not results:
            raise Infra("no traces")
        total = sum(len(x) for _, ls in results for x in ls)
        k = max(1, min(chunks or NCPU, len(results), 1 + total // 150_000))
        bins = [[0, []] for _ in range(k)]
        for j, ls in sorted(results, key=lambda r: -sum(map(len, r[1]))):
            b = min(bins, key=lambda b: b[0])
            b[0] += sum(map(len, ls)) + 2000
            b[1].append((j, ls))
        def one(b):
            fd, f = tempfile.mkstemp(dir=self.scratch, suffix=".ndjson")
            idx = []
            with os.fdopen(fd, "w") as fh:
                for j, ls in b[1]:
                    for n, l in enumerate(ls):
                        fh.write(l + "\n")
                        idx.append((j, n, l))
            rc, out, gen, dist = run_tlc(self.java, self.scratch, module, env=dict(TRACE=f), timeout=timeout)
            os.unlink(f)
            return rc, out, gen, dist, idx
        with ThreadPoolExecutor(k) as ex:
            outs = list(ex.map(one, bins))
        known = set()
        for rc, out, gen, dist, idx in outs:
            self.states += dist
            self.transitions += gen
            self.events += len(idx)
            fails = re.findall(r'<<\s*"FAIL",\s*(\d+),\s*\{(.*?)\}\s*>>', out, re.S)
            for ln, cl in fails:
                j, n, l = idx[int(ln) - 1]
                clauses = re.findall(r'"([^"]+)"', cl)
                self.note_fail(j, n, l, clauses, only)
            if rc == 0 and "No error has been found" in out:
                continue
            m = re.findall(r'<<"AT",\s*(\d+)>>', out)
            at = max([int(x) for x in m] + [0])
            if ("evaluat" in out or "Attempted" in out or "exception" in out.lower()) and at < len(idx) and rc not in (-9,):
                j, n, l = idx[at]
                self.last_tlc = out
                if os.environ.get("VP_DEBUG"):
                    print(out[-6000:])
                self.note_fail(j, n, l, ["ANY.uninterpretable"], only, detail=out[-2500:])
            else:
                raise Infra("TLC on %s: rc=%s\n%s" % (module, rc, out[-3000:]))
        self.jobs_done += len(results)
        if len(self.samples) < 4:
            j, ls = results[len(results) // 2]
            self.samples.append(dict(module=module, job=j, events=len(ls), first=ls[0][:400], last=ls[-1][:400]))
        if self.hung and self.violations:
            raise Infra("the code under test does not return; remaining jobs skipped")

    def note_fail(self, job, n, line, clauses, only=None, detail=None):
        mine = [c for c in clauses if c.startswith(self.prop + ".") or c.startswith("ANY.")]
        if only:
            mine = [c for c in mine if c in only or c.startswith("ANY.")]
        if os.environ.get("VP_DEBUG"):
            print("FAIL", clauses, json.dumps(job)[:400], "event", n, line[:int(os.environ["VP_DEBUG"]) if os.environ["VP_DEBUG"].isdigit() else 600])
        if mine:
            self.violations.append(dict(clauses=mine, job=job, event=n, line=line, detail=detail))

    # ---- verdict -------------------------------------------------------------------------
    def finish(self, level="model_checking"):
        known = load_known(self.prop)
        new = []
        seen_known = set()
        for v in self.violations:
            hit = [k for k in known if k["clause"] in v["clauses"] and all(v["job"].get(a) == b for a, b in k.get("job", {}).items())]
            seen_known.update(k["what"] for k in hit)
            rest = [c for c in v["clauses"] if c not in {k["clause"] for k in hit}]
            if rest:
                new.append(dict(v, clauses=rest))
        for w in sorted(seen_known):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, w))
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.jobs_done,
                   trace_events=self.events, models=self.mcs, samples=self.samples or ["-"], **self.extra)
        if self.exhaustive:
            cov["exhaustive"] = True
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(new))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w"), indent=1)
        if new:
            d = os.path.join(VERIF, "replay")
            os.makedirs(d, exist_ok=True)
            p = os.path.join(d, "%s-%d.json" % (self.prop, os.getpid()))
            json.dump(dict(property=self.prop, seed=self.seed, tier=self.tier, violations=new[:20]), open(p, "w"), indent=1)
            for v in new[:3]:
                print("  clauses %s job %s event %s" % (v["clauses"], json.dumps(v["job"])[:300], v["line"][:300]))
            print("VIOLATION property=%s replay=%s" % (self.prop, p))
            return 1
        print("OK property=%s states=%d traces=%d events=%d wall=%.1fs" % (self.prop, self.states, self.jobs_done, self.events, time.time() - self.t0))
        return 0


def load_known(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding: "):
                d = json.loads(l[9:])
                if d["property"] == prop:
                    out.append(d)
    return out
