"""mkbug.mk(id, prop, edits, demo, needs, what): writes /verif/seeded/<id>/ from textual edits of /repo's HEAD."""
import os, subprocess, json, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = """import os, sys, warnings, tempfile, shutil
warnings.filterwarnings("ignore")
sys.path.insert(0, os.getcwd())
import numpy as np
import torch
torch.set_num_threads(1)
import pocomc as pc
assert os.path.realpath(pc.__file__).startswith(os.path.realpath(os.getcwd())), pc.__file__
"""

def mk(id, prop, edits, demo, needs, what, pre=HEAD):
    tmp = tempfile.mkdtemp()
    try:
        for d in ("a", "b"):
            os.mkdir(os.path.join(tmp, d))
        for f, old, new, *n in edits:
            src = os.path.join("/repo", f)
            for d in ("a", "b"):
                t = os.path.join(tmp, d, f)
                os.makedirs(os.path.dirname(t), exist_ok=True)
                if not os.path.exists(t):
                    shutil.copy(src, t)
            t = os.path.join(tmp, "b", f)
            s = open(t).read()
            want = n[0] if n else 1
            assert s.count(old) >= 1 and (want == "all" or isinstance(want, tuple) or s.count(old) == want), (id, f, s.count(old), old)
            if isinstance(want, tuple):       # (k,) : replace only occurrence k (0-based)
                parts = s.split(old)
                k = want[0]
                s = old.join(parts[:k + 1]) + new + old.join(parts[k + 1:])
            else:
                s = s.replace(old, new)
            open(t, "w").write(s)
        r = subprocess.run(["diff", "-ru", "a", "b"], cwd=tmp, capture_output=True, text=True).stdout
        out = []
        for line in r.splitlines(True):
            if line.startswith("diff -ru"):
                continue
            if line.startswith("--- ") or line.startswith("+++ "):
                line = line.split("\t")[0].rstrip("\n") + "\n"
            out.append(line)
        d = os.path.join(V, "seeded", id)
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "w").write("".join(out))
        open(os.path.join(d, "demo.py"), "w").write(pre + demo)
        open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\n# run with cwd = the repository\nexport OMP_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump(dict(property=prop, needs=needs, what_it_breaks=what), open(os.path.join(d, "meta.json"), "w"), indent=1)
    finally:
        shutil.rmtree(tmp)
