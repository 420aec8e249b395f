#!/bin/bash
# trybug.sh <id> [notest]: confirm a planted bug in a scratch copy and run its property's check against it
id=$1; d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
w=$(mktemp -d /tmp/bug.XXXX); cp -a /repo $w/repo; cd $w/repo
r="$id $p"
timeout 300 bash $d/demo.sh > $w/d0 2>&1; r="$r demo0=$?"
git apply $d/patch.diff || { echo "$r APPLY-FAILED"; rm -rf $w; exit 1; }
timeout 300 bash $d/demo.sh > $w/d1 2>&1; r="$r demo1=$?"
if [ "$2" != notest ]; then
  t=$(PYTHONPATH=$w/repo OMP_NUM_THREADS=2 timeout 600 /opt/venv/bin/python -m pytest -q -x -p no:cacheprovider tests 2>&1 | tail -1); r="$r tests=[$t]"
fi
s=$(date +%s); VERIF_EVIDENCE=$w VERIF_REPO=$w/repo timeout 900 /verif/bin/check $p > $w/c 2>&1; rc=$?
r="$r check=$rc ($(( $(date +%s) - s ))s) $(grep -o 'FAIL \[[^]]*\]' $w/c | sort | uniq -c | sort -rn | head -3 | tr '\n' ' ') $(grep -m1 VIOLATION $w/c | cut -c1-120)"
echo "$r"; tail -2 $w/d1 | cut -c1-300
rm -rf $w
