#!/bin/bash
# usage: seedtry.sh ID [nocheck]   -- tries seeded/ID: applies to /repo, builds, tests, demo, check; restores.
ID=$1; D=/verif/seeded/$ID
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 2; }
restore() { git -C /repo checkout -q -- . ; bash /opt/vp/build.sh >/tmp/st_build2.log 2>&1; }
trap restore EXIT
git apply "$D/patch.diff" || { echo "$ID: PATCH FAILS"; exit 3; }
bash /opt/vp/build.sh >/tmp/st_build.log 2>&1 || { echo "$ID: BUILD FAILS"; tail -20 /tmp/st_build.log; exit 3; }
bash /opt/vp/test.sh /tmp/st_out.json >/tmp/st_test.log 2>&1
python3 - <<PY
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/st_out.json'))
def names(x):
    for k in ('passed','stable','stable_passed','pass'):
        if isinstance(x,dict) and k in x: return set(x[k] if isinstance(x[k],list) else x[k].keys())
    if isinstance(x,dict): return {k for k,v in x.items() if v in ('pass','passed',True)}
    return set(x)
m=names(b)-names(o)
print("$ID tests: baseline",len(names(b)),"missing",sorted(m)[:5])
PY
timeout 300 bash "$D/demo.sh" >/tmp/st_demo1.log 2>&1; R1=$?
if [ "$2" != nocheck ]; then
  (cd /verif && timeout 1000 python3 check.py $P --tier ${TIER:-quick} >/tmp/st_check.log 2>&1); RC=$?
  grep -m2 VIOLATION /tmp/st_check.log
fi
restore; trap - EXIT
timeout 300 bash "$D/demo.sh" >/tmp/st_demo0.log 2>&1; R0=$?
echo "$ID [$P] demo patched=$R1 (want !=0) clean=$R0 (want 0) check=${RC:-skipped} (want 1)"
