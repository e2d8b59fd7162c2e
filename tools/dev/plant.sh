#!/bin/bash
# plant.sh ID: check that /verif/seeded/ID counts (applies, builds, stable tests pass, demo passes without and fails with it),
# then run the check of its property against it.  The tree is restored afterwards.
id=$1; d=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo && git diff --quiet || { echo "repo dirty"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
cp -r $d /tmp/demo_$id; rm -f /tmp/demo_$id/*.diff
if [ -z "$SKIPDEMO" ]; then
bash /tmp/demo_$id/demo.sh > /tmp/demo_$id.log 2>&1 || { echo "$id: DEMO FAILS ON CLEAN"; tail -5 /tmp/demo_$id.log; exit 1; }
git apply $d/patch.diff || { echo "$id: does not apply"; exit 1; }
bash /opt/vp/build.sh > /tmp/plant_build.log 2>&1 || { echo "$id: BUILD FAILS"; tail -5 /tmp/plant_build.log; exit 1; }
bash /opt/vp/test.sh /tmp/plant_test.json > /tmp/plant_test.log 2>&1
python3 - <<P || exit 1
import json
r=json.load(open('/tmp/plant_test.json')); b=json.load(open('/opt/vp/BASELINE.json'))['stable']
p=set(r.get('passed',r.get('pass',[])))
bad=[t for t in b if t not in p]
if bad: print("$id: TESTS FAIL", bad); raise SystemExit(1)
P
bash /tmp/demo_$id/demo.sh > /tmp/demo_$id.log 2>&1 && { echo "$id: DEMO PASSES WITH BUG"; exit 1; }
else git apply $d/patch.diff || exit 1; fi
cd /verif; out=$(VERIF_SEED=${SEED:-1} timeout 880 python3 check.py $prop 2>&1); rc=$?
v=$(echo "$out" | grep -m1 "VIOLATION property=$prop")
[ $rc = 1 -a -n "$v" ] && echo "$id: CAUGHT ($prop)" || { echo "$id: MISSED ($prop) rc=$rc"; echo "$out" | tail -3 | cut -c1-300; }
echo "$out" | cut -c1-400 > /tmp/plant_$id.log
/bin/rm -rf "/tmp/demo_$id"
