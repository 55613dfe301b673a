#!/bin/bash
# tryseed.sh ID [--notest]: apply seeded/ID to /repo, build, run the stable tests, the demo and the property's check; undo.
cd /verif; id=$1; d=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
git -C /repo diff --quiet || { echo "/repo dirty"; exit 3; }
trap 'git -C /repo checkout -q -- .' EXIT
if [ "$2" != --onlycheck ]; then
bash /opt/vp/build.sh >/tmp/b0.log 2>&1; (cd /repo && timeout 300 bash $d/demo.sh >/tmp/d0.log 2>&1); echo "demo clean rc=$?"
git -C /repo apply $d/patch.diff || exit 3
bash /opt/vp/test.sh /tmp/o.json >/tmp/b1.log 2>&1; echo "build+test rc=$?"
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/o.json'))
base=b['stable']
miss=[t for t in base if t not in set(o['passed'])]
print("stable tests not passing:",miss[:5],len(miss))
P
(cd /repo && timeout 300 bash $d/demo.sh >/tmp/d1.log 2>&1); echo "demo patched rc=$?"; tail -3 /tmp/d1.log
else git -C /repo apply $d/patch.diff || exit 3; fi
VERIF_SEED=${VERIF_SEED:-1} timeout 900 python3 run.py $prop >/tmp/c1.log 2>&1; echo "check $prop rc=$?"; grep -aE 'VIOLATION|KNOWN' /tmp/c1.log | head -3
