#!/bin/bash
# development tool: tools/seed.sh <seed id> [nocheck]   confirms a planted bug and reports whether its property's check catches it
S=/verif/seeded/$1; P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
git -C /repo diff --quiet || { echo "repo dirty"; exit 2; }
cd /repo
bash /opt/vp/build.sh >/tmp/seed.log 2>&1
timeout 300 bash $S/demo.sh >/tmp/seed.demo0 2>&1; D0=$?
git apply $S/patch.diff || exit 2
bash /opt/vp/test.sh /tmp/seed.json >/tmp/seed.log 2>&1; B=$?
T=$(python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seed.json'))
ids=b['stable']
print(len(set(ids)-set(r['passed'])))
P
)
timeout 300 bash $S/demo.sh >/tmp/seed.demo1 2>&1; D1=$?
C=-
if [ "$2" != nocheck ]; then (cd /verif && bash check.sh $P >/tmp/seed.check 2>&1); C=$?; fi
git checkout -- .
echo "$1 property=$P demo-clean=$D0 build=$B newly-failing-tests=$T demo-patched=$D1 check=$C $(grep -m1 -h 'FAILING-INPUT\|VIOLATION' /tmp/seed.check 2>/dev/null | cut -c1-160) | $(grep -c FAILED-OBL /tmp/seed.check) failed obligations"
