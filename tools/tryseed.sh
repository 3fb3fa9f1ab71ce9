#!/bin/bash
# tryseed.sh ID CHECK...: demo on the clean tree and on the patched tree, stable tests and checks on the patched tree
id=$1; shift
d=/verif/seeded/$id
git -C /repo diff --quiet || { echo "repo dirty"; exit 1; }
(cd /repo && bash $d/demo.sh > /tmp/ts.out 2>&1); echo "clean demo rc=$?"
git -C /repo apply $d/patch.diff || exit 1
(cd /repo && bash $d/demo.sh > /tmp/ts2.out 2>&1); echo "patched demo rc=$?"; tail -2 /tmp/ts2.out | cut -c1-200
bash /opt/vp/build.sh >/tmp/ts3.out 2>&1 || echo BUILD FAILS
bash /opt/vp/test.sh /tmp/ts.json >/dev/null 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/ts.json'))
bs=b.get('passed') or b.get('stable') or b.get('tests') or b
p=set(r.get('passed',[]))
print('stable tests lost:', [t for t in bs if t not in p][:3])
P
for p in "$@"; do (cd /verif; VC_TRACE=0 ./check $p quick 2>&1 | grep -v "^KNOWN" | tail -3 | cut -c1-300); done
git -C /repo checkout -- .
