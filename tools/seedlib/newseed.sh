#!/bin/bash
# newseed.sh ID : the change is in /repo's working tree, demo.cpp and meta.json already in seeded/ID.
# stores the diff, builds, runs tests and the demo with and without the change, reverts it.
ID=$1; D=/verif/seeded/$ID; set -u
git -C /repo diff > $D/patch.diff; [ -s $D/patch.diff ] || { echo "no change"; exit 1; }
cp /verif/tools/seedlib/demo.sh $D/demo.sh
cd /repo
bash /opt/vp/build.sh > /tmp/seedbuild.log 2>&1 || { echo BUILD FAILED; tail -5 /tmp/seedbuild.log; git checkout -- .; exit 1; }
bash /opt/vp/test.sh /tmp/seedtest.json >/dev/null 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/seedtest.json'))
def passed(x):
    for k in ('passed','pass','stable','tests'):
        if k in x: return x[k]
p=passed(t); s=passed(b)
print('baseline', len(s), 'missing', [x for x in s if x not in p])
P
bash $D/demo.sh; echo "demo with change: $?"
git checkout -- .
bash /opt/vp/build.sh > /tmp/seedbuild.log 2>&1
bash $D/demo.sh; echo "demo without: $?"
