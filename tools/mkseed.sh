#!/bin/bash
# usage: mkseed.sh <seed-id> : the scratch copy /tmp/wt holds the change; verifies build/tests/demo there and stores patch.diff
set -u
id=$1; d=/verif/seeded/$id
cd /tmp/wt || exit 2
git diff > $d/patch.diff
[ -s $d/patch.diff ] || { echo "empty patch"; exit 1; }
git checkout -q -- .
( cd /repo && git apply --check $d/patch.diff ) || exit 1
( cd /repo && bash $d/demo.sh >/tmp/demo0.log 2>&1 ); r0=$?
( cd /repo && git apply $d/patch.diff ) || exit 1
bash /opt/vp/build.sh > /tmp/seed-build.log 2>&1; b=$?
bash /opt/vp/test.sh /tmp/seed-test.json > /tmp/seed-test.log 2>&1
t=$(tail -1 /tmp/seed-test.log)
( cd /repo && bash $d/demo.sh >/tmp/demo1.log 2>&1 ); r1=$?
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
( cd /verif && python3 run.py $p quick > /tmp/seed-check.log 2>&1 ); c=$?
git -C /repo checkout -q -- .
echo "SEED $id prop=$p demo-clean=$r0 demo-patched=$r1 build=$b tests=[$t] check=$c"
grep -m2 'key=' /tmp/seed-check.log
