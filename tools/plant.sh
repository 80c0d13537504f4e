#!/bin/bash
# plant.sh ID PROPERTY: takes /repo's uncommitted change as planted bug ID, with
# /verif/seeded/ID/{demo.sh,...,meta.json} already written, and confirms that it
# builds, passes the stable tests and is shown by its demonstration. /repo is
# restored afterwards.
ID=$1; D=/verif/seeded/$1
git -C /repo diff > $D/patch.diff
[ -s $D/patch.diff ] || { echo "no change in /repo"; exit 1; }
fail() { git -C /repo checkout -q -- .; echo "NOT PLANTED $ID: $1"; exit 1; }
bash /opt/vp/build.sh > /tmp/plant.log 2>&1 || fail "does not build (/tmp/plant.log)"
bash /opt/vp/test.sh /tmp/plant.json > /tmp/plant.log 2>&1
python3 - <<'PY' || fail "tests fail"
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/plant.json'))
def names(x):
    for k in ('stable','passed','tests','pass'):
        if k in x: return x[k]
    raise SystemExit('keys %s' % list(x))
want=set(names(b)); got=set(r.get('passed',[]))
lost=want-got
print('lost tests:', sorted(lost)); raise SystemExit(1 if lost else 0)
PY
(cd /repo && timeout 300 bash $D/demo.sh > /tmp/plant-demo.log 2>&1) && fail "demo does not show it"
tail -5 /tmp/plant-demo.log
git -C /repo checkout -q -- .
(cd /repo && timeout 300 bash $D/demo.sh > /tmp/plant-demo.log 2>&1) || { tail -20 /tmp/plant-demo.log; fail "demo fails on the unchanged tree"; }
rm -f /tmp/plant.json /tmp/plant.log /tmp/plant-demo.log
echo "planted $ID"
