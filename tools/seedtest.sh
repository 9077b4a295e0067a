#!/bin/bash
# development aid: for each seeded bug (all, or those named): demo without and with the patch, stable tests, the property's check
cd /verif/seeded
ids=${*:-$(ls)}
git -C /repo diff --quiet || { echo "/repo is not clean"; exit 1; }
bash /opt/vp/build.sh > /dev/null 2>&1
for i in $ids; do (cd /repo; bash /verif/seeded/$i/demo.sh > /tmp/demo.$i.0 2>&1; echo $? > /tmp/demo.$i.rc0); done
for i in $ids; do
    p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$i/meta.json'))['property'])")
    git -C /repo apply /verif/seeded/$i/patch.diff || { echo "$i: does not apply"; continue; }
    if bash /opt/vp/build.sh > /tmp/demo.$i.build 2>&1; then
        (cd /repo; bash /verif/seeded/$i/demo.sh > /tmp/demo.$i.1 2>&1; echo $? > /tmp/demo.$i.rc1)
        [ -n "$NOTEST" ] || bash /opt/vp/test.sh /tmp/demo.json > /dev/null 2>&1
        n=$(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/demo.json'))
s=set(b.get('stable') or b.get('passed') or [])
print(len(s-set(r['passed'])))" 2>&1 | tail -1)
        [ -n "$NOTEST" ] && n=-
        (cd /verif; python3 check.py $p > /tmp/demo.$i.chk 2>&1; echo $? > /tmp/demo.$i.rcc)
        python3 - $i <<'P'
import json, re, sys
f = '/verif/tools/caught.json'
try: d = json.load(open(f))
except OSError: d = {}
d[sys.argv[1]] = sorted(set(re.findall(r'\[(C\d+\.\w+)\]', open('/tmp/demo.%s.chk' % sys.argv[1]).read())))
json.dump(d, open(f, 'w'), indent=0, sort_keys=True)
P
        echo "$i: demo $(cat /tmp/demo.$i.rc0)/$(cat /tmp/demo.$i.rc1) tests-broken=$n check=$(cat /tmp/demo.$i.rcc)"
    else
        echo "$i: does not build"
    fi
    git -C /repo checkout -q -- .
done
bash /opt/vp/build.sh > /dev/null 2>&1
