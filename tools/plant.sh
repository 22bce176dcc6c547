#!/bin/bash
# Development aid: plant.sh ID: validates seeded/ID (patch applies, builds, tests pass, demo discriminates) and prints what the driver reports.
id=$1; S=/verif/seeded/$id
W=/tmp/plant-$id
rm -rf "/tmp/plant-$id"; cp -a /repo $W; cd $W; git checkout -q -- .
if [ -z "$NODEMO" ]; then
 D=$(mktemp -d /tmp/demo-XXXX); cp $S/demo.* $D/
 bash $D/demo.sh >/tmp/demo.out 2>&1; echo "demo on base: $?"
fi
git apply $S/patch.diff || { echo "PATCH DOES NOT APPLY"; exit 1; }
if [ -z "$NODEMO" ]; then
 bash $D/demo.sh >/tmp/demo.out2 2>&1; echo "demo with patch: $?"; tail -3 /tmp/demo.out2
 rm -rf "$D"
 (export REPO=$W; sed 's#/repo#'$W'#g' /opt/vp/env.sh > /tmp/env.sh; sed 's#/repo#'$W'#g;s#/opt/vp/env.sh#/tmp/env.sh#' /opt/vp/build.sh > /tmp/b.sh; sed 's#/repo#'$W'#g;s#/opt/vp/env.sh#/tmp/env.sh#' /opt/vp/test.sh > /tmp/t.sh; bash /tmp/b.sh >/tmp/b.out 2>&1; echo "build $?"; bash /tmp/t.sh /tmp/t.json >/tmp/tt.out 2>&1; python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/t.json'))
b=b['stable']
miss=[x for x in b if x not in t['passed']]
print('tests missing:',miss[:5],len(b))
P
)
fi
python3 /verif/tools/probe.py $W
rm -rf "/tmp/plant-$id"
