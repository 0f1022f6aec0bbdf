#!/bin/bash
# full.sh ID...: everything the final check asks of a planted bug (applied to /repo and undone): builds, tests pass, demo fails with it and passes without
cd /repo; [ -z "$(git status --porcelain)" ] || { echo "/repo not clean"; exit 1; }
for ID in "$@"; do
S=/verif/seeded/$ID; D=/tmp/fud_$ID; rm -rf "$D"; cp -a $S "$D"; rm -f "$D"/*.diff "$D"/meta.json
(timeout 300 bash "$D/demo.sh" > /tmp/fu_$ID.demo0 2>&1); d0=$?
git apply $S/patch.diff || { echo "$ID APPLY-FAIL"; continue; }
bash /opt/vp/build.sh > /tmp/fu_$ID.tsc 2>&1; b=$?
bash /opt/vp/test.sh /tmp/fu_$ID.json > /tmp/fu_$ID.tests 2>&1; f=$(node -p "const j=JSON.parse(fs.readFileSync('/tmp/fu_$ID.json'));j.passed.length+'+'+j.failed.length+'-'")
(timeout 300 bash "$D/demo.sh" > /tmp/fu_$ID.demo 2>&1); d1=$?
P=$(node -p "require('$S/meta.json').property"); VERIF_EVIDENCE=/tmp/ev_$ID timeout 900 node /verif/tool/run.js $P > /tmp/fu_$ID.chk 2>&1; c=$?
git checkout -- . ; rm -rf "$D" /tmp/ev_$ID
echo "$ID build=$b tests=$f demo(bug)=$d1 demo(clean)=$d0 check $P=$c $(grep -m1 VIOLATION /tmp/fu_$ID.chk | cut -c1-100)"
done
