#!/bin/bash
# seedtest.sh ID [checks|demo|all]: apply the seeded bug in a scratch copy, run its demo and the property's check (or all checks)
ID=$1; W=/tmp/st_$ID; MODE=${2:-both}
rm -rf "$W"; mkdir -p "$W"; cp -a /repo/contracts /repo/src /repo/package.json /repo/tsconfig.json /repo/.git /repo/typechain-types /repo/hardhat.config.ts "$W"/ ; ln -s /repo/node_modules "$W/node_modules"; [ -d /repo/artifacts ] && cp -a /repo/artifacts "$W"/
git -C "$W" apply ${SEEDS:-/verif/seeded}/$ID/patch.diff || { echo "$ID APPLY-FAIL"; exit 1; }
P=$(node -p "require('${SEEDS:-/verif/seeded}/$ID/meta.json').property")
[ "$MODE" != checks ] && { DEMO_REPO=$W bash ${SEEDS:-/verif/seeded}/$ID/demo.sh >/tmp/st_$ID.demo 2>&1; echo "$ID demo rc=$? $(tail -1 /tmp/st_$ID.demo | cut -c1-200)"; }
if [ "$MODE" != demo ]; then
PS=$P; [ "$MODE" = all ] && PS=$(node -p "JSON.parse(require('fs').readFileSync('/verif/MANIFEST.json')).checks.map(c=>c.property_id||c.property||c.id).join(' ')")
for p in $PS; do VERIF_REPO=$W VERIF_EVIDENCE=/tmp/ev_$ID node /verif/tool/run.js $p > /tmp/st_$ID.chk 2>&1; r=$?; [ $r != 0 ] || [ $p = $P ] && echo "$ID check $p rc=$r $(grep -m1 VIOLATION /tmp/st_$ID.chk | cut -c1-120)"; done; fi
rm -rf "$W" /tmp/ev_$ID
