#!/bin/bash
# seed.sh NAME : /tmp/seed/NAME/{demo.js,meta.json,edit.sh} -> /verif/seeded/NAME (checked in a scratch copy)
# edit.sh runs with cwd = scratch copy of /repo and edits it in place.
set -e
N=$1; SRC=/tmp/seed/$N; W=/tmp/wt_$N
rm -rf "$W"; mkdir -p "$W"; cp -a /repo/. "$W"/
cd "$W"; bash "$SRC/edit.sh"
OUT=/verif/seeded/$N; rm -rf "$OUT"; mkdir -p "$OUT"
git diff > "$OUT/patch.diff"
[ -s "$OUT/patch.diff" ] || { echo "NO DIFF"; exit 1; }
KIND=${KIND:-ts}
if [ "$KIND" = sol ]; then cp /verif/tool/dev/demo/{harness.js,hh.config.js,TestManager.sol,demo.sh} "$OUT"/; else cp /verif/tool/dev/demots/* "$OUT"/; fi
for f in "$SRC"/*; do case "$(basename $f)" in edit.sh) ;; *) cp "$f" "$OUT"/;; esac; done
rm -rf "$W"
