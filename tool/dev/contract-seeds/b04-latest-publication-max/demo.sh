#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
S=$(mktemp -d); trap 'rm -rf "$S"' EXIT
cp "$D"/* "$S"/
cd /repo && exec_() { HOME="$S" NODE_PATH=/repo/node_modules timeout 250 node "$S/demo.js"; }
exec_
