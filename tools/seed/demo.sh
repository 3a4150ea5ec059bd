#!/bin/bash
# exit 0: property holds; 1: broken
H="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
D=/repo/target/debug/deps
LIB=$(ls -t $D/libosmgraphing-*.rlib | head -1)
O=$(mktemp -d)
trap 'rm -r -- "$O"' EXIT
rustc --edition 2018 -A warnings "$H/demo.rs" -o "$O/demo" --extern osmgraphing="$LIB" -L dependency=$D || exit 3
TMPDIR="$O" timeout 120 "$O/demo"
r=$?
[ $r -eq 0 ] && exit 0
exit 1
