#!/bin/bash
# replay.sh FILE [-v] : rebuilds the simulator from /repo's working tree and
# repeats the recorded run exactly. exit 1 when the violation shows again.
here=$(cd "$(dirname "$0")" && pwd)
B=${VERIF_BUILD:-$here/.build}
f=$(realpath "$1"); shift
if grep -q '"race": *true' "$f"; then r=race bin=sim-race; else r=norace bin=sim; fi
bash "$here/build.sh" $r || exit 2
exec env TMPDIR="${VERIF_TMP:-/tmp}" "$B/$bin" replay "$@" "$f"
