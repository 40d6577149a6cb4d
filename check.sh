#!/bin/bash
# check.sh PROPERTY [quick|thorough] : decide one property on /repo's working tree.
# exit 0 held, 1 violated (VIOLATION line), anything else: error of the check.
here=$(cd "$(dirname "$0")" && pwd)
p=$1; tier=${2:-${VERIF_TIER:-quick}}
seed=${VERIF_SEED:-1}
B=${VERIF_BUILD:-$here/.build}
race=norace; bin=sim
case $p in B05|C01) race=race; bin=sim-race ;; esac
bash "$here/build.sh" $race || { echo "build failed" >&2; exit 2; }
case $tier in
quick) budget=${VERIF_BUDGET:-40s} ;;
*) budget=${VERIF_BUDGET:-480s} ;;
esac
exec env TMPDIR="${VERIF_TMP:-/tmp}" "$B/$bin" check -prop "$p" -tier "$tier" -seed "$seed" -budget "$budget" \
	-evidence "${VERIF_EVIDENCE:-$here/evidence}/$p.json" -replays "$B/replays" -known "$here/known_findings.json" $VERIF_ARGS
