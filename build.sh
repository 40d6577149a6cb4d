#!/bin/bash
# build.sh [norace|race|both] : builds the simulator from /repo's current
# working tree into /verif/.build (or $VERIF_BUILD). Never writes into /repo.
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=${VERIF_REPO:-/repo}
B=${VERIF_BUILD:-$here/.build}
mkdir -p "$B/mod" "$B/overlay" "$B/gocache" "$B/tmp"
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=$B/gocache
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off CGO_ENABLED=1 GO111MODULE=on GOWORK=off
export TMPDIR=$B/tmp
unset GODEBUG GORACE
cp -f "$repo/go.mod" "$B/mod/golearn.mod"
{ awk 'NF==3' "$repo/go.sum"; cat "$here/sim/extra.sum"; } | sort -u > "$B/mod/golearn.sum"
(cd "$here/sim/instrument" && GOFLAGS=-mod=mod go build -o "$B/instrument" .)
export GOFLAGS="-modfile=$B/mod/golearn.mod -mod=mod"
"$B/instrument" -repo "$repo" -out "$B/overlay" -sim "$here/sim"
cd "$repo"
bld() { # out, flags
	local o=$1; shift
	if ! go build "$@" -overlay "$B/overlay/overlay.json" -gcflags="github.com/sjwhitworth/golearn/...=-lang=go1.21" -ldflags='-linkmode=external -extldflags=-Wl,--wrap=fopen,--wrap=fclose' -o "$o" ./verifharness > "$B/build.log" 2>&1; then
		cat "$B/build.log" >&2; exit 2
	fi
}
case ${1:-norace} in
norace) bld "$B/sim" ;;
race) bld "$B/sim-race" -race ;;
both) bld "$B/sim"; bld "$B/sim-race" -race ;;
esac
