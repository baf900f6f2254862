#!/bin/bash
# run.sh <property> [harness flags]: builds the harness against /repo's working
# tree and runs the monitors of one property. Tier and seed: VERIF_TIER, VERIF_SEED.
set -u
prop=$1; shift
here=$(cd "$(dirname "$0")" && pwd)
repo=${POLVERIF_REPO:-/repo} # another tree only while developing
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
work=$(mktemp -d /tmp/polverif.XXXXXXXX) || exit 2
trap 'rm -rf -- "$work"' EXIT
cp -r "$here/harness" "$work/harness" || exit 2
cp "$repo/go.sum" "$work/harness/go.sum"
[ "$repo" = /repo ] || sed -i "s#=> /repo#=> $repo#" "$work/harness/go.mod"
build() { (cd "$work/harness" && go build "$@" -o "$work/pv" .) > "$work/build.log" 2>&1; }
case $prop in
C08) # goroutines that report to the harness; without them if that does not build
	echo '{}' | (cd "$work/harness" && go run ./cmd/rewrite "$repo" "$work") > "$work/sched.json" 2> "$work/build.log" &&
		build -race -overlay "$work/sched.json" || build -race
	;;
*) # an observable crypto/sha256
	python3 "$here/tools/overlay.py" "$repo" "$work" > "$work/overlay.json" || exit 2
	build -overlay "$work/overlay.json"
	;;
esac
if [ ! -x "$work/pv" ]; then
	cat "$work/build.log" >&2
	echo "harness build failed" >&2
	exit 2
fi
mkdir -p "$here/evidence/replay"
cd "$work" || exit 2
exec_out() { "$work/pv" -verif "$here" -repo "$repo" "$@" "$prop"; }
exec_out "$@"
rc=$?
exit $rc
