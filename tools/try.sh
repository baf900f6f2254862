#!/bin/bash
# try.sh <patch|-> <property>... : runs checks against a scratch copy of /repo
# with the patch applied (development only). MUT_TEST=1 also runs the go tests.
patch=$1; shift
d=$(mktemp -d /tmp/poltry.XXXXXXXX)
trap 'rm -rf -- "$d"' EXIT
cp -a /repo "$d/repo"
if [ "$patch" != - ]; then git -C "$d/repo" apply "$(realpath "$patch")" || exit 3; fi
cp -a /verif "$d/verif"
(cd "$d/repo" && go build ./...) || exit 3
if [ -n "$MUT_TEST" ]; then (cd "$d/repo" && go test -count=1 ./... 2>&1 | grep -v '^ok\|no test files' | tail -15); fi
for p in "$@"; do
	POLVERIF_REPO=$d/repo VERIF_SEED=1 VERIF_TIER=${TIER:-quick} timeout 900 "$d/verif/run.sh" "$p" ${ONLY:+-only "$ONLY"} 2>&1 | grep -v '^CASE\|^DONE' | cut -c1-300 | tail -4
done
