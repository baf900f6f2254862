#!/bin/bash
# seeded.sh [id]...: runs the check of each planted bug's property against a scratch copy of
# /repo with the bug (development only; vcheck --bug ID is the real thing).
cd "$(dirname "$0")/.." || exit 2
[ $# -gt 0 ] || set -- $(ls seeded)
for id; do
	p=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "seeded/$id/meta.json")
	s=$(date +%s)
	out=$(tools/try.sh "seeded/$id/patch.diff" "$p" 2>&1)
	if grep -q "^VIOLATION property=$p" <<< "$out"; then r=caught; else r=MISSED; fi
	echo "$r $id ($p, $(($(date +%s) - s)) s): $(grep -v '^VIOLATION\|^$' <<< "$out" | head -1 | cut -c1-220)"
done
