#!/bin/bash
# catch.sh <id>...: applies a planted bug to a scratch copy and runs its property's check on it
cd "$(dirname "$0")/.." || exit 3
for id in "$@"; do
	p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
	w=/tmp/catch_$id
	rm -rf -- "$w"; cp -a /repo "$w" && git -C "$w" apply "$PWD/seeded/$id/patch.diff" || continue
	s=$(date +%s)
	VH_REPO="$w" timeout 900 ./check.sh "$p" >"/tmp/catch_$id.log" 2>&1
	r=$?
	echo "$id $p exit $r $(($(date +%s)-s)) s $(grep -m1 VIOLATION /tmp/catch_$id.log)"
	rm -rf -- "$w"
done
