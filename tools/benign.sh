#!/bin/bash
# [SET=benign2] benign.sh DIR [PROP...]: applies all behaviour-preserving edits of tools/benign (or SET) to a copy of /repo made
# in DIR and runs the checks (default: all) against it. Every one must be quiet.
set -e
here=$(cd "$(dirname "$0")/.." && pwd); dir=$1; shift
mkdir -p "$dir/v"; cp -a /repo "$dir/r"
for d in "$here"/tools/${SET:-benign}/*.diff; do git -C "$dir/r" apply "$d"; done
cp -a "$here/run.py" "$here/mon" "$here/known_findings.json" "$dir/v/"
sed -i "s#/repo#$dir/r#g" "$dir/v/run.py" "$dir/v/mon/go.mod"
cd "$dir/v"
for p in ${@:-$(seq -f 'C%02g' 1 38)}; do
	rc=0; out=$(python3 run.py $p quick 2>&1) || rc=$?
	echo "$p rc=$rc $(echo "$out" | grep VIOLATION | head -1)"
	[ $rc = 0 ] || echo "$out" | head -20
done
