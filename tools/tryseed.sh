#!/bin/bash
# usage: tools/tryseed.sh <id>...   confirms planted bugs and runs the quick check of their property (development aid)
root="$(cd "$(dirname "$0")/.." && pwd)"
cd /repo || exit 2
for s in "$@"; do
	d="$root/seeded/$s"
	p="$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' "$d/meta.json")"
	bash "$d/demo.sh" > /tmp/seed-demo.log 2>&1; clean=$?
	git apply "$d/patch.diff" || { echo "$s: patch does not apply"; continue; }
	bash /opt/vp/build.sh > /tmp/seed-build.log 2>&1; b=$?
	bash /opt/vp/test.sh /tmp/seed-test.json > /tmp/seed-test.log 2>&1; t=$?
	bash "$d/demo.sh" > /tmp/seed-demo2.log 2>&1; bad=$?
	(cd "$root" && VERIF_SEED=1 VERIF_TIER=quick ./run.sh "$p" quick > /tmp/seed-check.log 2>&1); c=$?
	git checkout -q -- .
	echo "$s: demo clean=$clean patched=$bad build=$b test=$t check($p)=$c $(grep -m1 '^VIOLATION' /tmp/seed-check.log)"
done
