#!/bin/bash
# runseeds.sh [id...]: apply each planted bug to /repo, run its property's check, undo it
D=$(cd "$(dirname "$0")/.." && pwd)
[ $# = 0 ] && set -- $(ls "$D/seeded")
for s in "$@"; do
	p=$(python3 -c "import json;print(json.load(open('$D/seeded/$s/meta.json'))['property'])")
	git -C /repo apply "$D/seeded/$s/patch.diff" || { echo "$s: does not apply"; continue; }
	t0=$(date +%s)
	bash "$D/run.sh" check "$p" > /tmp/seed.out 2>&1; rc=$?
	git -C /repo checkout -- .
	echo "$s $p rc=$rc $(( $(date +%s)-t0 ))s $(grep -c ^VIOLATION /tmp/seed.out) $(grep -m1 '^  ' /tmp/seed.out | cut -c1-140)"
done
