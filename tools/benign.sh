#!/bin/bash
# benign.sh PATCH [TIER]: runs every check with a change that keeps the behaviour applied
# to /repo; prints those that are not quiet.
cd "$(dirname "$0")/.." || exit 2
[ -n "$(git -C /repo status --porcelain)" ] && { echo "/repo is not clean"; exit 2; }
git -C /repo apply "$(realpath "$1")" || exit 2
for p in $(python3 -c "import json;print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])" 2>/dev/null || seq -f 'C%02g' 21); do
	start=$(date +%s)
	VERIF_SEED=1 timeout 900 bash run.sh "$p" "${2:-quick}" > "work/benign-$p.log" 2>&1
	rc=$?
	t=$(( $(date +%s) - start ))
	if [ $rc = 0 ] && ! grep -q "^VIOLATION" "work/benign-$p.log"; then echo "$p quiet ${t}s $(tail -1 work/benign-$p.log | cut -c1-150)"; else echo "$p ALARM rc=$rc ${t}s"; grep -A6 VIOLATION "work/benign-$p.log" | head -20; fi
done
git -C /repo checkout -q -- .
git -C /repo clean -fdq
git -C /repo status --short
