#!/bin/bash
# seed_run.sh [ID...]: runs the quick check of its property against each planted bug.
cd "$(dirname "$0")/.." || exit 2
[ -n "$(git -C /repo status --porcelain)" ] && { echo "/repo is not clean"; exit 2; }
ids=("$@")
[ $# = 0 ] && ids=($(ls seeded))
for id in "${ids[@]}"; do
	prop=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
	git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id does not apply"; continue; }
	start=$(date +%s)
	VERIF_SEED=1 timeout 900 bash run.sh "$prop" quick > "work/seed-$id.log" 2>&1
	rc=$?
	git -C /repo checkout -q -- .
	if [ $rc = 1 ] && grep -q "^VIOLATION property=$prop" "work/seed-$id.log"; then
		echo "$id $prop caught $(( $(date +%s) - start ))s"
	else
		echo "$id $prop MISSED rc=$rc $(( $(date +%s) - start ))s"
	fi
done
