#!/bin/bash
# development tool: applies each planted bug to /repo, runs the check of its property, restores
cd "$(dirname "$0")/.."
for d in ${@:-seeded/*}; do
  id=$(basename "$d")
  prop=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id APPLY FAILED"; continue; }
  start=$(date +%s)
  out=$(VERIF_SEED=1 VERIF_TIER=quick python3 check.py $prop 2>&1); rc=$?
  git -C /repo checkout -- .
  if [ $rc = 1 ] && grep -q "VIOLATION property=$prop" <<<"$out"; then echo "$id $prop caught $(( $(date +%s) - start ))s"; else echo "$id $prop MISSED rc=$rc"; [ $rc = 2 ] && tail -5 <<<"$out"; fi
done
