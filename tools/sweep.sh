#!/bin/bash
# Applies each planted bug to /repo in turn, runs the checks named (default: that of its property), undoes it.
# usage: sweep.sh [id...]   (env CHECKS="C01 C02" overrides the checks)
cd /verif
ids=("$@"); [ ${#ids[@]} = 0 ] && ids=($(ls seeded))
for id in "${ids[@]}"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id does not apply"; continue; }
  for c in ${CHECKS:-$p}; do
    out=$(VERIF_SEED=1 python3 check.py $c quick 2>&1); rc=$?
    echo "$id [$p] check $c: rc=$rc $(echo "$out" | grep -E '^VIOLATION' | cut -c1-160) $(echo "$out" | grep -E 'bounded search' | cut -c1-160)"
  done
  git -C /repo checkout -- .
done
