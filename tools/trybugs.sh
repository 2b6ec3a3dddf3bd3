#!/bin/bash
# run the check of each planted bug's property with the bug applied in /repo (undone afterwards)
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d APPLY"; continue; }
  s=$(date +%s)
  out=$(VERIF_SEED=1 VERIF_TIER=quick python3 check.py $p 2>&1 | tail -3); rc=$?
  git -C /repo checkout -- .
  echo "$d $p $(( $(date +%s) - s ))s | $(echo "$out" | grep -m1 VIOLATION || echo "MISSED: $out")"
done
