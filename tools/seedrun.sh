#!/bin/bash
# seedrun.sh [id...]: applies each planted bug to /repo, runs its property's check, undoes it.
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d: patch does not apply"; continue; }
  s=$(date +%s)
  out=$(python3 check.py $p quick 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$d $p rc=$rc $(( $(date +%s) - s ))s failed-obligations=$(echo "$out" | grep -c 'failed obligation') $(echo "$out" | grep VIOLATION | cut -c1-200)"
done
