#!/bin/bash
# Applies planted bugs one after the other to /repo and runs the check of their property (and restores /repo).
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d NOAPPLY"; continue; }
  s=$(date +%s); out=$(./check.sh $p 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$d $p rc=$rc $(( $(date +%s)-s ))s $(echo "$out" | grep -m1 VIOLATION)"
done
