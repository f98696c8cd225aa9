#!/bin/bash
# applies every planted change to /repo in turn, runs its property's check, undoes it
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "NOAPPLY $d"; continue; }
  t=$SECONDS
  out=$(VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 bin/check.py $p 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$d rc=$rc $((SECONDS-t))s $(echo "$out" | grep -E '^VIOLATION' | head -2 | tr '\n' ' ') $(echo "$out" | grep -c UNDECIDED)"
done
