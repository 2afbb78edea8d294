#!/bin/bash
# catch.sh ID...: apply each planted bug to /repo, run its property's quick check, undo.
cd /verif || exit 2
for i in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
  git -C /repo diff --quiet || { echo "/repo dirty"; exit 2; }
  git -C /repo apply "/verif/seeded/$i/patch.diff" || continue
  s=$(date +%s)
  VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick timeout 900 ./check.py "$p" > /tmp/pl/catch_$i.log 2>&1; rc=$?
  git -C /repo checkout -- .
  echo "$i $p rc=$rc $(( $(date +%s) - s ))s $(grep -m1 VIOLATION /tmp/pl/catch_$i.log)"
done
