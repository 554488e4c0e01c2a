#!/bin/bash
# Apply each planted bug to /repo, run its property's quick check, undo. usage: catch.sh ID...
[ $# -eq 0 ] && set -- $(ls /verif/seeded)
for id in "$@"; do
  d=/verif/seeded/$id
  prop=$(python3 -c "import json,sys;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  s=$(date +%s)
  VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 /verif/check.py $prop >/tmp/catch.$id.log 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$id $prop rc=$rc $(( $(date +%s) - s ))s $(grep -m1 '^VIOLATION' /tmp/catch.$id.log)"
done
