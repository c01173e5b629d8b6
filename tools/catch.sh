#!/bin/bash
# catch.sh ID...: apply each planted bug to /repo, run its property's quick check, undo
for id in "$@"; do
  d=/verif/seeded/$id
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply $d/patch.diff || continue
  t0=$(date +%s)
  (cd /verif && python3 run.py --property $p > /tmp/catch.$id.log 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$id $p rc=$rc $(( $(date +%s) - t0 ))s $(grep -m1 -c VIOLATION /tmp/catch.$id.log) $(grep -m2 COUNTEREX /tmp/catch.$id.log | cut -c1-220)"
done
