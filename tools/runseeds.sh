#!/bin/bash
# runseeds.sh [ID..]: applies each planted bug to /repo, runs the check of its property, undoes it (by hand only)
cd /verif
[ $# -eq 0 ] && set -- $(ls seeded)
for s in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$s/patch.diff || { echo "$s: does not apply"; continue; }
  timeout 900 python3 check.py $p > /tmp/seedlog_$s.txt 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$s $p rc=$rc: $(grep -m2 -E 'FAILING INPUT|FAILED OBL' /tmp/seedlog_$s.txt | cut -c1-160 | tr '\n' ' ') | $(tail -1 /tmp/seedlog_$s.txt | cut -c1-150)"
done
