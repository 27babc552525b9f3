#!/bin/bash
# run the check of each given planted bug with the bug applied: try.sh id...; records the outcome for DESIGN.md
cd /verif
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id does not apply"; continue; }
  t0=$(date +%s)
  out=$(bash check.sh $p quick 2>&1); rc=$?
  git -C /repo checkout -- .
  v=$(echo "$out" | grep -E "^VIOLATION" | head -1)
  echo "$id rc=$rc $(( $(date +%s)-t0 ))s $v"
  case "$rc $v" in
    "1 "*no-failing-input-found) r="caught by $p: failed obligation, no failing input found";;
    "1 VIOLATION"*) r="caught by $p with a failing input";;
    *) r="missed by $p";;
  esac
  touch tools/seed_results.txt
  sed -i "/^$id /d" tools/seed_results.txt; echo "$id $r" >> tools/seed_results.txt
done
