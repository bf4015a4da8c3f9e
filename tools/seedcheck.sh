#!/bin/bash
# seedcheck.sh <id>...: applies each planted change to /repo, runs the quick check of its property, undoes it.
verif=$(cd "$(dirname "$0")/.." && pwd)
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('$verif/seeded/$id/meta.json'))['property'])")
  git -C /repo apply "$verif/seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
  t=$(date +%s)
  out=$(bash "$verif/check.sh" "$p" quick 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$id $p rc=$rc $(( $(date +%s) - t ))s $(grep -m1 VIOLATION <<< "$out")"
done
