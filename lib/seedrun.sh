#!/bin/bash
# Runs the check of each planted bug against it: lib/seedrun.sh [id...]
cd "$(dirname "$0")/.."
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$d/patch.diff" || { echo "$d: patch does not apply"; continue; }
  s=$SECONDS; ./check.py $p > /tmp/seedrun_$d.log 2>&1; rc=$?
  git -C /repo checkout -- .
  echo "$d $p rc=$rc $((SECONDS-s))s $(grep -c '^VIOLATION' /tmp/seedrun_$d.log)"
done
