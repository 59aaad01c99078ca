#!/bin/bash
# author's tool: for each seeded bug given (default: all) apply it to /repo, run its property's check, undo it
cd "$(dirname "$0")/.."
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  [ -n "$PROP" ] && p=$PROP
  git -C /repo apply "$PWD/seeded/$d/patch.diff" || { echo "$d: DOES NOT APPLY"; continue; }
  t0=$(date +%s)
  out=$(./check $p 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$d: $p rc=$rc $(( $(date +%s)-t0 ))s $(echo "$out" | grep -m1 VIOLATION)"
done
