#!/bin/bash
# development tool: applies planted bugs to /repo one after another and runs the check of their property
cd "$(dirname "$0")/.." || exit 1
for id in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id: patch does not apply"; continue; }
  t=$(date +%s)
  out=$(./check.sh "$p" 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$id $p rc=$rc $(( $(date +%s) - t ))s $(echo "$out" | grep '^VIOLATION' | head -2 | tr '\n' ' ')"
done
