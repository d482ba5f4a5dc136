#!/bin/bash
# seedtest.sh ID...: apply each seeded change to /repo, run its property's check, undo.
root=$(cd "$(dirname "$0")/.." && pwd)
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('$root/seeded/$id/meta.json'))['property'])")
  git -C /repo apply "$root/seeded/$id/patch.diff" || { echo "$id: DOES NOT APPLY"; continue; }
  out=$(bash "$root/check.sh" "$p" quick 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$id $p rc=$rc"; echo "$out" | tail -4 | cut -c1-400
done
