#!/bin/bash
# trybugs.sh [ids...]: apply each seeded change to /repo, run its property's quick check, undo.
cd "$(dirname "$0")/.."
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$d/patch.diff" || { echo "$d: PATCH FAILS"; continue; }
  s=$(date +%s)
  out=$(timeout 900 python3-vt -m symx.run $p 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$d $p rc=$rc $(( $(date +%s)-s ))s $(echo "$out" | grep -m1 VIOLATION)"
done
