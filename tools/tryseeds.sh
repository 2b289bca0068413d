#!/bin/bash
# tryseeds.sh [ID...]: applies each planted bug to /repo, runs its property's check, undoes it.
cd "$(dirname "$0")/.."
for id in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id NOAPPLY"; continue; }
  out=$(./check $p 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$id $p rc=$rc $(echo "$out" | grep -c 'failed obligation in') failed obligations; $(echo "$out" | tail -1)"
done
