#!/bin/bash
# tryseed.sh ID...: applies each planted bug to /repo, runs the check of its property, undoes it.
root="$(cd "$(dirname "$0")/.." && pwd)"
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('$root/seeded/$id/meta.json'))['property'])")
  git -C /repo apply "$root/seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
  (cd "$root" && VERIF_SEED=1 VERIF_TIER=quick timeout 900 ./run_check.sh "$p" > /tmp/try.$id.log 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$id $p rc=$rc $(grep -m1 VIOLATION /tmp/try.$id.log)"
done
