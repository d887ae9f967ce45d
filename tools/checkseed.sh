#!/bin/bash
# checkseed.sh ID...: applies each planted bug to /repo, runs its property's check, undoes it
cd /verif || exit 2
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id does not apply"; continue; }
  out=$(./run.sh $p 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$id $p rc=$rc $(echo "$out" | grep -c ^VIOLATION) $(echo "$out" | grep ^VIOLATION | head -3 | tr '\n' ' ')"
done
