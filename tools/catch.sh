#!/bin/bash
# catch.sh ID...: applies each seeded change to /repo, runs its property's
# quick check, undoes it, and says whether the check caught it.
for id; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: DOES NOT APPLY"; continue; }
  s=$SECONDS
  /verif/run.sh $p quick >/tmp/catch-$id.out 2>&1; rc=$?
  git -C /repo checkout -q -- .
  if [ $rc = 1 ] && grep -q "^VIOLATION property=$p " /tmp/catch-$id.out; then echo "$id: caught by $p ($((SECONDS-s)) s)"; else echo "$id: MISSED rc=$rc ($((SECONDS-s)) s)"; fi
done
