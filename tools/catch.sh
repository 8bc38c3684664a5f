#!/bin/bash
# catch.sh [ids..]: run the check of each planted change against it, one line per change
cd /verif
for d in ${@:-$(ls seeded)}; do
  P=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d does not apply"; continue; }
  OUT=$(timeout 900 python3 check.py $P 2>/tmp/catch.err); RC=$?
  git -C /repo checkout -q -- .
  echo "$d $P exit $RC $(echo "$OUT" | grep VIOLATION | head -1)"
done
