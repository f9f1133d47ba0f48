#!/bin/bash
# detect.sh [ids]: apply each planted bug to /repo, run its property's quick check, undo. Not used by any check.
cd /verif
ids="$@"; [ -z "$ids" ] && ids=$(ls seeded)
for i in $ids; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$i/patch.diff || { echo "$i $p NOAPPLY"; continue; }
  s=$(date +%s)
  timeout 900 python3 bin/check.py $p >/tmp/det_$i.log 2>&1; rc=$?
  e=$(date +%s)
  git -C /repo checkout -- .
  echo "$i $p rc=$rc $((e-s))s $(grep -m1 VIOLATION /tmp/det_$i.log)"
done
