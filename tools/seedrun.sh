#!/bin/bash
# development helper: seedrun.sh [ids...] — run the property check of each planted bug with the bug applied to /repo
cd /verif/seeded
for i in ${@:-*}; do
  p=$(python3 -c "import json;print(json.load(open('$i/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$i/patch.diff || { echo "$i: does not apply"; continue; }
  python3 /verif/tools/check.py ${PROP:-$p} --tier quick >/tmp/sr.log 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$i ${PROP:-$p} rc=$rc $(grep -m1 -B1 VIOLATION /tmp/sr.log | head -1 | cut -c1-220)"
  [ $rc = 1 ] || tail -3 /tmp/sr.log
done
