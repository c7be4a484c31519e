#!/bin/bash
# runs the checks of every planted bug (or the ones named) against it; /repo is restored afterwards
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(/opt/venv/bin/python -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d: does not apply"; continue; }
  timeout -k 5 900 ./check $p quick > /tmp/try_$d.txt 2>&1 </dev/null; rc=$?
  git -C /repo checkout -q -- .
  echo "$d $p rc=$rc $(grep -c VIOLATION /tmp/try_$d.txt) $(grep -m1 VIOLATION /tmp/try_$d.txt | cut -c1-150)"
done
