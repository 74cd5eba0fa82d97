#!/bin/bash
# seedrun.sh [NAME...]: (dev) runs the check of each planted bug's property with the bug applied
cd /verif
for n in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$n/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$n/patch.diff || { echo "$n: does not apply"; continue; }
  s=$SECONDS; VERIF_SEED=1 VERIF_TIER=quick python3 tools/check.py $p > /tmp/seedrun.$n.log 2>&1; r=$?
  git -C /repo checkout -q -- .
  echo "$n $p exit=$r $((SECONDS-s))s $(grep -m1 VIOLATION /tmp/seedrun.$n.log)"
done
