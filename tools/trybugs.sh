#!/bin/bash
# trybugs.sh [id...]: run the check of each planted bug's property with the bug applied to /repo, and undo it
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d does not apply"; continue; }
  VERIF_SEED=1 python3 check.py $p quick > /tmp/try.$d.log 2>&1
  rc=$?
  git -C /repo checkout -- .
  echo "$d $p rc=$rc $(grep VIOLATION /tmp/try.$d.log) | $(grep -E 'failed obligation|replay of' /tmp/try.$d.log | head -3 | tr '\n' ' ') | $(tail -1 /tmp/try.$d.log)"
done
