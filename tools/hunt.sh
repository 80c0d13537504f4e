#!/bin/bash
# hunt.sh ID...: runs each planted bug's own check against it.
for ID in "$@"; do
  D=/verif/seeded/$ID
  P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
  git -C /repo apply $D/patch.diff || { echo "$ID: does not apply"; continue; }
  S=$(date +%s)
  python3 /verif/tools/check.py $P quick > /tmp/hunt-$ID.log 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$ID $P exit=$rc $(( $(date +%s) - S ))s $(grep -E '^(VIOLATION|violated|ERROR)' /tmp/hunt-$ID.log | tr '\n' ' ' | cut -c1-200)"
done
