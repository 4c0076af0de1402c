#!/bin/bash
# development aid: apply each planted bug given, run its property's check (or the ids in $CHECKS), undo
for i in "$@"; do
  d=/verif/seeded/$i
  ids=${CHECKS:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
  git -C /repo apply $d/patch.diff || { echo "$i does not apply"; continue; }
  for p in $ids; do
    s=$(date +%s)
    timeout 900 /verif/bin/check $p > /tmp/seedtest.log 2>&1; rc=$?
    echo "$i $p rc=$rc $(( $(date +%s) - s ))s $(grep -v '^failed obligation' /tmp/seedtest.log | tail -2 | tr '\n' ' ' | cut -c1-300)"
  done
  git -C /repo checkout -q -- .
done
