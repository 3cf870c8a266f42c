#!/bin/bash
# seedcheck.sh ID...: apply each seeded bug to /repo, run its property's quick check, undo
for id in "$@"; do
  d=/verif/seeded/$id
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  mkdir -p /tmp/sc; cp /verif/known-findings.txt /tmp/sc/
  out=$(VERIF_DIR_OVERRIDE=/tmp/sc bash /verif/harness/run.sh $p quick 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$id $p rc=$rc $(echo "$out" | grep -A1 VIOLATION | sed -n 2p | cut -c1-160)"
done
