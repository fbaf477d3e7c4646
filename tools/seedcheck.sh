#!/bin/bash
# seedcheck.sh ID... : apply each seeded patch to /repo, run its property's check, undo
cd /verif
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: patch does not apply"; continue; }
  out=$(bin/check ${P:-$p} quick 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$id $p rc=$rc: $(echo "$out" | grep -v '^KNOWN' | head -${N:-3} | cut -c1-220)"
done
