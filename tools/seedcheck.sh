#!/bin/bash
# Applies each seeded change to /repo in turn, runs the quick check of its property, undoes it.
cd "$(dirname "$0")/.."
for d in ${@:-seeded/*}; do
  d=seeded/$(basename "$d"); id=$(basename "$d")
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  cmd=$(python3 -c "import json;print([c['quick_cmd'] if 'quick_cmd' in c else c['quick'] for c in json.load(open('MANIFEST.json'))['checks'] if c['property_id' if 'property_id' in c else 'property']=='$p'][0])")
  git -C /repo apply "$PWD/$d/patch.diff" || { echo "$id does not apply"; continue; }
  s=$(date +%s); out=$(bash -c "$cmd" 2>&1); rc=$?; e=$(date +%s)
  git -C /repo checkout -- .
  echo "$id $p rc=$rc $((e-s))s $(echo "$out" | grep -c VIOLATION) $(echo "$out" | grep VIOLATION | head -1)"
done
