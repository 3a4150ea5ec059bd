#!/bin/bash
# runs the checks on planted bugs: tools/runseeds.sh [ID..]; restores /repo afterwards
cd /verif
for id in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
  python3 check.py $p > /tmp/seed-$id.out 2>&1; rc=$?
  git -C /repo checkout -- .
  echo "$id $p rc=$rc $(grep -c '^VIOLATION' /tmp/seed-$id.out) $(grep '^VIOLATION' /tmp/seed-$id.out | grep -o 'no-failing.*') | $(grep '^unit' /tmp/seed-$id.out | cut -c1-150 | tr '\n' ';')"
done
