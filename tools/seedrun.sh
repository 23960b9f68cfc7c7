#!/bin/bash
# usage: seedrun.sh [id...]   applies each planted bug to /repo, runs the quick check of its property, undoes it
cd "$(dirname "$0")/.." || exit 2
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
for id in ${*:-$(ls seeded)}; do
  prop=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id does not apply"; continue; }
  s=$(date +%s)
  VERIF_SEED=${VERIF_SEED:-1} timeout 900 ./check.sh "${CHECK:-$prop}" quick > /tmp/seedrun.out 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$id $prop rc=$rc $(( $(date +%s) - s ))s $(grep -m1 -E '^VIOLATION' /tmp/seedrun.out) :: $(grep -m1 -A1 -E '^VIOLATION' /tmp/seedrun.out | tail -1 | cut -c1-150)"
done
