#!/bin/bash
# tryseeds.sh [ID...]: applies each planted bug to /repo, runs its property's quick check, undoes it
cd /verif
[ $# = 0 ] && set -- $(ls seeded)
for s in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$s/patch.diff" || { echo "$s does not apply"; continue; }
  for q in ${PROPS:-$p}; do
    out=$(VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick timeout 900 ./check.sh $q 2>&1); rc=$?
    if [ $rc = 1 ] && grep -q "^VIOLATION property=$q " <<<"$out"; then echo "$s: caught by $q"; else echo "$s: MISSED by $q (exit $rc)"; fi
  done
  git -C /repo checkout -q -- .
done
