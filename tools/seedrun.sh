#!/bin/bash
# seedrun.sh [id...]: apply each seeded bug to /repo, run the quick check of its property, undo
cd /verif
[ $# = 0 ] && set -- $(ls seeded)
for b in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$b/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$b/patch.diff || { echo "$b NOAPPLY"; continue; }
  s=$(date +%s)
  out=$(VERIF_SEED=1 VERIF_TIER=quick ./check.sh $p quick 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$b $p rc=$rc $(( $(date +%s)-s ))s $(echo "$out" | grep '^VIOLATION' | tail -1)"
done
