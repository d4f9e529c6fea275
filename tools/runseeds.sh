#!/bin/bash
# runseeds.sh ID... : applies each planted change to /repo, runs the check of its property, undoes it (development aid)
for id in "$@"; do
  D=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
  git -C /repo apply $D/patch.diff || { echo "$id does not apply"; continue; }
  s=$(date +%s); (cd /verif; VERIF_SEED=1 VERIF_TIER=quick python3 check.py $p >/tmp/rs.out 2>&1); r=$?
  git -C /repo checkout -q -- .
  echo "$id $p exit=$r $(( $(date +%s)-s ))s $(grep -m1 VIOLATION /tmp/rs.out)"
done
