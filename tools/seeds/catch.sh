#!/bin/bash
# development aid: catch.sh [ID[:PROP]]...: applies each planted bug to /repo, runs the check of its property (or PROP), undoes it
cd /verif
git -C /repo diff --quiet || { echo "/repo is not clean"; exit 1; }
for x in "$@"; do
  id=${x%%:*}; prop=${x#*:}; [ "$prop" = "$x" ] && prop=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || continue
  s=$(date +%s); VERIF_SEED=${VERIF_SEED:-1} timeout 900 bin/check $prop > /tmp/sd/$id.$prop.out 2>&1; rc=$?
  git -C /repo checkout -- .
  echo "$id $prop rc=$rc $(( $(date +%s) - s ))s $(grep -m1 -A1 VIOLATION /tmp/sd/$id.$prop.out | tail -1 | cut -c1-260)"
done
