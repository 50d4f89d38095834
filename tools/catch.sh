#!/bin/bash
# catch.sh ID[:PROP] ... : runs the quick check of the property (or PROP) on a scratch copy of /repo with the planted bug
cd ${VCOPY:-/verif}
T=$(mktemp -d /tmp/catch-XXXXXX); chmod 755 $T
for a in "$@"; do
  id=${a%%:*}
  prop=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  [ "$a" != "$id" ] && prop=${a#*:}
  rm -rf "${T:?}/repo"; cp -a /repo $T/repo; git -C $T/repo checkout -q -- .
  git -C $T/repo apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
  s=$(date +%s)
  VF_REPO=$T/repo VF_OUT=$T/out VERIF_SEED=${SEED:-1} VERIF_TIER=quick timeout 900 python3 run.py $prop > $T/log 2>&1; rc=$?
  cp $T/log /tmp/catch.$id.log
  echo "$id $prop rc=$rc $(( $(date +%s)-s ))s $(grep -c ^VIOLATION $T/log) $(grep -B3 ^VIOLATION $T/log | head -2 | cut -c1-250 | tr '\n' ' ')"
done
rm -rf "${T:?}"
