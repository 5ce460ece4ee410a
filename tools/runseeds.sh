#!/bin/bash
# runseeds.sh [id...]: run the check of each planted bug's property against it (development tool)
cd /verif
ids="$@"; [ -z "$ids" ] && ids=$(ls seeded)
for i in $ids; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
  for q in ${PROPS:-$p}; do
  git -C /repo apply /verif/seeded/$i/patch.diff || { echo "$i does not apply"; continue; }
  timeout 900 python3 check.py $q quick > /tmp/rs.log 2>&1; rc=$?
  git -C /repo checkout -- .
  echo "$i $q rc=$rc $(grep -c '^VIOLATION' /tmp/rs.log) $(tail -1 /tmp/rs.log | cut -c1-110)"
  done
done
