#!/bin/bash
# trybugs.sh [ID...]: runs each planted bug's check against it (applies the patch to /repo and undoes it).
cd /verif
[ $# -gt 0 ] || set -- $(ls seeded)
for id; do
  prop=$(python3 -c 'import json,sys;print(json.load(open("seeded/'$id'/meta.json"))["property"])')
  git -C /repo diff --quiet || { echo "/repo is not clean"; exit 1; }
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
  s=$SECONDS
  timeout 900 ./run.sh check $prop > /tmp/trybug.log 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$id $prop rc=$rc $((SECONDS-s))s $(grep -m1 VIOLATION /tmp/trybug.log)"
  [ $rc = 1 ] || tail -5 /tmp/trybug.log
done
