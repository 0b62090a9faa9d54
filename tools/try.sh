#!/bin/bash
# try.sh <id> [check...]: applies a planted change to /repo, runs the checks (default: its property), undoes it
set -u
id=$1; shift
cd /verif
prop=$(python3 -c "import json;print(json.load(open('${SEEDS:-seeded}/$id/meta.json'))['property'])")
[ $# -gt 0 ] || set -- $prop
git -C /repo diff --quiet || { echo "/repo is dirty"; exit 1; }
git -C /repo apply ${SEEDS:-/verif/seeded}/$id/patch.diff || exit 1
for c in "$@"; do
  s=$(date +%s); timeout 900 ./check.sh $c quick > /tmp/try.$id.$c 2>&1; rc=$?
  echo "$id $c rc=$rc $(( $(date +%s) - s ))s $(grep -m1 -A1 VIOLATION /tmp/try.$id.$c | tr '\n' ' ' | cut -c1-300)"
done
git -C /repo checkout -q -- .
