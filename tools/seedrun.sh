#!/bin/bash
# tools/seedrun.sh NAME...: applies each planted bug to a scratch copy and runs the check of its property there
# (vcheck does the same against /repo)
cd "$(dirname "$0")/.."
for n in "$@"; do
  n=${n%/}; n=${n##*/}
  r=/tmp/sx_$n; rm -rf "$r"; mkdir "$r"; cp -a /repo/src /repo/dependencies "$r"/ ; (cd $r && git init -q . && git apply /verif/seeded/$n/patch.diff) || { echo "$n: patch does not apply"; continue; }
  p=$(python3 -c "import json;print(json.load(open('seeded/$n/meta.json'))['property'])")
  s=$(date +%s); XMM_REPO=$r timeout 900 python3 check.py $p ${SEEDARGS} > /tmp/sx_$n.log 2>&1; rc=$?
  echo "$n $p rc=$rc $(( $(date +%s) - s ))s $(grep -m1 VIOLATION /tmp/sx_$n.log) :: $(grep -m1 -i 'assert\|oob\|heap\|uaf\|leak\|uninit' /tmp/sx_$n.log | cut -c1-150)"
  rm -rf "$r"
done
