#!/bin/bash
# try_bugs.sh [names]: run every check of the bug's property against each planted bug, and report
cd "$(dirname "$0")/.."
for d in seeded/${1:-*}*/; do
  n=$(basename $d); p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply $PWD/$d/patch.diff || { echo "$n: patch does not apply"; continue; }
  VERIF_ALLOW_EMPTY=1 timeout 600 python3 check.py $p >/tmp/try.out 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$n $p rc=$rc $(grep -c VIOLATION /tmp/try.out) $(grep 'violated:' /tmp/try.out | sed 's/.*key=//' | sort -u | head -4 | tr '\n' ' ') | $(head -1 /tmp/try.out)"
done
