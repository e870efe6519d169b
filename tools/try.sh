#!/bin/bash
# try.sh [id...]: which seeded changes do the quick checks of their property catch?
cd "$(dirname "$0")/.." || exit 2
[ $# -gt 0 ] || set -- $(ls seeded)
for b in "$@"; do
  p=$(python3 -c "import json,sys;print(json.load(open('seeded/$b/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$b/patch.diff" || { echo "$b does not apply"; continue; }
  s=$(date +%s)
  out=$(bash run.sh check "$p" quick 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$b $p rc=$rc $(( $(date +%s) - s ))s $(echo "$out" | grep -c '^VIOLATION') $(echo "$out" | head -1 | cut -c1-150)"
done
