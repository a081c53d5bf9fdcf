#!/bin/bash
# bash tools/try_seeded.sh [ID ...]: run the check of the property of every planted change against it
cd "$(dirname "$0")/.." || exit 1
for d in ${@:-$(ls seeded)}; do
  p=$(/opt/venv/bin/python -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$d/patch.diff" || { echo "$d does not apply"; continue; }
  out=$(MC_FAILFAST=1 bash run.sh "$p" quick 2>&1); rc=$?
  git -C /repo checkout -- .
  if [ $rc = 1 ] && grep -q "^VIOLATION property=$p " <<<"$out"; then echo "$d caught by $p"; else echo "$d MISSED by $p rc=$rc"; fi
done
git -C /repo status --short
