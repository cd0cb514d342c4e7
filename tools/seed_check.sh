#!/bin/bash
# seed_check.sh BUG...: apply each seeded bug to /repo, run its property's check (or $CHECKS), undo.
here=$(cd "$(dirname "$0")/.." && pwd)
trap 'git -C /repo checkout -q -- .' EXIT
for b in "$@"; do
  d=$here/seeded/$b
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply "$d/patch.diff" || { echo "$b: patch does not apply"; continue; }
  for c in ${CHECKS:-$p}; do
    t0=$SECONDS
    out=$("$here/run.sh" "$c" 2>&1); rc=$?
    if [ $rc = 1 ] && grep -q "^VIOLATION property=$c " <<<"$out"; then r=caught; else r="MISSED(rc=$rc)"; fi
    echo "$b $c $r $((SECONDS-t0))s"
  done
  git -C /repo checkout -q -- .
done
