#!/bin/bash
# Usage: try.sh ID... -- run the check of each planted change's property against it, in /repo, and undo.
for id in "$@"; do
  prop=$(python3 -c "import json,sys;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
  s=$(date +%s)
  out=$(/verif/run.sh $prop quick 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$id $prop rc=$rc $(( $(date +%s) - s ))s"; grep -E 'VIOLATION|unconfirmed' <<<"$out" | head -3
  [ -n "$V" ] && tail -30 <<<"$out"
done
