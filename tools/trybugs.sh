#!/bin/bash
# trybugs.sh [id...]: runs the check of each planted bug's property against a copy of /repo with the bug applied
cd /verif; ids="$*"; [ -z "$ids" ] && ids=$(ls seeded)
for id in $ids; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
  s=$(date +%s); out=$(bash check.sh $p 2>&1); c=$?; e=$(date +%s)
  git -C /repo checkout -q -- . ; git -C /repo clean -fdq
  echo "$id $p exit=$c $((e-s))s: $(echo "$out" | grep -E "^VIOLATION" | head -1)"
done
