#!/bin/bash
# Working tool: apply each planted bug to /repo, run its property's check (or the checks in $CHECKS), undo.
cd /verif
for i in ${@:-$(ls seeded)}; do
  s=seeded/$i; p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  git -C /repo apply /verif/$s/patch.diff || { echo "APPLYFAIL $i"; continue; }
  for c in ${CHECKS:-$p}; do
    t0=$SECONDS; out=$(./check.sh $c 2>&1); r=$?
    v=MISSED; [ $r = 1 ] && grep -q "^VIOLATION property=$c" <<<"$out" && v=caught
    [ $r -gt 1 ] && v="ERROR$r"
    echo "$v $i $c $((SECONDS-t0))s $(grep -v VIOLATION <<<"$out" | tail -1 | cut -c1-120)"
  done
  git -C /repo checkout -q -- .
done
