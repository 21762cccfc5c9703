#!/bin/bash
# runseeds.sh [ID...]: apply each planted bug to /repo, run the quick check of its property, undo. (development aid)
cd /verif || exit 1
[ -n "$(git -C /repo status --porcelain)" ] && { echo "/repo not clean"; exit 1; }
for d in ${@:-$(ls seeded)}; do
  d=$(basename "$d"); p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$d/meta.json'))['property'])")
  if ! git -C /repo apply /verif/seeded/$d/patch.diff 2>/dev/null; then echo "$d $p DOES NOT APPLY"; continue; fi
  o=$(timeout 900 bash check.sh $p quick 2>&1); rc=$?
  git -C /repo checkout -q -- .
  if [ $rc = 1 ] && grep -q "^VIOLATION property=$p" <<<"$o"; then echo "$d $p caught: $(grep -m3 'key:' <<<"$o" | tr '\n' ' ')"; else echo "$d $p MISSED rc=$rc $(tail -2 <<<"$o")"; fi
done
