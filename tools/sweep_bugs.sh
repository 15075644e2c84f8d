#!/bin/bash
# runs the quick check of each planted bug's property (or of all properties given in PROPS) against it; prints caught / MISSED
cd /verif/seeded || exit 1
for id in ${@:-$(ls)}; do
  [ -f "$id/meta.json" ] || continue
  p=${PROPS:-$(python3 -c "import json,sys; print(json.load(open('$id/meta.json'))['property'])")}
  for q in $p; do
    out=$(V=1 bash /verif/tools/trybug.sh "$id/patch.diff" "$q" 2>&1)
    if grep -q "^VIOLATION property=$q" <<<"$out" || grep -q "rc=1" <<<"$out"; then echo "$id $q caught: $(grep -m1 '^message:' <<<"$out" | cut -c1-160)"; else echo "$id $q MISSED $(grep -m1 'rc=' <<<"$out")"; fi
  done
done
