#!/bin/bash
# detect.sh [ID...]: applies each planted bug to a copy of /repo and shows which
# of the checks given in PROPS (default: the bug's own property) catch it.
cd "$(dirname "$0")" || exit 2
for id in ${@:-$(ls seeded)}; do
  p=${PROPS:-$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")}
  git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id does not apply"; continue; }
  for c in $p; do
    o=$(./check.sh $c quick 2>&1); r=$?
    echo "$id $c exit=$r $(grep -c '^VIOLATION' <<<"$o") $(grep -v '^VIOLATION' <<<"$o" | head -1 | cut -c1-200)"
  done
  git -C /repo checkout -- .
done
