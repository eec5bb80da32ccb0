#!/bin/bash
# catch.sh ID [CHECK ...]: applies a planted bug to /repo, runs its property's check (or those given), and undoes it.
id=$1; shift
d=/verif/seeded/$id
p=${*:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
git -C /repo apply "$d/patch.diff" || exit 9
trap 'git -C /repo checkout -q -- .' EXIT
cd /verif
for c in $p; do
  out=$(./check "$c" quick 2>&1); rc=$?
  echo "$id $c rc=$rc $(echo "$out" | grep VIOLATION | head -1) $(echo "$out" | grep -iE '^ *(detail|why|reason|failure)' | head -1 | cut -c1-300)"
  [ $rc = 1 ] || echo "   MISSED: $(echo "$out" | tail -3 | cut -c1-300)"
done
