#!/bin/bash
# try.sh ID [CHECK...]: applies a planted change to /repo, runs its property's check (or the given ones), undoes it.
id=$1; shift
P=/verif/seeded/$id
c="$*"; [ -n "$c" ] || c=$(python3 -c "import json;print(json.load(open('$P/meta.json'))['property'])")
git -C /repo apply $P/patch.diff || exit 2
for k in $c; do
  o=$(cd /verif && timeout 900 ./check.sh $k quick 2>&1); r=$?
  echo "$id $k exit $r: $(echo "$o" | grep -m1 VIOLATION | cut -c1-200) $(echo "$o" | tail -1 | cut -c1-250)"
done
git -C /repo checkout -q -- .
