#!/bin/bash
# try.sh SEED [PROP...]: applies the seed to /repo, runs quick checks (its own property by default), undoes it
sid=$1; shift
d=/verif/seeded/$sid
props=${*:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
git -C /repo apply "$d/patch.diff" || exit 9
for p in $props; do
  out=$(timeout 900 /verif/run.sh $p quick 2>&1); rc=$?
  echo "$sid $p rc=$rc $(echo "$out" | grep -m1 VIOLATION)"
done
git -C /repo checkout -- .
