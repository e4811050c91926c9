#!/bin/bash
# try2.sh SEED [PROP...]: as try.sh, in scratch copies of /repo and of the checks below /tmp/tw
sid=$1; shift
d=/verif/seeded/$sid
props=${*:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
W=/tmp/tw
mkdir -p $W/verif/evidence
if [ -d $W/repo ]; then git -C $W/repo fetch -q /repo HEAD && git -C $W/repo reset -q --hard FETCH_HEAD; else git clone -q /repo $W/repo && cp /repo/Cargo.lock $W/repo/ 2>/dev/null; fi
rsync -a --delete /verif/mc/ $W/verif/mc/ 2>/dev/null || cp -a /verif/mc $W/verif/
sed -i "s#path = \"/repo\"#path = \"$W/repo\"#" $W/verif/mc/Cargo.toml
cp /verif/run.sh /verif/known_findings.txt $W/verif/
git -C $W/repo apply "$d/patch.diff" || exit 9
for p in $props; do
  out=$(timeout 900 $W/verif/run.sh $p quick 2>&1); rc=$?
  echo "$sid $p rc=$rc $(echo "$out" | grep -m1 VIOLATION)"
  [ $rc = 2 ] && echo "$out" | tail -5
done
git -C $W/repo checkout -q -- .
