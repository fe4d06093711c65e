#!/bin/bash
# tools/catch.sh ID [PROP..]   apply a planted bug to /repo, run the checks of its property (or PROPs), undo.
cd /verif || exit 2
id=$1; shift
props=${*:-$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")}
git -C /repo diff --quiet || { echo "/repo is dirty"; exit 2; }
git -C /repo apply /verif/seeded/$id/patch.diff || exit 2
trap 'git -C /repo checkout -q -- .' EXIT
for p in $props; do
  out=$(./check $p quick 2>&1); rc=$?
  echo "$id $p rc=$rc $(echo "$out" | grep -v KNOWN | tail -3 | tr '\n' ' ' | cut -c1-400)"
done
