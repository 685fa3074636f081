#!/bin/bash
# check_seed.sh ID [PROP...]: applies the planted bug to /repo, runs the quick check(s), undoes it.
ID=$1; shift; P=${@:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$ID/meta.json'))['property'])")}
cd /verif; [ -z "$(git -C /repo status --short)" ] || { echo "/repo is not clean"; exit 1; }
git -C /repo apply /verif/seeded/$ID/patch.diff || exit 1
for p in $P; do s=$SECONDS; python3 check.py $p quick > build/seed-$ID-$p.log 2>&1; rc=$?
  echo "$ID $p exit=$rc $((SECONDS-s))s $(grep -hE '^VIOLATION|^CHECK-ERROR|^\[.*\] (assert|panic|memory|deadlock|abort|nontermination)' build/seed-$ID-$p.log | cut -c1-120 | head -5 | tr '\n' ';')"; done
git -C /repo checkout -- .
