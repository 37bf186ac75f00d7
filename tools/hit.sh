#!/bin/bash
# hit.sh ID [PROP…]  runs checks against /repo with seeded change ID applied, and undoes it
S=/verif/seeded/$1; shift
P=${*:-$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")}
git -C /repo diff --quiet || { echo "/repo is not clean"; exit 1; }
git -C /repo apply $S/patch.diff || exit 1
trap 'git -C /repo checkout -q -- .' EXIT
for p in $P; do
  rm -rf /verif/out/$p
  o=$(VERIF_SEED=${VERIF_SEED:-1} timeout 900 /verif/check.sh $p 2>&1); rc=$?
  echo "$(basename $S) $p rc=$rc $(echo "$o" | grep -c ^VIOLATION) violations; $(echo "$o" | grep -m1 '\[' | cut -c1-150)"
done
