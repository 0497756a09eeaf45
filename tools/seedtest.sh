#!/bin/bash
# seedtest.sh [seed...]: applies each planted bug to a scratch copy of /repo and runs its property's check on it
cd "$(dirname "$0")/.."
for s in ${@:-$(ls seeded)}; do
  (
  t=$(mktemp -d /tmp/st.XXXXXX); cp -a /repo $t/repo
  git -C $t/repo apply /verif/seeded/$s/patch.diff || echo "$s DOES NOT APPLY"
  p=$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")
  VERIF_EVIDENCE=$t/ev VERIF_REPO=$t/repo timeout 900 python3 check.py $p > $t/out 2>&1; rc=$?
  echo "$s $p rc=$rc $(grep -m1 'broken:' $t/out | cut -c1-150)$(test $rc = 2 && grep -m1 ANALYSIS-ERROR $t/out | cut -c1-200)"
  rm -rf "/tmp/st.${t#/tmp/st.}"
  ) &
  while [ $(jobs -r | wc -l) -ge 8 ]; do sleep 0.2; done
done; wait
