#!/bin/bash
# one.sh SEED [PROP]: run a check on a planted bug, full output
cd "$(dirname "$0")/.."
t=$(mktemp -d /tmp/st.XXXXXX); cp -a /repo $t/repo; git -C $t/repo apply /verif/seeded/$1/patch.diff
p=${2:-$(python3 -c "import json;print(json.load(open('seeded/$1/meta.json'))['property'])")}
VERIF_EVIDENCE=$t/ev VERIF_REPO=$t/repo timeout 900 python3 check.py $p
rm -rf "/tmp/st.${t#/tmp/st.}"
