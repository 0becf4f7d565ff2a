#!/bin/bash
# chk.sh ID [PROP..]: apply, run checks, undo
id=$1; shift
p=${@:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}
git -C /repo apply /verif/seeded/$id/patch.diff || exit 3
for c in $p; do (cd /verif; VERIF_SEED=1 timeout 900 ./check.py $c --tier quick > /tmp/chk_$id_$c.log 2>&1; echo "$id $c rc=$?"; grep -E "^(VIOLATION|failing|failed)" /tmp/chk_$id_$c.log | cut -c1-260 | head -6); done
git -C /repo checkout -q -- .
