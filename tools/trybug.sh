#!/bin/bash
# trybug.sh BUGID [CHECK...] : apply a planted bug to /repo, run the given checks (default: the property in meta.json), undo.
ID=$1; shift
P=/verif/seeded/$ID
C=${*:-$(python3 -c "import json;print(json.load(open('$P/meta.json'))['property'])")}
git -C /repo diff --quiet || { echo "/repo dirty"; exit 2; }
git -C /repo apply $P/patch.diff || exit 2
trap 'git -C /repo checkout -q -- .' EXIT
for c in $C; do
  ( cd /verif && time VERIF_SEED=${SEED:-1} VERIF_TIER=quick /opt/venv/bin/python -B check.py run $c --tier quick ) 2>&1 | grep -v "^user\|^sys\|^$" | tail -6
done
