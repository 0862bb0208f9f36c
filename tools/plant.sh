#!/bin/bash
# plant.sh ID : takes the working-tree diff of the scratch copy /tmp/pl/repo as planted bug ID; verifies the demo both ways; resets.
set -e
ID=$1; D=/verif/seeded/$ID
mkdir -p $D
git -C /tmp/pl/repo diff > $D/patch.diff
[ -s $D/patch.diff ] || { echo "no diff"; exit 1; }
set +e
( cd /tmp/pl/repo && timeout 300 bash $D/demo.sh ) > /tmp/pl/$ID.bad.log 2>&1; bad=$?
git -C /tmp/pl/repo checkout -q -- .
( cd /tmp/pl/repo && timeout 300 bash $D/demo.sh ) > /tmp/pl/$ID.good.log 2>&1; good=$?
git -C /repo apply --check $D/patch.diff; app=$?
echo "$ID: with patch exit $bad, clean exit $good, applies $app"
tail -3 /tmp/pl/$ID.bad.log; tail -2 /tmp/pl/$ID.good.log
