#!/bin/bash
# usage: trybug.sh BUG [CHECK] - run a check against a scratch copy... applies to /repo and undoes it
id="$1"; c="${2:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}"
git -C /repo apply /verif/seeded/$id/patch.diff || exit 9
VERIF_SEED=1 VERIF_TIER=quick timeout 900 /verif/run.sh $c >/tmp/trybug.$id.log 2>&1; rc=$?
git -C /repo checkout -- .
echo "$id $c rc=$rc $(grep -m1 VIOLATION /tmp/trybug.$id.log | cut -c1-200)"
