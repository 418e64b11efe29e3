#!/bin/bash
# tools/seedcheck.sh <seed id> [check id]: run a check against a planted bug (applied to /repo and undone)
P=$(python3 -c "import json,sys;print(json.load(open('/verif/seeded/$1/meta.json'))['property'])")
git -C /repo apply /verif/seeded/$1/patch.diff || exit 3
/verif/run.sh ${2:-$P} quick > /tmp/w/seedcheck.out 2>&1; rc=$?
git -C /repo checkout -- .
echo "$1 ${2:-$P} rc=$rc $(grep -m1 VIOLATION /tmp/w/seedcheck.out) $(grep -m1 '^  ' /tmp/w/seedcheck.out | cut -c1-200)"
[ $rc = 0 ] || [ $rc = 1 ] || tail -5 /tmp/w/seedcheck.out
