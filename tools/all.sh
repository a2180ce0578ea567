#!/bin/bash
# all.sh [tier]: every check on the current tree; flags encoding gaps and unfinished cases
cd /verif
for p in $(python3 -c "import json;print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])"); do
 ./run $p ${1:-quick} > /tmp/all.$p.log 2>&1; rc=$?
 l=$(tail -1 /tmp/all.$p.log); f=""
 [ $rc != 0 ] && f="$f RC=$rc"
 echo "$l" | grep -q "inconclusive=0 " || f="$f INCONCLUSIVE"
 echo "$l$f"
done
