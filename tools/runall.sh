#!/bin/bash
# runall.sh [govc flags]: every claimed check, one line each
here=$(cd "$(dirname "$0")/.." && pwd)
for p in $(python3 -c "import json;print(*[c['property'] for c in json.load(open('$here/MANIFEST.json'))['checks']])"); do
 s=$(date +%s); timeout 900 $here/checks/run.sh $p "$@" > /tmp/run_$p.log 2>&1; rc=$?
 echo "$p rc=$rc $(( $(date +%s)-s ))s $(grep -m1 VIOLATION /tmp/run_$p.log) $(tail -1 /tmp/run_$p.log | cut -c1-200)"
done
