#!/bin/bash
# Every check on the unchanged tree, nothing undecided allowed (development).
cd "$(dirname "$0")/.."
t=${1:-quick}; shift
for c in ${@:-$(python3 -c "import json;print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])")}; do
  s=$(date +%s)
  PX_STRICT=1 timeout 7200 python3-vt -m px.run $c --tier $t > /tmp/strict.$c 2>&1; rc=$?
  echo "$c rc=$rc $(( $(date +%s) - s ))s $(grep -m1 "^$c \[" /tmp/strict.$c | cut -c1-150)"
  [ $rc = 0 ] && ! grep -q "DEGRADED\|note:" /tmp/strict.$c || grep "DEGRADED\|note:\|UNCONF\|MISM\|INCONC\|VIOL" /tmp/strict.$c | cut -c1-300 | head -6
done
