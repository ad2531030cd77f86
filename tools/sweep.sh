#!/bin/bash
# run every quick check; show the summary lines and anything that is not fully discharged
cd "$(dirname "$0")/.."
for p in ${@:-$(python3 -c "import json;print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])" 2>/dev/null)}; do
 s=$(date +%s); ./check $p quick > /tmp/sweep.$p 2>&1; rc=$?
 echo "$p rc=$rc $(($(date +%s)-s))s $(grep -E '^'$p': ' /tmp/sweep.$p)"; grep -E 'INCONCLUSIVE|VIOLATION|failed obl' /tmp/sweep.$p | cut -c1-200; grep -c KNOWN /tmp/sweep.$p | sed 's/^/  known: /'
done
