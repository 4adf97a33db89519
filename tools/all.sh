#!/bin/bash
# run every registered check (8 at a time); print failures
cd "$(dirname "$0")/.."
ids=$(python3 -c "import json;print(*[(c.get(\"property_id\") or c.get(\"property\")) for c in json.load(open(\"MANIFEST.json\"))[\"checks\"]])")
echo $ids | tr ' ' '\n' | xargs -P 8 -I{} sh -c 'python3 check.py {} quick > /tmp/chk_{}.log 2>&1; rc=$?; [ $rc = 0 ] || { echo "{} rc=$rc"; grep -v "^$" /tmp/chk_{}.log | tail -4; }'
