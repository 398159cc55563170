#!/bin/bash
# runseed.sh ID [PROP..]: (development aid) apply a planted bug to /repo, run checks, undo.
id=$1; shift; V=/verif/seeded/$id
props=${*:-$(python3 -c "import json;print(json.load(open('$V/meta.json'))['property'])")}
git -C /repo apply $V/patch.diff || exit 2
for p in $props; do
  s=$(date +%s); /verif/run.sh check $p > /tmp/rs.out 2>/tmp/rs.err; rc=$?
  echo "$id $p rc=$rc $(($(date +%s)-s))s $(grep -h VIOLATION /tmp/rs.out | head -1) $(grep -o '"key": "[^"]*"' /verif/evidence/replay/$p.json 2>/dev/null | head -1)"
done
git -C /repo checkout -q -- .
