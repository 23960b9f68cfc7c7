#!/bin/bash
# usage: fixcommit.sh PROP "commit message" "what failed"
# (run after editing /repo): runs the stable tests, commits, records the fix.
set -e
prop=$1; msg=$2; what=$3
cd /repo; gofmt -l $(git diff --name-only | grep '\.go$'; git ls-files -o --exclude-standard | grep '\.go$')
bash /opt/vp/build.sh >/dev/null
bash /opt/vp/test.sh /tmp/o.json >/dev/null || true
python3 - <<'P'
import json,sys
o=json.load(open('/tmp/o.json')); want=json.load(open('/opt/vp/BASELINE.json'))['stable']
miss=[t for t in want if t not in o['passed']]
if miss: print('missing',miss)
sys.exit(1 if miss else 0)
P
git add -A; git commit -qm "fix: ${msg#fix: }"
echo "fixed: property=$prop $(git rev-parse --short=12 HEAD) $what" >> /verif/known-findings.txt
tail -1 /verif/known-findings.txt
