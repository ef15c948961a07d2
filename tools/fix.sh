#!/bin/bash
# tools/fix.sh PROPERTY "commit subject (without fix:)" "what failed": builds, runs the stable tests, commits /repo and records the repair.
set -e
cd /repo
[ -n "$NOTEST" ] || bash /opt/vp/build.sh > /tmp/fix-build.log 2>&1 || { tail -20 /tmp/fix-build.log; exit 1; }
[ -n "$NOTEST" ] || bash /opt/vp/test.sh /tmp/fix-test.json > /dev/null 2>&1 || true
python3 - <<'P'
import json,sys
o=json.load(open('/tmp/fix-test.json'))
if len(o['failed']) or len(o['passed'])!=59: print('TESTS', len(o['passed']), o['failed']); sys.exit(1)
P
if [ -n "$FILES" ]; then (cd src/lib; git commit -qm "fix: $2" -- $FILES); else git commit -qam "fix: $2"; fi
h=$(git rev-parse --short HEAD)
python3 - "$1" "$h" "$3" <<'P'
import json,sys
p='/verif/known-findings.json'
d=json.load(open(p))
d['fixed'].append(f"fixed: property={sys.argv[1]} {sys.argv[2]} {sys.argv[3]}")
json.dump(d,open(p,'w'),indent=1); open(p,'a').write('\n')
P
echo "fixed $h"
