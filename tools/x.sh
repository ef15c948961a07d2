#!/bin/bash
# tools/x.sh ID [clusters] [tier]: run one suite and cluster its mismatches (development aid)
cd /verif; ID=$1; D=/tmp/x-$ID.jsonl; : > $D
DUMP_MISMATCH=$D setsid timeout ${TMO:-300} node run.mjs $ID ${3:-quick} > /tmp/x-$ID.log 2>&1 & P=$!
wait $P; kill -9 -- -$P 2>/dev/null
grep -E "mismatches|KNOWN" /tmp/x-$ID.log | cut -c1-200
[ -s $D ] || tail -3 /tmp/x-$ID.log | cut -c1-300
grep -v '"got":"!SKIPPED"' $D > $D.f
node tools/triage.mjs $D.f ${2:-12}
