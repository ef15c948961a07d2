#!/bin/bash
# tools/vr.sh VARIANT FILE [gcmode]: run one script (with __log as print) in the harness built as VARIANT (development aid)
V=$1; F=$2; cd /verif; bash lib/build.sh $V >/dev/null || exit 3
T=$(mktemp -d); python3 - "$F" "$T/c" <<'P'
import sys
d=b'var print=__log;'+open(sys.argv[1],'rb').read(); n=b'x'
open(sys.argv[2],'wb').write(b's 1\n%d %d\n'%(len(n),len(d))+n+d+b'\n')
P
ASAN_OPTIONS=detect_leaks=0 VRAT_TIMEOUT_MS=${TMO:-60000} out/build/$V/vrat $T/c $T/o 0 0 $3; cat $T/o; rm -rf -- "$T"
