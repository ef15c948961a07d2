#!/bin/bash
# tools/plant.sh ID PROP EDIT.py DEMO.js "needs" "breaks" [CHECKPROPS]: makes a planted bug of the edit (a python file that edits files
# under /repo, cwd /repo), confirms it in /repo (built, stable tests, demo fails), runs the check against it and undoes it.
id=$1; prop=$2; edit=$3; demo=$4; needs=$5; breaks=$6; D=/verif/seeded/$id
cd /repo; [ -z "$(git status --porcelain --untracked-files=no)" ] || { echo "repo not clean"; exit 1; }
trap 'git -C /repo checkout -q -- .' EXIT
mkdir -p $D
if [ -n "$demo" ]; then
cp "$demo" $D/demo.js
cat > $D/demo.sh <<'X'
#!/bin/bash
# runs demo.js with the built interpreter and compares what it prints with what it has to print
d=$(cd "$(dirname "$0")" && pwd)
out=$(LD_LIBRARY_PATH=/repo/_build timeout 100 /repo/_build/ratjs -s "$d/demo.js" 2>/dev/null); rc=$?
[ $rc = 0 ] && [ "$out" = "$(cat "$d/expected.txt")" ]
X
fi
bash /opt/vp/build.sh >/tmp/plant.log 2>&1
if [ -n "$demo" ]; then
LD_LIBRARY_PATH=/repo/_build timeout 100 /repo/_build/ratjs -s $D/demo.js > $D/expected.txt 2>/dev/null || { echo "demo exits nonzero on the unchanged tree"; cat $D/expected.txt; }
node -e 'const fs=require("fs"),vm=require("vm");let o="";globalThis.print=(...a)=>{o+=a.map(String).join("")};try{(0,eval)(fs.readFileSync(process.argv[1],"utf8"))}catch(e){o+="throw "+e+"\n"};setImmediate(()=>setImmediate(()=>fs.writeFileSync("/tmp/plant.node",o)))' $D/demo.js; cmp -s /tmp/plant.node $D/expected.txt || { echo "demo: node prints otherwise:"; diff /tmp/plant.node $D/expected.txt | head -5; }
fi
bash $D/demo.sh || { echo "demo fails on the unchanged tree"; exit 1; }
python3 "$edit" || { echo "edit failed"; exit 1; }
git diff > $D/patch.diff; [ -s $D/patch.diff ] || { echo "no change"; exit 1; }
bash /opt/vp/test.sh /tmp/plant.json >/tmp/plant.log 2>&1
python3 - <<'P' || exit 1
import json,sys
o=json.load(open('/tmp/plant.json'))
if len(o['failed']) or len(o['passed'])!=59: print('TESTS BREAK', len(o['passed']), o['failed'][:3]); sys.exit(1)
P
bash $D/demo.sh && { echo "demo passes with the patch"; exit 1; }
python3 - "$D/meta.json" "$prop" "$needs" "$breaks" <<'P'
import json,sys
json.dump(dict(property=sys.argv[2],needs=sys.argv[3],what_it_breaks=sys.argv[4]),open(sys.argv[1],'w'),indent=1)
P
cd /verif
for p in ${7:-$prop}; do VERIF_SEED=1 VERIF_TIER=quick timeout 900 node --experimental-vm-modules --no-warnings run.mjs $p quick > /tmp/plant-$p.log 2>&1; echo "$id: check $p exit $? $(grep -c ^VIOLATION /tmp/plant-$p.log) violations"; done
