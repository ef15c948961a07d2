#!/usr/bin/env python3
# Regenerates MANIFEST.json from properties.jsonl and the suites that exist.
import json, os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
tech={}; exec(open(V+'/tools/techniques.py').read())
checks=[];na=[]
NA={'C30':'Model checking applies (histories of field accesses on generated native modules against a C-side model), but no check was built in the time available.'}
for p in props:
    i=p['id']
    if os.path.exists(f'{V}/suites/{i}.mjs') and i in tech:
        t,l,n=tech[i]
        checks.append({'property':i,'quick_cmd':f'node run.mjs {i} quick','thorough_cmd':f'node run.mjs {i} thorough','evidence_file':f'evidence/{i}.json','technique':t,'level':l,'level_note':n})
    else: na.append({'property':i,'reason':NA.get(i,'no check built yet')})
json.dump({'version':1,'setup_cmd':'bash lib/setup.sh','checks':checks,'not_applicable':na,'notes':'Real code under exhaustive bounded exploration; no hooks in /repo are needed.'},open(V+'/MANIFEST.json','w'),indent=1)
open(V+'/MANIFEST.json','a').write('\n')
print(len(checks),'checks',len(na),'not claimed')
