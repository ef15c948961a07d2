#!/usr/bin/env python3
# tools/finding.py PROP ID WHAT [REGEX]   list the mismatches of /tmp/x-PROP.jsonl (source matching REGEX) as one known finding
import sys,json,re,hashlib
prop,fid,what=sys.argv[1:4]; rx=re.compile(sys.argv[4],re.S) if len(sys.argv)>4 else None
F='/verif/known-findings.json'; k=json.load(open(F)); cases=[]; ex=None
for l in open(f'/tmp/x-{prop}.jsonl'):
    if not l.strip(): continue
    m=json.loads(l); s=m.get('src') or json.dumps(m.get('parts'))
    if rx and not rx.search(s): continue
    cases.append(m['key']+':'+hashlib.sha1(str(m['got']).encode('utf-8','surrogatepass')).hexdigest()[:12]); ex=ex or (s,m['want'],m['got'])
old=[f for f in k['findings'] if f['property']==prop and f['id']==fid]
if old: old[0]['cases']=sorted(set(old[0]['cases'])|set(cases)); old[0]['what']=what
else: k['findings'].append({'property':prop,'id':fid,'what':what,'example':{'source':ex[0][:600],'required':ex[1][:300],'actual':str(ex[2])[:300]},'cases':sorted(set(cases))})
json.dump(k,open(F,'w'),indent=1); open(F,'a').write('\n'); print(len(cases),'cases')
