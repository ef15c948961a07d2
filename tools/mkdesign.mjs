// Writes the generated part of DESIGN.md: one section per property.
import fs from 'fs'
const R='/verif/'
const props=fs.readFileSync(R+'properties.jsonl','utf8').trim().split('\n').map(l=>JSON.parse(l))
const d=JSON.parse(fs.readFileSync(R+'tools/design.json','utf8'))
const man=JSON.parse(fs.readFileSync(R+'MANIFEST.json','utf8'))
const kf=fs.readFileSync(R+'known-findings.json','utf8')
const seeds=fs.existsSync(R+'seeded')?fs.readdirSync(R+'seeded').sort():[]
const caught=fs.existsSync(R+'tools/caught.json')?JSON.parse(fs.readFileSync(R+'tools/caught.json','utf8')):{}
let o='## Properties\n\n`bounds` are those of the quick and the thorough command; costs are 8 cores, this machine. What a run really covered is in its evidence file.\n\n'
for(const p of props){
  const c=(man.checks||[]).find(c=>c.property_id===p.id||c.property===p.id||c.id===p.id)
  const x=d[p.id]
  o+=`### ${p.id} ${p.title}\n\n`
  if(!x){const n=(man.not_applicable||[]).find(n=>(n.property_id||n.property||n.id)===p.id);o+=`Not claimed: ${n?n.reason:'see MANIFEST.json'}\n\n`;continue}
  let b=x.bounds
  if(!b){try{const m=await import(R+'suites/'+p.id+'.mjs');b=m.default&&m.default.bounds}catch{}}
  o+=`* Enumerated: ${x.enum}\n* Oracle: ${x.oracle}\n`
  if(x.excl)o+=`* Left out: ${x.excl}\n`
  if(x.limits)o+=`* Limits: ${x.limits}\n`
  if(b)o+=`* Bounds: quick: ${b.quick}. Thorough: ${b.thorough}.\n`
  try{const e=JSON.parse(fs.readFileSync(R+'evidence/'+p.id+'.json','utf8'));o+=`* Cost: the last ${e.tier} run took ${Math.round(e.wall_s)} s for ${e.coverage.evaluations} executions.\n`}catch{}
  const s=seeds.filter(s=>{try{return JSON.parse(fs.readFileSync(R+'seeded/'+s+'/meta.json','utf8')).property===p.id}catch{return false}})
  if(s.length)o+=`* Planted: ${s.map(s=>s+(caught[s]?' ('+caught[s]+')':'')).join('; ')}\n`
  o+='\n'
}
const f=R+'DESIGN.md',t=fs.readFileSync(f,'utf8').replace(/\n*## Properties[\s\S]*$/,'')
fs.writeFileSync(f,t.trimEnd()+'\n\n'+o.trimEnd()+'\n')
