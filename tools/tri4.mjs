// tri4 file [n] : shortest mismatches per direction with token-set diversity
import fs from 'fs';
const ms=fs.readFileSync(process.argv[2],'utf8').trim().split('\n').map(JSON.parse); const n=+process.argv[3]||40; const re=process.argv[4]&&new RegExp(process.argv[4]);
for(const dir of ['!CRASH','!TIMEOUT','ok','E']){ const l=ms.filter(m=>m.got.startsWith(dir)&&(!re||re.test(m.src))).sort((a,b)=>a.src.length-b.src.length); console.log('## got',dir,l.length);
 const seen=new Map(); let k=0; for(const m of l){ const sig=(m.src.match(/[A-Za-z#]\w*|[^\w\s]/g)||[]).sort().slice(0,40); let dup=false; for(const s of seen.values()) { if(s.every(x=>m.src.includes(x))){dup=true;break;} } if(dup)continue; seen.set(m.src,sig.filter((x,i)=>sig.indexOf(x)===i)); console.log((m.kind=='P'?'M ':'  ')+JSON.stringify(m.src).slice(0,110)+(m.alone!='yes'?' ['+m.alone+']':'')); if(++k>=n)break; } }
