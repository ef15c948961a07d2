// node tools/triage.mjs FILE [MAX]: cluster dumped mismatches
import fs from 'node:fs';
const ms = fs.readFileSync(process.argv[2] || '/tmp/m.jsonl', 'utf8').split('\n').filter(Boolean).map(l => JSON.parse(l));
const g = new Map();
for (const m of ms) {
  const d = (w, o) => { let i = 0; while (i < w.length && w[i] === o[i]) i++; i = Math.max(0, w.lastIndexOf(';', i - 1) + 1); return w.slice(i, i + 40); };
  const w = d(m.want, m.got), o = d(m.got, m.want);
  const n = s => s.replace(/-?\d+(\.\d+)?(e[+-]\d+)?/g, '#').slice(0, 24);
  const k = (m.alone !== 'yes' ? m.alone + ' ' : '') + (m.cls || '') + ' ' + n(w) + ' => ' + n(o);
  if (!g.has(k)) g.set(k, []); g.get(k).push(m);
}
const W = +(process.env.W || 160);
for (const [k, l] of [...g].sort((a, b) => b[1].length - a[1].length).slice(0, +(process.argv[3] || 30))) {
  console.log(`## ${l.length} ${k}`);
  l.sort((a, b) => (a.src || '').length - (b.src || '').length);
  for (const m of l.filter((_, i) => i === 0 || (process.env.TWO && i === (l.length >> 1)))) { const w = m.want, o = m.got; let i = 0; while (i < w.length && w[i] === o[i]) i++; i = Math.max(0, i - 20); console.log('   ' + (m.src || JSON.stringify(m.parts)).replace(/\n/g, '\\n').slice(0, W) + '\n      want ' + w.slice(i, i + 90) + '\n      got  ' + o.slice(i, i + 90)); }
}
