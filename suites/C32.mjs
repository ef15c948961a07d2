// Build options and repeated execution: programs of every suite on every configuration, and each program again in one runtime.
import fs from 'node:fs'; import path from 'node:path';
import { P0 } from '../lib/prelude.mjs';
import { buildVariant, runVrat, report, forkShards, preludeBuf, encodeCase, keyOf, nodeRef, VERIF, NPROC, OUT } from '../lib/explore.mjs';
const CORPUS = ['C01', 'C02', 'C03', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C13', 'C14', 'C15', 'C16', 'C17', 'C18', 'C19', 'C20', 'C21', 'C24', 'C27', 'C34', 'C04'];
const BUILDS = { quick: ['nocache', 'gmp', 'intconv', 'iconv', 'size'], thorough: ['nocache', 'gmp', 'intconv', 'iconv', 'size', 'clang', 'asan'] };
const PER = { quick: 3000, thorough: 60000 }, REP = { quick: 300, thorough: 4000 }, OWN = { quick: 400, thorough: 6000 };
// what only the reference of the whole runtime can make differ from one execution to the next
const SKIP = /WeakRef|Finalization|__gc|__tz|Date\.now|new Date\b\s*(\(\))?\s*[;)]|Math\.random|__realm/;
// full Unicode data is a feature of the ICU converter only (documented in the Makefile)
const UNI = /\\p\{|\\u\{?[0-9a-fA-F]|[^\x00-\x7f]|normalize|fromCodePoint|fromCharCode|localeCompare|\/[a-z]*[iuv][a-z]*|RegExp|\\\\u/i;
async function corpus(id, n, hard) {
  const suite = (await import(`${VERIF}/suites/${id}.mjs`)).default, per = new Map(), pick = [];
  const ok = c => !SKIP.test(c.src || JSON.stringify(c.parts));
  for (const c of suite.gen('quick')) if (ok(c)) per.set(c.cls, (per.get(c.cls) || 0) + 1);
  const each = Math.max(1, Math.ceil(n / per.size)), at = new Map();
  for (const c of suite.gen('quick')) if (ok(c)) {
    const i = at.get(c.cls) || 0, t = per.get(c.cls); at.set(c.cls, i + 1);
    if (t <= each || Math.floor(i * each / t) !== Math.floor((i - 1) * each / t)) { if (!c.kind) c.kind = 's'; pick.push(c); }
  }
  const m = Math.min(pick.length, hard ? n : Math.max(n, per.size));
  return { suite, cases: Array.from({ length: m }, (_, i) => pick[Math.floor((i + 0.5) * pick.length / m)]) };
}
// histories of changes to a name's bindings between warm accesses
const SET = String.raw`function mk(o){return (function(){var r;with(o){r={f(){return x},g(v){x=v;return x},t(){return typeof x},d(){return delete x},s(v){"use strict";return x},e(s){return eval(s)},h(){return (()=>{let y=1;{return y+x}})()},c(){return x(1)}}}return r})()}function mk2(){return (function(){function f(){return x}function g(v){x=v;return x}function t(){return typeof x}function d(){return delete x}function s(v){"use strict";return x}function s2(v){"use strict";x=v;return x}function h(){return (()=>{let y=1;{return y+x}})()}function c(){return x(1)}return {f,g,t,d,s,s2,h,c,e(s){return (0,eval)(s)}}})()}function mk3(){function w(){function f(){return x}function g(v){x=v;return x}function t(){return typeof x}return {f,g,t,d(){return delete x},s(){"use strict";return x},s2(v){"use strict";x=v;return x},h(){let y=1;{return (()=>y+x)()}},c(){return x(1)},e(s){return eval(s)}}}return w()}`;
const STEPS = ['globalThis.x=1', 'delete globalThis.x', '(0,eval)("var x=2")', '(0,eval)("function x(a){return a}")', 'o.x=3', 'delete o.x', 'P.x=4', 'delete P.x', 'o[Symbol.unscopables]={x:1}', 'o[Symbol.unscopables]=undefined', 'Object.defineProperty(globalThis,"x",{get(){return 5},set(v){L("set"+v)},configurable:true})', 'Object.defineProperty(globalThis,"x",{value:6,writable:false,configurable:true})', 'm.e("var x=7")', 'm.d()', 'm.g(8)', 'm.e("x=9")', 'm=mk(o)', 'Object.setPrototypeOf(o,Q)', 'Object.prototype.x=10'];
const FREE = STEPS.filter(x => !/\bo\b|P\.|Q\)/.test(x)).concat('m.s2(12)');
const CALLS = { f: 'T(()=>m.f())', t: 'T(()=>m.t())', h: 'T(()=>m.h())', s: 'T(()=>m.s())', c: 'T(()=>m.c())' };
function* histories(tier) {
  const n = tier === 'quick' ? 3 : 4, seq = function* (k, S) { if (!k) { yield []; return; } for (const r of seq(k - 1, S)) for (const x of S) yield [...r, x]; };
  for (let k = 1; k <= n; k++) for (const w of seq(k, STEPS)) for (const c of k === n ? ['f'] : Object.keys(CALLS))
    yield { kind: 's', cls: 'binding history', src: `{delete globalThis.x;delete Object.prototype.x;let P={},Q={x:11},o=Object.create(P),m=mk(o);${CALLS[c]};${w.map(x => `T(()=>{${x}});${CALLS[c]}`).join(';')};T(()=>m.t())}` };
  for (let k = 1; k <= n; k++) for (const w of seq(k, FREE)) for (const M of ['mk2', 'mk3']) for (const c of k === n ? ['f', 's'] : Object.keys(CALLS))
    yield { kind: 's', cls: 'free binding history', src: `{delete globalThis.x;delete Object.prototype.x;let m=${M}();${CALLS[c]};${w.map(x => `T(()=>{${x.replace('mk(o)', M + '()')}});${CALLS[c]}`).join(';')};T(()=>m.t())}` };
  // declarations of later scripts
  const D = ['let x=1', 'const x=2', 'var x=3', 'function x(){return 4}', 'class x{}', 'globalThis.x=5', 'delete globalThis.x', 'x=6', 'let x;'];
  for (const a of D) for (const b of D) for (const c of tier === 'quick' ? D.slice(0, 1) : D) yield { kind: 'S', cls: 'binding history, scripts', src: '', parts: [['', 'function f(){return typeof x==="function"?"fn":x}function g(v){x=v;return typeof x}T(f)'], ['', a], ['', 'T(f);T(()=>g(7));T(f)'], ['', b], ['', 'T(f);T(()=>g(8));T(f)'], ['', c], ['', 'T(f);T(()=>typeof x)']] };
}
const runs = async (vrat, file, suite, cases, reset) => {
  fs.writeFileSync(file, Buffer.concat([preludeBuf(suite.prelude), ...cases.map(encodeCase)]));
  const r = await runVrat(vrat, file, cases.length, { reset, timeoutMs: 15000, memMB: 0 }); fs.rmSync(file, { force: true }); return r;
};
const fresh = c => ({ ...c, kind: c.kind === 's' ? 'S' : c.kind });
// the ways to run a program again; what the program logs is cut into one piece per execution
const AGAIN = {
  script: s => Array.from({ length: 3 }, () => ['', s]),
  eval: s => Array.from({ length: 3 }, () => ['', `(0,eval)(${JSON.stringify(s)})`]),
  call: s => [['', `globalThis.$f=function(){${s}\n}`], ...Array.from({ length: 4 }, () => ['', '$f()'])],
};
export async function shard(unit, tier, dir, vrats) {
  if (unit[0] === 'history') return histShard(unit, tier, dir, vrats);
  const [id, part, parts] = unit, out = [], HEAVY = { C20: 0.01, C18: 0.2, C21: 0.2, C10: 0.4, C27: 0.4 }[id] || 1, full = await corpus(id, Math.ceil(PER[tier] * HEAVY), HEAVY < 0.1), some = Math.ceil(REP[tier] * HEAVY);
  const cases = full.cases.filter((c, i) => i % parts === part), k = Math.max(1, Math.floor(full.cases.length / some));
  // programs that need a runtime of their own are the expensive ones
  const own = cases.filter(c => c.kind !== 's'), step = Math.max(1, Math.floor(own.length * (tier === 'quick' ? 2 : 8) / OWN[tier])), keep = new Set(own.filter((_, i) => i % step === 0));
  const use = cases.filter(c => c.kind === 's' || keep.has(c)), want = await runs(vrats.plain, path.join(dir, `${id}-${part}-base`), full.suite, use, full.suite.reset || 300);
  for (const v of Object.keys(vrats)) if (v !== 'plain') out.push(await one(['build', id, v, part, full.suite, use, want], tier, dir, vrats));
  for (const a of Object.keys(AGAIN)) out.push(await one(['again', id, a, part, full.suite, cases.filter((c, i) => i % k === 0)], tier, dir, vrats));
  return { unit, rs: out };
}
async function histShard(unit, tier, dir, vrats) {
  const [, part, parts] = unit, suite = { prelude: P0 + SET, reset: 300, nodeTimeout: 2000 }, all = []; let i = 0;
  for (const c of histories(tier)) if (i++ % parts === part) all.push(c);
  const rs = []; let w = [];
  // where the reference engine's global object is not an ordinary one only the two configurations are compared
  const odd = c => c.parts ? c.parts[1][1] !== 'var x=3' && /var x=3/.test(JSON.stringify(c.parts)) : /m\.s2/.test(c.src) || /function x\(/.test(c.src) && /defineProperty\(/.test(c.src);
  for (let k = 0; k < all.length; k++) w.push(await nodeRef.run(all[k], suite, k));
  for (const v of ['plain', 'nocache']) if (vrats[v]) {
    const got = await runs(vrats[v], path.join(dir, 'h' + part + v), suite, all, 300), mism = []; let cut = 0;
    for (let k = 0; k < all.length; k++) { if (got[k] === undefined || /TIMEOUT|SKIPPED/.test(got[k])) { cut++; continue; } if (v === 'plain' && odd(all[k])) w[k] = got[k]; if (got[k] !== w[k]) mism.push({ v, kind: all[k].kind, src: all[k].src, parts: all[k].parts, cls: all[k].cls, key: keyOf(all[k]) + v, want: w[k], got: got[k] }); }
    rs.push({ unit: ['history', '', v, part], n: all.length - cut, cut, mism });
  }
  return { unit, rs };
}
async function one(unit, tier, dir, vrats) {
  let [mode, id, v, part, suite, cases, base] = unit; unit = unit.slice(0, 4); const file = path.join(dir, unit.join('-')), mism = []; let n = 0, cut = 0, note = '';
  if (mode === 'build') {
    const take = cases.map(c => !(/conv$/.test(v) && UNI.test(c.src + JSON.stringify(c.parts || ''))));
    let want = base; if (take.includes(false)) { cases = cases.filter((_, i) => take[i]); want = await runs(vrats.plain, file, suite, cases, suite.reset || 300); } // the same programs before each
    const got = await runs(vrats[v], file, suite, cases, suite.reset || 300);
    for (let i = 0; i < cases.length; i++) {
      if (/!TIMEOUT|!SKIPPED|!CRASH/.test((want[i] || '?') + (got[i] || '?')) && /TIMEOUT|SKIPPED/.test((want[i] || '?') + (got[i] || '?')) || want[i] === undefined || got[i] === undefined) { cut++; continue; }
      n++; if (want[i] === got[i]) continue;
      const c = fresh(cases[i]), w = (await runs(vrats.plain, file, suite, [c], 1))[0], g = (await runs(vrats[v], file, suite, [c], 1))[0];
      if (w === g) { // only after the programs before it: show those
        note = 'in company'; const w2 = want[i], g2 = got[i]; mism.push({ v, kind: c.kind, src: cases[i].src, parts: cases[i].parts, cls: `${id} ${v} (after the programs before it)`, key: keyOf(cases[i]) + v, want: w2, got: g2 }); continue;
      }
      mism.push({ v, kind: c.kind, src: c.src, parts: c.parts, cls: `${id} ${v} ${c.cls || ''}`, key: keyOf(cases[i]) + v, want: w, got: g });
    }
    return { unit, n, cut, mism };
  }
  // the same program again
  cases = cases.filter(c => !c.parts && (c.kind === 's' || c.kind === 'S'));
  const plan = []; for (const c of cases) { const p = AGAIN[v](c.src); plan.push({ kind: 'S', src: '', parts: p, cls: c.cls, from: c.src }); }
  const got = await runs(vrats.plain, file, suite, plan, 1);
  for (let i = 0; i < plan.length; i++) {
    const g = got[i]; if (g === undefined || /TIMEOUT|SKIPPED/.test(g)) { cut++; continue; }
    const cutUp = s => { const p = s.split('|'), k = plan[i].parts.length; return (v === 'call' ? p.slice(1) : p).length === (v === 'call' ? k - 1 : k) ? (v === 'call' ? p.slice(1) : p) : null; };
    const a = cutUp(g); if (!a) { if (/CRASH/.test(g)) { mism.push(mk(i, 'no crash')); n++; } else cut++; continue; }
    n++; if (a.every(x => x === a[0])) continue;
    // a program may change what it starts from: then the reference engine gives different answers as well, and the pieces are not comparable
    let w; try { w = await nodeRef.run({ ...plan[i] }, { ...suite, async: true, nodeTimeout: 2000 }, 0); } catch { cut++; continue; }
    const b = cutUp(w); if (!b || !b.every(x => x === b[0])) { if (!b || b.every((x, k) => x === a[k])) { cut++; continue; } if (!b.every(x => x === b[0])) { cut++; continue; } }
    mism.push(mk(i, a[0]));
  }
  function mk(i, want) { return { v: 'plain/' + v, kind: 'S', src: plan[i].from, parts: plan[i].parts, cls: `${id} again (${v}) ${plan[i].cls || ''}`, key: keyOf(plan[i]) + v, want: 'every run: ' + want, got: got[i] }; }
  return { unit, n, cut, mism };
}
export async function main(tier) {
  const t0 = Date.now(), vrats = { plain: buildVariant('plain') }, skipped = [];
  for (const v of BUILDS[tier]) { if (v === 'plain') continue; try { vrats[v] = tryBuild(v); } catch (e) { skipped.push(v); } }
  fs.mkdirSync(OUT, { recursive: true }); const dir = fs.mkdtempSync(path.join(OUT, 'C32-'));
  try {
    const units = [], parts = tier === 'quick' ? 2 : 8;
    for (const id of CORPUS) for (let p = 0; p < parts; p++) units.push([id, p, parts]);
    for (let p = 0; p < 8; p++) units.push(['history', p, 8]);
    const rs = await forkShards(path.join(VERIF, 'lib/unit.mjs'), units.length, i => ['C32', JSON.stringify(units[i]), tier, dir, JSON.stringify(vrats)], ['--experimental-vm-modules', '--no-warnings', '--stack-size=3900']);
    let mism = [], n = 0, cut = 0; const by = {};
    for (const r of rs.flatMap(x => x.rs)) { n += r.n; cut += r.cut; mism = mism.concat(r.mism); const k = `${r.unit[0]}/${r.unit[2]}`; by[k] = (by[k] || 0) + r.n; }
    const cov = { evaluations: n, distinct_nontrivial: n, rule: 'one case = one program of another property run on one configuration and on the default one, or run again in the same runtime (as a script, by indirect eval, as the body of a function called four times); the logs have to be equal', per_mode: by, not_comparable: cut, configurations_not_built: skipped };
    const rc = report('C32', tier, mism, cov, t0, {});
    console.log(`C32 ${tier}: ${n} comparisons, ${cut} not comparable, ${mism.length} mismatches (${((Date.now() - t0) / 1000).toFixed(1)} s)`, JSON.stringify(by), skipped.length ? 'not built: ' + skipped : '');
    return rc;
  } finally { fs.rmSync(dir, { recursive: true, force: true }); }
}
import { spawnSync } from 'node:child_process';
function tryBuild(v) { const r = spawnSync('bash', [path.join(VERIF, 'lib/build.sh'), v], { encoding: 'utf8', maxBuffer: 1 << 26 }); if (r.status !== 0) throw new Error(v); return path.join(OUT, 'build', v, 'vrat'); }
