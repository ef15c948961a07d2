// Bounded-exhaustive exploration of the real interpreter against a reference.
//
// A suite enumerates a finite, stated space of cases. Every case is executed on the real code (vrat, linked
// with libratjs built from /repo's working tree) and on the reference; the two observation logs must be equal.
// The space is split over worker processes by case number; nothing is sampled.
import { fork, spawnSync, spawn } from 'node:child_process';
import fs from 'node:fs';
import path from 'node:path';
import os from 'node:os';
import vm from 'node:vm';
import crypto from 'node:crypto';
import { fileURLToPath } from 'node:url';

export const VERIF = path.resolve(path.dirname(fileURLToPath(import.meta.url)), '..');
export const NPROC = Math.max(1, Math.min(8, os.cpus().length));
export const OUT = path.join(VERIF, 'out');

export function buildVariant(v) {
  const r = spawnSync('bash', [path.join(VERIF, 'lib/build.sh'), v], { encoding: 'utf8', maxBuffer: 1 << 26 });
  if (r.status !== 0) { console.log(r.stdout + r.stderr); console.log('build of variant ' + v + ' failed'); process.exit(2); }
  return path.join(OUT, 'build', v, 'vrat');
}

export const keyOf = c => crypto.createHash('sha1').update(c.kind + '\0' + (c.parts ? JSON.stringify(c.parts) : c.src)).digest('hex').slice(0, 16);

export function encodeCase(c) {
  const parts = c.parts || [['', c.src]];
  const bufs = [Buffer.from(`${c.kind} ${parts.length}\n`)];
  for (const [n, d] of parts) {
    const nb = Buffer.from(n), db = Buffer.isBuffer(d) ? d : Buffer.from(d);
    bufs.push(Buffer.from(`${nb.length} ${db.length}\n`), nb, db, Buffer.from('\n'));
  }
  return Buffer.concat(bufs);
}
export const preludeBuf = s => { if (!s) return Buffer.alloc(0); const b = Buffer.from(s); return Buffer.concat([Buffer.from(`prelude ${b.length}\n`), b, Buffer.from('\n')]); };

export function esc(s) {
  let o = '';
  for (let i = 0; i < s.length; i++) {
    const c = s.charCodeAt(i);
    o += c === 92 ? '\\\\' : c >= 32 && c < 127 ? s[i] : '\\u' + c.toString(16).padStart(4, '0');
  }
  return o;
}

// ---- the node reference ------------------------------------------------------------------------------
let nodeBuf = '';
const LOGLIMIT = 1 << 20;
function mkContext(prelude) {
  const ctx = vm.createContext(Object.create(null));
  const g = vm.runInContext('globalThis', ctx);
  const install = (g, ctx) => {
    const def = (n, f) => Object.defineProperty(g, n, { value: f, writable: true, enumerable: true, configurable: true });
    def('__log', (...a) => { if (nodeBuf.length > LOGLIMIT) return; const t = a.map(x => esc(String(x))).join(' ') + ';'; nodeBuf += t; });
    def('__tz', s => { process.env.TZ = s; });
    def('__gc', () => {}); def('__jobs', () => {});
    def('__detach', b => { if (b instanceof vm.runInContext('ArrayBuffer', ctx) || Object.prototype.toString.call(b) === '[object ArrayBuffer]') structuredClone(b, { transfer: [b] }); });
    def('__realm', () => { const c2 = vm.createContext(Object.create(null)); const g2 = vm.runInContext('globalThis', c2); install(g2, c2); return g2; });
  };
  install(g, ctx);
  if (prelude) vm.runInContext(prelude, ctx);
  return ctx;
}
const errName = e => {
  if (e !== null && (typeof e === 'object' || typeof e === 'function')) { const n = e.name; return typeof n === 'string' ? esc(n) : 'object'; }
  if (typeof e === 'symbol') return 'symbol';
  return esc(String(e));
};
export const nodeRef = {
  ctx: null, kind: '',
  async run(c, suite, i = 0) {
    nodeBuf = '';
    // node aborts while decorating an error that spans lines, so those texts go to V8 through the inspector
    if (c.kind === 'p' && /[\n\r\u2028\u2029]/.test(c.src)) { if (!this.insp) { this.insp = new (await import('node:inspector')).Session(); this.insp.connect(); this.insp.post('Runtime.enable'); } let r; this.insp.post('Runtime.compileScript', { expression: c.src, sourceURL: '', persistScript: false }, (e, x) => { r = x; }); return r && !r.exceptionDetails ? 'ok' : 'E'; }
    const mk = c.src && !c.src.startsWith('#!') ? '/*node-do-not-add-exception-line*/' : '';
    if (c.kind === 'p') { try { new vm.Script(mk + c.src); return 'ok'; } catch (e) { return 'E'; } }
    if (c.kind === 'P') { try { new vm.SourceTextModule(mk + c.src, { context: this.mctx ||= vm.createContext() }); return 'ok'; } catch (e) { return 'E'; } }
    if (c.kind === 'm') return runModules(c, suite);
    // the same points of renewal as in vrat: every suite.reset cases, and around a case that wants its own realm
    if (!this.ctx || c.kind === 'S' || this.kind === 'S' || (suite.reset && i % suite.reset === 0)) { if (this.ctx) await new Promise(r => setImmediate(r)); this.ctx = mkContext(suite.prelude); }
    this.kind = c.kind;
    const parts = c.parts ? c.parts.map(p => p[1]) : [c.ref || c.src]; // ref: the same behaviour spelled out, where the reference engine is known to be wrong
    for (let k = 0; k < parts.length; k++) {
      let sc;
      if (k) nodeBuf += '|';
      try { sc = new vm.Script(parts[k]); } catch (e) { nodeBuf += '!SyntaxError;'; continue; }
      try { sc.runInContext(this.ctx, suite.nodeTimeout ? { timeout: suite.nodeTimeout } : undefined); } catch (e) { nodeBuf += '!throw ' + errName(e) + ';'; }
      if (suite.async) await new Promise(r => setImmediate(r));
    }
    return nodeBuf;
  }
};
async function runModules(c, suite) {
  const ctx = mkContext(suite.prelude);
  const cache = new Map(); const parts = new Map(c.parts), evalP = new Map(), failed = new Map();
  const norm = s => s.startsWith('./') ? s.slice(2) : s;
  // a module that cannot be found: ReferenceError for a static request, TypeError for a dynamic one
  const load = (name, E) => {
    if (cache.has(name)) return cache.get(name);
    if (failed.has(name)) throw failed.get(name);
    if (!parts.has(name)) throw new (vm.runInContext(E, ctx))('no module ' + name);
    let m;
    try {
      if (name.endsWith('.json')) {
        const val = vm.runInContext('JSON.parse', ctx)(parts.get(name));
        m = new vm.SyntheticModule(['default'], function () { this.setExport('default', val); }, { context: ctx, identifier: name });
      } else m = new vm.SourceTextModule(parts.get(name), { context: ctx, identifier: name, importModuleDynamically: dyn });
    } catch (e) { failed.set(name, e); throw e; }
    cache.set(name, m);
    return m;
  };
  // parse the whole graph first, as the loading phase does, depth first
  const loadAll = (m, seen) => { if (seen.has(m)) return; seen.add(m); for (const s of m.dependencySpecifiers || []) loadAll(load(norm(s), 'ReferenceError'), seen); };
  const evaluate = m => { if (!evalP.has(m)) { let r; evalP.set(m, new Promise(q => { r = q; })); const p = m.evaluate(); evalP.set(m, p); r(p); } return evalP.get(m); };
  const dyn = async spec => { const d = load(norm(spec), 'TypeError'); loadAll(d, new Set()); if (d.status === 'unlinked') await d.link(s => load(norm(s), 'ReferenceError')); await evaluate(d); return d; };
  let m;
  try { m = load(c.parts[0][0], 'ReferenceError'); } catch (e) { return nodeBuf + '!parse ' + errName(e) + ';'; }
  try { loadAll(m, new Set()); await m.link(s => load(norm(s), 'ReferenceError')); } catch (e) { return nodeBuf + '!link ' + errName(e) + ';'; }
  let done = false, p;
  try { p = evaluate(m); } catch (e) { return nodeBuf + '!eval ' + errName(e) + ';'; }
  p.then(() => { done = true; }, e => { nodeBuf += '!reject ' + errName(e) + ';'; done = true; });
  for (let i = 0; i < 3; i++) await new Promise(r => setImmediate(r));
  if (!done) nodeBuf += '!pending;';
  return nodeBuf;
}

// ---- running cases on the real code ------------------------------------------------------------------
// Runs the cases of one file; survives crashes and hangs: the case that was running gets that as its outcome.
let outSeq = 0;
export async function runVrat(vrat, file, n, { reset = 0, timeoutMs = 3000, env = {}, memMB = 3000, start = 0, count = -1 } = {}) {
  const out = file + '.out' + (outSeq++); const res = new Array(n);
  let from = start; const upto = count < 0 ? n : start + count; let restarts = 0, timeouts = 0;
  while (from < upto) {
    fs.writeFileSync(out, '');
    const lim = memMB ? `ulimit -v ${memMB * 1024}; ` : '';
    const args = [file, out, String(from), String(reset)]; args.push(String(upto - from));
    const sig = await new Promise(resolve => {
      const p = spawn('bash', ['-c', `${lim}exec "$0" "$@" 2>/dev/null`, vrat, ...args],
        { stdio: ['ignore', 'ignore', 'ignore'], env: { ...process.env, VRAT_TIMEOUT_MS: String(timeoutMs), TZ: 'UTC', LANG: 'C.UTF-8', ASAN_OPTIONS: 'detect_leaks=0:abort_on_error=1:allocator_may_return_null=1', ...env } });
      p.on('exit', (code, s) => resolve(s ? s : code === 0 ? 0 : 'exit' + code));
    });
    const b = fs.readFileSync(out); let o = 0, last = from - 1;
    while (o < b.length) {
      const e = b.indexOf(10, o); if (e < 0) break;
      const [id, len] = b.toString('latin1', o, e).split(' ').map(Number);
      if (e + 1 + len > b.length) break;
      res[id] = b.toString('latin1', e + 1, e + 1 + len); last = id; o = e + 1 + len + 1;
    }
    if (last + 1 < upto) {
      res[last + 1] = sig === 'SIGALRM' ? '!TIMEOUT' : '!CRASH ' + (typeof sig === 'string' && sig.startsWith('SIG') ? sig : 'exit');
      restarts++; if (sig === 'SIGALRM') timeouts++;
      if (restarts > 400 || timeouts > 15) { for (let i = last + 2; i < upto; i++) if (res[i] === undefined) res[i] = '!SKIPPED'; break; }
    } else if (sig && last + 1 >= upto) { res.exitSignal = sig; }
    from = last + 2;
    // resetting groups: start again at the case after, in a fresh runtime
  }
  fs.rmSync(out, { force: true });
  return res;
}

// What ECMAScript leaves to the implementation, made equal on both sides.
export const norm = s => s === undefined ? '?' : s.replace(/ \(Coordinated Universal Time\)/g, '').replace(/function [\w. \[\]@]*\([\w, ]*\) ?\{ ?\[native code\] ?\}/g, 'NATIVE').replace(/\b(async )?(function\*? )?(get |set )?NATIVE/g, 'NATIVE');
export const same = (suite, c, g, w) => norm(g) === norm(w) || !!(suite.same && suite.same(c, g, w)) || !!(suite.norm && suite.norm(norm(g)) === suite.norm(norm(w)));
const BLOCK = 24000;
// A shard takes every nshard-th case and works through them block by block.
async function runShard(suite, shard, nshard, tier, vrats, dir) {
  const tot = { n: 0, nontriv: 0, outcomes: new Set(), samples: [], mism: [], budget: suite.confirmMax || 1500, spent: 0 };
  let idx = 0, cases = [];
  for (const c of suite.gen(tier)) {
    if (idx++ % nshard !== shard) continue;
    if (!c.kind) c.kind = 's';
    cases.push(c);
    if (cases.length === BLOCK) { await runBlock(suite, shard, cases, vrats, dir, tot); cases = []; }
  }
  if (cases.length) await runBlock(suite, shard, cases, vrats, dir, tot);
  return { ...tot, outcomes: [...tot.outcomes] };
}
async function runBlock(suite, shard, cases, vrats, dir, tot) {
  const want = [];
  const chunks = [preludeBuf(suite.prelude)];
  for (const c of cases) chunks.push(encodeCase(c));
  const file = path.join(dir, `cases-${shard}`);
  fs.writeFileSync(file, Buffer.concat(chunks)); chunks.length = 0;
  nodeRef.ctx = null;
  const got = {};
  const runs = Object.entries(vrats).map(async ([v, bin]) => { got[v] = await runVrat(bin, file, cases.length, { reset: suite.reset || 0, timeoutMs: suite.timeoutMs, memMB: v === 'asan' ? 0 : 3000 }); });
  const ref = suite.ref || nodeRef;
  const oracle = (async () => { let i = 0; for (const c of cases) { want.push(c.want !== undefined ? c.want : await ref.run(c, suite, i)); i++; } })();
  await Promise.all([...runs, oracle]);
  const mism = [];
  for (let i = 0; i < cases.length; i++) {
    const w = want[i]; tot.outcomes.add(crypto.createHash('sha1').update(w).digest('base64').slice(0, 12));
    if (!suite.trivial || !suite.trivial(cases[i], w)) tot.nontriv++;
    for (const v of Object.keys(vrats)) {
      const g = got[v][i];
      if (g !== w && !same(suite, cases[i], g, w)) mism.push({ v, i, c: cases[i], want: w, got: g });
    }
    if (tot.samples.length < 2 && w.length > 8) tot.samples.push({ case: (cases[i].src || JSON.stringify(cases[i].parts)).slice(0, 400), observed: w.slice(0, 300) });
  }
  tot.n += cases.length;
  // confirm each mismatch alone, in a new process; a timeout gets a long limit
  const opt = v => ({ timeoutMs: 10000, memMB: v === 'asan' ? 0 : 3000 });
  const strip = c => ({ kind: c.kind, parts: c.parts, src: c.src });
  for (const m of mism) {
    const put = (got, alone, group) => tot.mism.push({ v: m.v, kind: m.c.kind, src: m.c.src, parts: m.c.parts, cls: m.c.cls, key: keyOf(m.c), want: m.want, got, alone, group });
    if (tot.budget-- <= 0 || tot.spent > 90000 || (m.got === '!SKIPPED')) { put(m.got, 'unconfirmed'); continue; }
    const t1 = Date.now();
    const f = path.join(dir, `one-${shard}`);
    fs.writeFileSync(f, Buffer.concat([preludeBuf(suite.prelude), encodeCase(m.c)]));
    const r = await runVrat(vrats[m.v], f, 1, { reset: 0, ...opt(m.v) });
    const bad = x => x !== m.want && !same(suite, m.c, x, m.want);
    if (bad(r[0])) put(r[0], 'yes');
    else {
      // depends on what ran before it: replay its group in the same runtime, then the whole block
      const g0 = suite.reset ? m.i - (m.i % suite.reset) : 0;
      const again = async (start) => (await runVrat(vrats[m.v], file, m.i + 1, { reset: suite.reset || 0, start, ...opt(m.v) }))[m.i];
      let x = await again(g0);
      if (bad(x)) put(x, 'group', cases.slice(g0, m.i + 1).map(strip));
      else if (g0 > 0 && bad(x = await again(0))) put(x, 'block', cases.slice(0, m.i + 1).map(strip));
      else put(m.got, 'no');
    }
    fs.rmSync(f, { force: true });
    tot.spent += Date.now() - t1;
  }
}

export function loadFindings(prop) {
  const f = path.join(VERIF, 'known-findings.json');
  if (!fs.existsSync(f)) return [];
  return JSON.parse(fs.readFileSync(f, 'utf8')).findings.filter(x => x.property === prop && x.status !== 'fixed');
}

const sha = s => crypto.createHash('sha1').update(s).digest('hex').slice(0, 12);
export const caseGot = m => m.key + ':' + sha(String(m.got));

// Classify mismatches against the known findings, print, write evidence. Returns the exit status.
export function report(prop, tier, mism, coverage, t0, extra = {}) {
  const findings = loadFindings(prop); const byKey = new Map();
  for (const f of findings) for (const k of f.cases) byKey.set(k, f);
  const hit = new Set(); const viol = []; let flaky = 0; const confirmed = mism.some(m => m.alone !== 'no' && m.alone !== 'unconfirmed');
  for (const m of mism) {
    // what was not run again counts only if something else was confirmed
    if (m.alone === 'no' || (m.alone === 'unconfirmed' && !confirmed)) { flaky++; if (process.env.DUMP_MISMATCH) console.log('unreproduced: ' + (m.src || JSON.stringify(m.parts)).slice(0, 200) + '\n  want ' + String(m.want).slice(0,200) + '\n  got  ' + String(m.got).slice(0,200)); continue; }
    const f = byKey.get(caseGot(m));
    if (f) { hit.add(f); continue; }
    viol.push(m);
  }
  for (const f of findings) console.log(`KNOWN-FINDING: property=${prop} ${f.id} ${f.what}` + (hit.has(f) ? '' : ' (not met in this tier)'));
  const rdir = path.join(OUT, 'replay'); fs.mkdirSync(rdir, { recursive: true });
  viol.sort((a, b) => ((a.src || JSON.stringify(a.parts) || '').length - (b.src || JSON.stringify(b.parts) || '').length));
  for (const m of viol.slice(0, 10)) {
    const p = path.join(rdir, `${prop}-${m.key}.json`);
    fs.writeFileSync(p, JSON.stringify(m, null, 1));
    console.log(`VIOLATION property=${prop} replay=${p}`);
    console.log('  case: ' + (m.src || JSON.stringify(m.parts)).slice(0, 300).replace(/\n/g, '\\n'));
    console.log('  want: ' + String(m.want).slice(0, 300)); console.log('  got:  ' + String(m.got).slice(0, 300));
  }
  if (viol.length > 10) console.log(`  ... and ${viol.length - 10} more`);
  if (process.env.DUMP_MISMATCH) fs.writeFileSync(process.env.DUMP_MISMATCH, viol.map(m => JSON.stringify(m)).join('\n') + '\n');
  writeEvidence(prop, tier, { ...coverage, unreproduced_mismatches: flaky, known_finding_cases: mism.length - viol.length - flaky }, t0, viol.length, extra);
  return viol.length ? 1 : 0;
}
export function writeEvidence(prop, tier, coverage, t0, violations, extra = {}) {
  fs.mkdirSync(path.join(VERIF, 'evidence'), { recursive: true });
  fs.writeFileSync(path.join(VERIF, 'evidence', prop + '.json'), JSON.stringify({ property: prop, tier, seed: Number(process.env.VERIF_SEED || 1), level: extra.level || 'exploration', coverage,
    assumptions: extra.assumptions || [], wall_s: (Date.now() - t0) / 1000, violations }, null, 1) + '\n');
}

// fork worker processes running `file` with args; collect their result message
export function forkShards(file, n, argsOf, execArgv = []) {
  const one = i => new Promise((res, rej) => {
    const p = fork(file, argsOf(i), { execArgv: ['--max-old-space-size=3000', '--no-warnings', ...execArgv], stdio: ['ignore', 'inherit', 'inherit', 'ipc'], env: { ...process.env, TZ: 'UTC' }, serialization: 'json' });
    let got; p.on('message', m => { got = m; }); p.on('exit', c => got !== undefined ? res(got) : rej(new Error('worker ' + i + ' ended with ' + c)));
  });
  const rs = []; let next = 0;
  const lane = async () => { while (next < n) { const i = next++; rs[i] = await one(i); } };
  return Promise.all(Array.from({ length: Math.min(n, NPROC) }, lane)).then(() => rs);
}

export async function exploreSuite(suite, tier) {
  const t0 = Date.now();
  const vrats = {}; for (const v of suite.variants || ['plain']) vrats[v] = buildVariant(v);
  const dir = fs.mkdtempSync(path.join(fs.mkdirSync(OUT, { recursive: true }) || OUT, suite.id + '-'));
  try {
    const SH = (suite.shards && suite.shards[tier]) || NPROC;
    const rs = await forkShards(path.join(VERIF, 'lib/worker.mjs'), SH, i => [suite.id, tier, String(i), String(SH), dir, JSON.stringify(vrats)], ['--experimental-vm-modules']);
    const outcomes = new Set(); let n = 0, nt = 0; let mism = [], samples = [];
    for (const r of rs) { n += r.n; nt += r.nontriv; r.outcomes.forEach(o => outcomes.add(o)); mism = mism.concat(r.mism); samples = samples.concat(r.samples); }
    const cov = { evaluations: n * Object.keys(vrats).length, distinct_nontrivial: nt, rule: suite.rule, distinct_outcomes: outcomes.size, exhaustive: true, bounds: suite.bounds && suite.bounds[tier], builds: Object.keys(vrats), samples: samples.slice(0, 6) };
    const rc = report(suite.id, tier, mism, cov, t0, { level: suite.level, assumptions: suite.assumptions });
    console.log(`${suite.id} ${tier}: ${n} cases x ${Object.keys(vrats).length} build(s), ${outcomes.size} distinct outcomes, ${mism.length} mismatches (${((Date.now() - t0) / 1000).toFixed(1)} s)`);
    return rc;
  } finally { fs.rmSync(dir, { recursive: true, force: true }); }
}
export { runShard };
