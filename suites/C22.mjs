// Garbage collection is invisible: every program of a corpus drawn from all suites runs once as it is and then under
// every forced collection schedule of the tier; the log has to be the same, freed memory is overwritten (and watched
// by the address sanitizer), and after the runtime is freed no block may be left.
import fs from 'node:fs'; import path from 'node:path';
import { buildVariant, runVrat, report, forkShards, preludeBuf, encodeCase, keyOf, VERIF, NPROC, OUT } from '../lib/explore.mjs';
const CORPUS = ['C01', 'C02', 'C03', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C13', 'C14', 'C15', 'C16', 'C17', 'C18', 'C19', 'C20', 'C21', 'C24', 'C27', 'C34', 'C04'];
const MODES = { // [build, mode, programs per suite]
  quick: [['plain', 'leak', 500], ['asan', 'all', 40], ['plain', 'all', 200], ['plain', 'each', 2]],
  thorough: [['plain', 'leak', 6000], ['asan', 'all', 700], ['plain', 'all', 4000], ['plain', 'each', 130]],
};
const SKIP = /WeakRef|Finalization|__gc|__tz|Date\.now|new Date\b\s*(\(\))?\s*[;)]|Math\.random/;
async function corpus(id, n) {
  const suite = (await import(`${VERIF}/suites/${id}.mjs`)).default, per = new Map();
  const find = new Set(JSON.parse(fs.readFileSync(path.join(VERIF, 'known-findings.json'))).findings.filter(f => f.property === id).flatMap(f => f.cases.map(k => k.split(':')[0])));
  const ok = c => !SKIP.test(c.src || JSON.stringify(c.parts));
  for (const c of suite.gen('quick')) if (ok(c)) per.set(c.cls, (per.get(c.cls) || 0) + 1);
  const each = Math.max(1, Math.ceil(n / per.size)), at = new Map(), out = [];
  for (const c of suite.gen('quick')) if (ok(c)) {
    const i = at.get(c.cls) || 0, t = per.get(c.cls); at.set(c.cls, i + 1);
    if (t <= each || Math.floor(i * each / t) !== Math.floor((i - 1) * each / t)) { if (!c.kind) c.kind = 's'; if (c.kind === 'S') c.kind = 's'; if (!find.has(keyOf(c))) out.push(c); }
  }
  const m = Math.min(out.length, Math.max(n, n > 20 ? per.size : 0));
  return { suite, cases: Array.from({ length: m }, (_, i) => out[Math.floor((i + 0.5) * out.length / m)]) };
}
export async function shard(unit, tier, dir, vrats) {
  const [id, v, mode, n, part, parts] = unit; let { suite, cases } = await corpus(id, n);
  cases = cases.filter((_, i) => i % parts === part);
  const tag = [id, v, mode, part].join('-'), file = path.join(dir, tag), stats = file + '.stats';
  fs.writeFileSync(file, Buffer.concat([preludeBuf(suite.prelude), ...cases.map(encodeCase)]));
  const opt = { timeoutMs: mode === 'each' ? 40000 : 20000, memMB: v === 'asan' ? 0 : 3000, env: { VRAT_GC: mode, VRAT_STATS: stats, VRAT_GC_CAP: v === 'asan' ? '500' : '1200' } };
  const got = await runVrat(vrats[v], file, cases.length, opt);
  const mism = []; let done = 0, cut = 0;
  for (let i = 0; i < cases.length; i++) {
    const g = got[i] || '?';
    if (g === '!TIMEOUT' || g === '!SKIPPED') { cut++; continue; }
    if (/!gc at|!leak|^!CRASH/.test(g)) {
      // confirm alone; a crash that also happens without forced collections belongs to another property
      const f1 = file + '.one'; fs.writeFileSync(f1, Buffer.concat([preludeBuf(suite.prelude), encodeCase(cases[i])]));
      const again = (await runVrat(vrats[v], f1, 1, { ...opt, env: { ...opt.env, VRAT_STATS: '' } }))[0];
      const bare = /^!CRASH/.test(g) ? (await runVrat(vrats[v], f1, 1, { ...opt, env: {} }))[0] : '';
      fs.rmSync(f1, { force: true });
      if (/^!CRASH/.test(bare || '')) { cut++; continue; }
      const bad = /!gc at|!leak|^!CRASH/.test(again || '');
      mism.push({ v: v + '/' + mode, kind: cases[i].kind, src: cases[i].src, parts: cases[i].parts, cls: id + ' ' + (cases[i].cls || ''), key: keyOf(cases[i]) + mode, want: 'as without', got: (bad ? again : g).slice(0, 600), alone: bad ? 'yes' : 'no' });
    }
    done++;
  }
  const st = [0, 0, 0]; if (fs.existsSync(stats)) for (const l of fs.readFileSync(stats, 'utf8').split('\n')) l.split(' ').forEach((x, k) => { st[k] += +x || 0; });
  fs.rmSync(file, { force: true }); fs.rmSync(stats, { force: true });
  return { unit, n: cases.length, done, cut, st, mism, sample: cases[0] && (cases[0].src || '').slice(0, 200) };
}
export async function main(tier) {
  const t0 = Date.now(), vrats = { plain: buildVariant('plain'), asan: buildVariant('asan') };
  fs.mkdirSync(OUT, { recursive: true }); const dir = fs.mkdtempSync(path.join(OUT, 'C22-'));
  try {
    const only = process.env.C22_ONLY && new RegExp(process.env.C22_ONLY);
    const units = []; for (const [v, m, n] of MODES[tier]) for (const id of CORPUS) { const parts = m === 'each' || v === 'asan' ? 2 : 1; for (let p = 0; p < parts; p++) if (!only || only.test([id, v, m].join('-'))) units.push([id, v, m, n, p, parts]); }
    units.reverse();
    const rs = await forkShards(path.join(VERIF, 'lib/unit.mjs'), units.length, i => ['C22', JSON.stringify(units[i]), tier, dir, JSON.stringify(vrats)]);
    let mism = [], n = 0, done = 0, cut = 0; const by = {};
    for (const r of rs) { n += r.n; done += r.done; cut += r.cut; mism = mism.concat(r.mism); const k = r.unit[1] + '/' + r.unit[2]; by[k] = by[k] || { programs: 0, allocations: 0, schedules: 0, forced_collections: 0 }; by[k].programs += r.done; by[k].allocations += r.st[0]; by[k].schedules += r.st[1]; by[k].forced_collections += r.st[2]; }
    const sched = Object.values(by).reduce((a, b) => a + b.schedules, 0);
    const cov = { evaluations: sched + done, schedules: sched, distinct_nontrivial: done, rule: 'one case = one program under one collection schedule; modes: a collection at every allocation at once (up to 1200), a collection at each single allocation in turn, and block accounting', exhaustive: true, by_mode: by, not_finished: cut, distinct_outcomes: new Set(mism.map(m => m.got)).size + 1, samples: rs.slice(0, 4).map(r => ({ case: r.sample, observed: 'same log under every schedule' })), bounds: JSON.stringify(MODES[tier]) };
    const rc = report('C22', tier, mism, cov, t0, {});
    console.log(`C22 ${tier}: ${done} programs, ${sched} schedules, ${cut} not finished, ${mism.length} mismatches (${((Date.now() - t0) / 1000).toFixed(1)} s)`, JSON.stringify(by));
    return rc;
  } finally { fs.rmSync(dir, { recursive: true, force: true }); }
}
