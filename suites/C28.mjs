// Native containers: explicit-state exploration of the real structures by harness/containers.c, one process per component.
import fs from 'node:fs'; import path from 'node:path'; import { spawnSync, spawn } from 'node:child_process';
import { buildVariant, report, keyOf, VERIF, NPROC, OUT } from '../lib/explore.mjs';
const PLAN = {
  quick: [['rbt', 12], ['hash', 5], ['list', 6], ['sort', 9], ['vector', 5], ['cbuf', 5], ['ubuf', 5], ['stack', 5], ['vlist', 5], ['values', 0], ['rbt', 8, 'asan'], ['hash', 4, 'asan'], ['list', 4, 'asan'], ['sort', 7, 'asan'], ['vector', 4, 'asan'], ['cbuf', 4, 'asan'], ['ubuf', 4, 'asan'], ['stack', 3, 'asan'], ['vlist', 3, 'asan']],
  thorough: [['rbt', 15], ['hash', 6], ['list', 7], ['sort', 13], ['vector', 6], ['cbuf', 6], ['ubuf', 6], ['stack', 6], ['vlist', 6], ['values', 0], ['rbt', 12, 'asan'], ['hash', 5, 'asan'], ['list', 6, 'asan'], ['sort', 9, 'asan'], ['vector', 5, 'asan'], ['cbuf', 5, 'asan'], ['ubuf', 5, 'asan'], ['stack', 4, 'asan'], ['vlist', 4, 'asan']],
};
export default { id: 'C28', title: 'Native containers', * gen() {} };
export async function main(tier) {
  const t0 = Date.now(), bin = {};
  for (const v of ['plain', 'asan']) {
    const B = path.dirname(buildVariant(v)), sh = f => fs.readFileSync(path.join(B, f), 'utf8').trim(); bin[v] = path.join(B, 'containers');
    const r = spawnSync('bash', ['-c', `gcc ${sh('.cflags')} -g -w -o ${bin[v]}.$$ ${VERIF}/harness/containers.c -I/repo/include -I/repo/src/lib -I/repo/src/lib/include -I${B}/include -I${B}/src/lib ${B}/libratjs.a ${sh('.libs')} && mv ${bin[v]}.$$ ${bin[v]}`], { encoding: 'utf8' });
    if (r.status !== 0) { console.log(r.stdout + r.stderr); return 2; }
  }
  const plan = PLAN[tier], rs = []; let next = 0;
  const one = ([c, n, v = 'plain']) => new Promise(res => {
    let o = ''; const p = spawn('bash', ['-c', `${v === 'plain' ? 'ulimit -v 8000000; ' : ''}exec timeout ${tier === 'quick' ? 240 : 800} ${bin[v]} ${c} ${n} 2>&1`], { env: { ...process.env, ASAN_OPTIONS: 'detect_leaks=0:abort_on_error=1' } });
    p.stdout.on('data', d => { o += d; }); p.on('close', (code, sig) => res({ c, n, v, code, sig, o: o.slice(0, 3000) }));
  });
  await Promise.all(Array.from({ length: NPROC }, async () => { while (next < plan.length) { const i = next++; rs[i] = await one(plan[i]); } }));
  let st = 0, tr = 0, cut = []; const mism = [], by = {};
  for (const r of rs) {
    const m = /^ok (\d+) (\d+)/m.exec(r.o);
    if (m && r.code === 0) { st += +m[1]; tr += +m[2]; by[`${r.c}/${r.n}/${r.v}`] = [+m[1], +m[2]]; }
    else if (r.code === 124) cut.push(r.c + '/' + r.n + '/' + r.v);
    else { const f = /^FAIL .*/m.exec(r.o), c = { kind: 'c', src: `containers ${r.c} ${r.n}` }; mism.push({ v: r.v, kind: 'c', src: c.src, cls: r.c, key: keyOf(c) + r.v, want: 'the abstract data type', got: f ? f[0] : `ended with ${r.code} ${r.sig || ''} ` + (/ERROR: .*|runtime error.*/.exec(r.o) || [''])[0] }); }
  }
  const cov = { evaluations: tr, states: st, transitions: tr, distinct_nontrivial: st, exhaustive: cut.length === 0, rule: 'one case = one operation applied to one reachable state (or one operation sequence, one array for sorting); the structure is compared with the abstract data type after it', per_component_states_transitions: by, not_finished: cut, bounds: plan.map(p => p.join(' ')).join(', ') };
  const rc = report('C28', tier, mism, cov, t0, {});
  console.log(`C28 ${tier}: ${st} states, ${tr} transitions, ${cut.length} not finished, ${mism.length} mismatches (${((Date.now() - t0) / 1000).toFixed(1)} s)`, JSON.stringify(by));
  return rc;
}
