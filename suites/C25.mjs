// Threads: every schedule (up to a preemption bound) of small programs in 2 or 3 runtimes over one data block, run on the
// real library by harness/vconc.c; the oracle is the set of outcomes of an explicit-state model of the same program.
import fs from 'node:fs'; import path from 'node:path'; import { spawn } from 'node:child_process';
import { buildVariant, report, keyOf, NPROC } from '../lib/explore.mjs';
export default { id: 'C25', title: 'Shared memory and threads', * gen() {} };

const TY = { i8: Int8Array, u8: Uint8Array, i16: Int16Array, u16: Uint16Array, i32: Int32Array, u32: Uint32Array, b64: BigInt64Array, u64: BigUint64Array };
const NAME = Object.fromEntries(Object.entries(TY).map(([k, v]) => [k, v.name]));
const lit = x => typeof x === 'bigint' ? `${x}n` : x === Infinity ? 'Infinity' : String(x);
/* an operation: [name, type, index, ...values] */
function opSrc(o) {
  const [n, t, i, ...a] = o;
  switch (n) {
    case 'get': return `__r(${t}[${i}]);`;
    case 'set': return `${t}[${i}]=${lit(a[0])};__r(0);`;
    case 'js': return `${t};`;
    default: return `__r(Atomics.${n}(${[t, i, ...a.map(lit)].join(',')}));`;
  }
}
function progSrc(ops) {
  const ts = new Set(ops.filter(o => o[0] !== 'js').map(o => o[1]));
  return `run=function(){${[...ts].map(t => `var ${t}=new ${NAME[t]}(sab);`).join('')}${ops.map(opSrc).join('')}}`;
}
/* the model: one operation is one step; waiting is first in, first out; a timed wait may end at any moment */
function outcomes(prog) {
  const size = prog.size, sab = new SharedArrayBuffer(size), bytes = new Uint8Array(sab), views = {};
  for (const k in TY) if (size % TY[k].BYTES_PER_ELEMENT === 0) views[k] = new TY[k](sab);
  const str = x => typeof x === 'bigint' ? x + 'n' : String(x), hex = u => Array.from(u, b => b.toString(16).padStart(2, '0')).join('');
  const start = { mem: new Uint8Array(size), th: prog.threads.map(() => ({ pc: 0, w: 0, r: [] })), q: [] };
  if (prog.init) start.mem.set(Buffer.from(prog.init, 'hex').subarray(0, size));
  const seen = new Set(), out = new Set(), todo = [start]; let states = 0, trans = 0;
  const copy = s => ({ mem: s.mem.slice(), th: s.th.map(t => ({ pc: t.pc, w: t.w, r: t.r.slice() })), q: s.q.map(x => x.slice()) });
  const key = s => hex(s.mem) + JSON.stringify([s.th, s.q]);
  seen.add(key(start));
  while (todo.length) {
    const s = todo.pop(); states++; let any = false;
    const push = n => { any = true; trans++; const k = key(n); if (!seen.has(k)) { seen.add(k); todo.push(n); } };
    s.th.forEach((t, ti) => {
      const ops = prog.threads[ti];
      if (t.w) { if (t.w === 2) { const n = copy(s); n.q = n.q.filter(x => x[1] !== ti); n.th[ti].w = 0; n.th[ti].pc++; n.th[ti].r.push('timed-out'); push(n); } return; }
      if (t.pc >= ops.length) return;
      const n = copy(s), me = n.th[ti], [op, ty, i, ...a] = ops[t.pc]; bytes.set(s.mem);
      const pos = i * TY[ty].BYTES_PER_ELEMENT;
      if (op === 'wait') {
        if (views[ty][i] !== a[0]) { me.r.push('not-equal'); me.pc++; }
        else { me.w = a[1] === Infinity || Number.isNaN(a[1]) ? 1 : 2; n.q.push([pos, ti]); }
      } else if (op === 'notify') {
        let c = 0, lim = a.length ? a[0] : Infinity;
        for (const x of n.q.slice()) if (x[0] === pos && c < lim) { c++; n.q.splice(n.q.findIndex(y => y[1] === x[1]), 1); const o = n.th[x[1]]; o.w = 0; o.pc++; o.r.push('ok'); }
        me.r.push(String(c)); me.pc++;
      } else {
        let v;
        if (op === 'get') v = views[ty][i]; else if (op === 'set') { views[ty][i] = a[0]; v = 0; } else v = Atomics[op](views[ty], i, ...a);
        n.mem = bytes.slice(); me.r.push(str(v)); me.pc++;
      }
      push(n);
    });
    if (!any) out.add(s.th.map(t => t.r.join(',') + (t.w ? ' blocked' : '')).join(' | ') + ' # ' + hex(s.mem));
  }
  return { out, states, trans };
}
const seqs = (ops, n) => { let r = [[]], all = []; for (let k = 0; k < n; k++) { r = r.flatMap(s => ops.map(o => [...s, o])); all = all.concat(r); } return all; };
const pairs = (xs, f) => { for (let i = 0; i < xs.length; i++) for (let j = i; j < xs.length; j++) f(xs[i], xs[j]); };
function rmw(t, i) {
  const big = t === 'b64' || t === 'u64', n = TY[t].BYTES_PER_ELEMENT, one = big ? 0x0101010101010101n : n === 4 ? 0x01010101 : n === 2 ? 0x0101 : 1, k = x => big ? BigInt(x) : x, m = big ? 0x7f007f007f007f00n : n === 4 ? 0x7f007f00 : n === 2 ? 0x7f00 : 0x7f;
  return [['add', t, i, one], ['sub', t, i, k(1)], ['and', t, i, m], ['or', t, i, m], ['xor', t, i, one], ['exchange', t, i, m], ['compareExchange', t, i, k(0), one], ['compareExchange', t, i, one, m], ['load', t, i], ['store', t, i, m], ['store', t, i, one]].concat(big ? [] : [['get', t, i], ['set', t, i, one]]);
}
const CONV = ["String(1/3)", "String(5e-324)", "String(1.7976931348623157e308)", "Number('0.1e10')*3.3+''", "Number('1.7976931348623158e308')", "(0.1).toFixed(20)", "(123.456).toPrecision(4)", "(255.5).toString(7)", "parseFloat('123456789012345678901234567890')+''", "JSON.stringify([1.1,2e100])", "Number('2.2250738585072011e-308')+''", "[3,1,2].sort()+''", "(12345.6789).toExponential(3)", "'x'.padEnd(3,1.5)", "123456789012345678901234567890n*3n"];
const BULK = ["a.set(b)", "b.set(a)", "a.set(a.subarray(1),0)", "a.slice()", "a.slice(1,3)", "a.copyWithin(0,2)", "a.fill(7)", "sab.slice(0,8)", "new Uint8Array(a)", "Array.from(a)", "a.sort()", "a.reverse()", "a.indexOf(5)", "a.join()", "new Int16Array(a)", "new Uint8Array(sab).set(new Int16Array(sab2).subarray(0,4))", "Atomics.add(a,1,1)", "Atomics.notify(new Int32Array(sab))", "Atomics.wait(new Int32Array(sab2),0,0,1)",
  "(function(){class T extends Uint8Array{static get [Symbol.species](){return function(n){return new Uint8Array(sab)}}}; new T(sab).slice()})()", "(function(){class T extends Uint8Array{static get [Symbol.species](){return function(n){return new Uint8Array(sab2)}}}; new T(sab).slice()})()", "(function(){class T extends Uint8Array{static get [Symbol.species](){return function(n){return new Uint8Array(sab)}}}; new T(sab2).slice()})()",
  "(function(){class S extends SharedArrayBuffer{static get [Symbol.species](){return function(n){return sab2}}}; var c=sab.constructor; sab.constructor={[Symbol.species]:function(n){return sab2}}; try{sab.slice(0)}finally{delete sab.constructor}})()",
  "(function(){sab2.constructor={[Symbol.species]:function(n){return sab}}; try{sab2.slice(0)}finally{delete sab2.constructor}})()", "new DataView(sab).setFloat64(0,3.5)", "new DataView(sab).getInt16(3)"];
function programs(tier) {
  const P = [], Q = tier === 'quick', add = (cls, threads, o) => P.push({ cls, threads, pb: 2, spur: 0, flags: 0, size: 16, size2: 0, max: 300000, init: '', ...o });
  const A = rmw('i32', 0);
  pairs(seqs(A, 2), (x, y) => { if (!Q || x.length + y.length < 4 || (x.length === 2 && y.length === 2 && x[0] !== x[1] && ['add', 'compareExchange', 'exchange', 'store', 'get'].includes(y[0][0]))) add('read-modify-write', [x, y], { size: 4, pb: Q ? 2 : 4 }); });
  const tri = Q ? A.filter(o => ['add', 'exchange', 'compareExchange', 'load', 'store'].includes(o[0])) : A;
  for (const x of tri) for (const y of tri) for (const z of tri) if (tri.indexOf(x) <= tri.indexOf(y) && tri.indexOf(y) <= tri.indexOf(z)) add('three threads', [[x], [y], [z]], { size: 4, pb: Q ? 2 : 3 });
  for (const t in TY) { const B = TY[t].BYTES_PER_ELEMENT; for (const i of [0, 1]) pairs(rmw(t, i), (x, y) => add('element types', [[x], [y]], { size: 16, pb: 3, init: i ? '00112233445566778899aabbccddeeff' : '' })); void B; }
  for (const t in TY) for (const x of rmw(t, 0)) for (const y of rmw(t, 1)) add('neighbouring elements', [[x], [y]], { size: 16, pb: 2 });
  const W = [['wait', 'i32', 0, 0, Infinity], ['wait', 'i32', 0, 0, 5], ['wait', 'i32', 0, 0, 0], ['wait', 'i32', 0, 1, 5], ['wait', 'i32', 1, 0, 5], ['notify', 'i32', 0], ['notify', 'i32', 0, 1], ['notify', 'i32', 0, 0], ['notify', 'i32', 1, 1], ['store', 'i32', 0, 1], ['add', 'i32', 0, 1]];
  const W1 = W.filter(o => !(o[0] === 'wait' && o[2] === 1) && !(o[0] === 'notify' && o[2] === 1));
  pairs(seqs(W, 2), (x, y) => { const n = x.length + y.length, waits = o => o.some(z => z[0] === 'wait'); if (!waits(x) && !waits(y)) return; if (n === 2 || (!Q && n === 3)) add('wait and notify', [x, y], { size: 8, pb: 2, spur: 1 }); else if (n === 3 || !Q) add('wait and notify', [x, y], { size: 8, pb: 1, spur: 0 }); });
  for (const x of W1) for (const y of W1) for (const z of seqs(W1, 2)) if (W1.indexOf(x) <= W1.indexOf(y) && x[0] === 'wait' && y[0] === 'wait' && z.some(o => o[0] === 'notify')) add('two waiters', [[x], [y], z], { size: 4, pb: z.length === 1 || !Q ? 1 : 0, spur: 0, max: Q ? 12000 : 200000 });
  for (const t of [1e300, 1e18, 1e15, 4294967296000, 0.5, 1.9, -1, NaN]) for (const n of [1, Infinity]) add('timeouts', [[['wait', 'i32', 0, 0, t === -1 ? 0 : t]], [['notify', 'i32', 0, n]]], { size: 4, spur: 1, ...(t >= 1e15 ? { never: 1 } : {}) });
  for (const a of [0n, 1n]) for (const n of [0, 1, Infinity]) { add('64-bit waits', [[['wait', 'b64', 0, a, Infinity]], [['store', 'b64', 0, 1n], ['notify', 'b64', 0, n]]], { spur: 1 }); add('64-bit waits', [[['wait', 'b64', 1, a, 7]], [['add', 'b64', 1, 1n], ['notify', 'b64', 1, n]]], { spur: 1 }); }
  const J = s => [['js', s]];
  pairs(CONV, (x, y) => add('independent conversions', [J(`__r(${x})`), J(`__r(${y})`)], { flags: 2, size: 0, pb: 2, want: [`${plain(x)} | ${plain(y)} # `] }));
  pairs(BULK, (x, y) => add('bulk operations end', [J(`var a=new Uint8Array(sab),b=new Uint8Array(sab2);${x};__r('done')`), J(`var a=new Uint8Array(sab),b=new Uint8Array(sab2);${y};__r('done')`)], { flags: 2, size: 8, size2: 8, pb: 2, max: Q ? 3000 : 40000, want: ['done | done # '] }));
  const F = ["x=__dup(0)", "x=__dup(0);x=null;__gc()", "sab=null", "sab=null;__gc()", "__gc()", "new Int32Array(sab)[0]=1", "x=new Int32Array(sab);sab=null;__gc();x[1]=2;x=null;__gc()"];
  pairs(seqs(F, 2).filter(s => !/sab=null.*(sab|__dup)/.test(s.join('#'))), (x, y) => add('lifetime of a data block', [J('var x;' + x.join(';') + ";x=null;__r('k')"), J('var x;' + y.join(';') + ";x=null;__r('k')")], { flags: 3, size: 8, pb: 2, max: 20000, want: ['k | k # freed'] }));
  for (const x of F) for (const y of F) for (const z of F) if (!Q || /null/.test(x + y + z)) add('lifetime of a data block', [x, y, z].map(s => J('var x;' + s + ";x=null;__r('k')")), { flags: 3, size: 8, pb: Q ? 1 : 2, max: 20000, want: ['k | k | k # freed'] });
  for (const y of ['__newrt()', 'String(1.25)', "JSON.parse('[1.5]')[0]"]) add('making runtimes', [J('__r(__newrt())'), J(`__r(${y})`)], { flags: 2, size: 0, pb: 1, max: Q ? 3000 : 50000, want: [`12 | ${y === '__newrt()' ? '12' : plain(y)} # `] });
  return P;
}
function plain(x) { const v = (0, eval)(x); return typeof v === 'bigint' ? v + 'n' : String(v); }
export async function main(tier) {
  const t0 = Date.now(), bin = buildVariant('tsan'); let P = programs(tier); let mst = 0, mtr = 0;
  if (process.env.C25_CLS) P = P.filter(p => p.cls.startsWith(process.env.C25_CLS)); if (process.env.C25_N) { const st = Math.max(1, Math.floor(P.length / +process.env.C25_N)); console.log(P.length, 'programs'); P = P.filter((p, i) => i % st === 0); }
  for (const p of P) p.src = p.threads.map(t => t[0][0] === 'js' ? `run=function(){${t[0][1]}}` : progSrc(t));
  const res = new Array(P.length); let next = 0; const CH = 40;
  const feed = (from, to) => new Promise(ok => {
    const ps = spawn('bash', ['-c', 'ulimit -v 16000000; exec ' + bin], { stdio: ['pipe', 'pipe', 'pipe'] }); let o = '', e = '';
    ps.stdout.on('data', d => { o += d; }); ps.stderr.on('data', d => { e += d; }); ps.stdin.on('error', () => {});
    let s = '';
    for (let i = from; i < to; i++) { const p = P[i]; s += `P ${i} ${p.threads.length} ${p.pb} ${p.spur} ${p.flags} ${p.size} ${p.size2} ${p.max} ${tier === 'quick' ? 100 : 400} ${p.init || '-'}\n`; for (const x of p.src) { const b = Buffer.from(x); s += `T ${b.length}\n${x}\n`; } }
    ps.stdin.end(s);
    ps.on('close', (code, sig) => {
      const L = o.split('\n'); let k = 0, last = from - 1;
      while (k < L.length && L[k]) {
        const [id, sch, pts, dv, tr, md, n] = L[k++].split('\t'), r = { sch: +sch, pts: +pts, dv: +dv, tr: +tr, md: +md, out: [] };
        for (let j = 0; j < +n; j++) { const [s2, ch, c] = L[k++].split('\t'); r.out.push([s2, ch, c]); }
        res[+id] = r; last = +id;
      }
      if (code !== 0 && last < to - 1 && code !== 3) { last++; res[last] = { sch: 0, pts: 0, dv: 0, tr: 0, md: 0, out: [[`!ended with ${code} ${sig || ''} ${e.slice(0, 200)}`, '', 0]] }; }
      ok(code === 0 || last >= to - 1 ? null : last + 1);
    });
  });
  await Promise.all(Array.from({ length: NPROC }, async () => {
    while (next < P.length) { let i = next, e = Math.min(P.length, i + CH); next = e; while (i !== null && i < e) i = await feed(i, e); }
  }));
  const mism = [], by = {}, memo = new Map(); let sch = 0, pts = 0, cut = 0, dv = 0, nout = 0, nallow = 0;
  for (let i = 0; i < P.length; i++) {
    const p = P[i], r = res[i]; if (!r) { mism.push({ v: 'tsan', kind: 't', src: p.src.join('\n'), cls: p.cls, key: keyOf({ kind: 't', src: p.src.join('\n') }), want: 'an answer', got: '!no answer' }); continue; }
    let allow;
    if (p.want) allow = new Set(p.want);
    else { const q = p.never ? { ...p, threads: p.threads.map(t => t.map(o => o[0] === 'wait' ? ['wait', o[1], o[2], o[3], Infinity] : o)) } : p, m = outcomes(q); allow = m.out; mst += m.states; mtr += m.trans; }
    sch += r.sch; pts += r.pts; dv += r.dv; cut += r.tr; nout += r.out.length; nallow += allow.size;
    const b = by[p.cls] ??= { programs: 0, schedules: 0, points: 0, deepest: 0, cut: 0 }; b.programs++; b.schedules += r.sch; b.points += r.pts; b.deepest = Math.max(b.deepest, r.md); b.cut += r.tr;
    for (const [s, ch] of r.out) if (!allow.has(s)) mism.push({ v: 'tsan', kind: 't', src: p.src.join('\n---\n') + `\n// schedule ${ch}, preemptions ${p.pb}, spurious wake-ups ${p.spur}`, cls: p.cls, key: keyOf({ kind: 't', src: p.src.join('\n') + s }), want: [...allow].slice(0, 6).join('  or  '), got: s });
  }
  void memo;
  const cov = { evaluations: sch, schedules: sch, states: pts, transitions: pts, distinct_nontrivial: nout, exhaustive: cut === 0, rule: 'one case = one complete schedule of one program on the real library (every choice at every access to shared memory, lock, condition variable, time-out and spurious wake-up, up to the preemption bound); nontrivial = distinct outcomes seen', programs: P.length, model_states: mst, model_transitions: mtr, outcomes_seen: nout, outcomes_of_the_model: nallow, programs_cut_short: cut, replay_divergences: dv, per_class: by, bounds: '2 or 3 threads, at most 2 operations each, preemptions 1 to 4 as listed in suites/C25.mjs, at most 1 spurious wake-up, any number of time-outs' };
  const rc = report('C25', tier, mism, cov, t0, {});
  console.log(`C25 ${tier}: ${P.length} programs, ${sch} schedules, ${pts} points, ${nout} outcomes seen of ${nallow}, ${cut} cut, ${dv} divergences, ${mism.length} mismatches (${((Date.now() - t0) / 1000).toFixed(1)} s)`);
  if (process.env.VERBOSE) console.log(JSON.stringify(by, null, 1));
  return rc;
}
