// The command: every combination of options, program form, main form and arguments, against a model of the documented behaviour.
import fs from 'node:fs'; import path from 'node:path'; import { spawn } from 'node:child_process';
import { buildVariant, report, keyOf, NPROC, OUT } from '../lib/explore.mjs';
// ---- programs: text, what they print at once (o), in jobs started by them (j), and how they end -----------------------------
const HELP = 'function P(...a){print(a.map(String).join(" ")+"\\n")}';
const pz = t => t.includes('print(') ? HELP + t.replaceAll('print(', 'P(').replaceAll('PRINT(', 'print(') : t.replaceAll('PRINT(', 'print(');
const ST = 'print("st",(function(){return this===undefined})());';
const BODY = { // x: 'throw' (uncaught at run time) | 'syntax' | 'late' (module: fails when it is awaited); m: module only
  plain: { t: 'print("a");', o: ['a'] }, empty: { t: '', o: [] }, strict: { t: ST, o: s => ['st ' + s] }, comment: { t: '// nothing\n', o: [] },
  jobs: { t: 'print("a");Promise.resolve().then(()=>print("j1")).then(()=>print("j2"));', o: ['a'], j: ['j1', 'j2'] },
  nest: { t: 'Promise.resolve().then(()=>{print("j1");Promise.resolve().then(()=>print("j3"))});Promise.resolve().then(()=>print("j2"));print("a");', o: ['a'], j: ['j1', 'j2', 'j3'] },
  async: { t: '(async()=>{print("a");await 1;print("j1");await 2;print("j2")})();', o: ['a'], j: ['j1', 'j2'] },
  throws: { t: 'print("a");throw new Error("boom");', o: ['a'], x: 'throw', e: 'boom' }, throwstr: { t: 'throw "boom";', o: [], x: 'throw', e: 'boom' }, throwu: { t: 'throw undefined;', o: [], x: 'throw', e: 'undefined' },
  thrown: { t: 'print("a");throw null;', o: ['a'], x: 'throw', e: 'null' }, throw0: { t: 'throw 0;', o: [], x: 'throw', e: '0' }, throwsym: { t: 'throw Symbol("q");', o: [], x: 'throw' }, throwbad: { t: 'throw {toString(){throw 1}};', o: [], x: 'throw' }, throwobj: { t: 'throw {toString(){return "boom"}};', o: [], x: 'throw', e: 'boom' },
  ref: { t: 'print("a");nope();print("b");', o: ['a'], x: 'throw', e: 'nope' }, deep: { t: 'function f(n){if(n)return f(n-1);throw new TypeError("boom")}print("a");f(5);', o: ['a'], x: 'throw', e: 'boom' }, fin: { t: 'try{throw 1}catch(e){print("c")}finally{print("f")}', o: ['c', 'f'] },
  syntax: { t: 'print("a");let let;', o: [], x: 'syntax' }, syntax2: { t: 'print("a"', o: [], x: 'syntax' }, early: { t: 'print("a");break;', o: [], x: 'syntax' },
  uni: { t: 'print("h\u00e9\u4e2d\ud83d\ude00");', o: ['h\u00e9\u4e2d\ud83d\ude00'] }, multi: { t: 'PRINT(1,"x",true,null,undefined,[2,3]);PRINT();PRINT("\\n\\n");PRINT("e\\n");', o: ['1xtruenullundefined2,3', '', 'e'] },
  reject: { t: 'Promise.reject(1).catch(e=>print("r",e));print("a");', o: ['a'], j: ['r 1'] }, many: { t: 'for(var i=0;i<300;i++)Promise.resolve(i).then(v=>{if(v%100==99)print(v)});', o: [], j: ['99', '199', '299'] },
  tla: { m: 1, t: 'print("a");await null;print("b");', o: ['a', 'b'] }, tla3: { m: 1, t: 'for(let i of [1,2,3]){await i;print(i)}', o: ['1', '2', '3'] }, tlaj: { m: 1, t: 'var f;Promise.resolve().then(()=>{print("j");f(7)});print(await new Promise(r=>{f=r}));', o: ['j', '7'] }, tlath: { m: 1, t: 'print(await {then(f){f(8)}});', o: ['8'] },
  tlarej: { m: 1, t: 'print("a");await Promise.reject(new Error("boom"));print("b");', o: ['a'], x: 'throw', e: 'boom' }, tlacatch: { m: 1, t: 'try{await Promise.reject(1)}catch(e){print("c",e)}', o: ['c 1'] },
  imp: { m: 1, t: 'import {x} from "./dep.js";print("x",x);', o: ['dep', 'x 1'] }, impns: { m: 1, t: 'import * as n from "./dep.js";print(Object.keys(n).join());', o: ['dep', 'x'] }, impext: { m: 1, t: 'import {x} from "./dep";print(x);', o: ['dep', '1'] }, imp2: { m: 1, t: 'import "./dep.js";import {x} from "./dep.js";print(x);', o: ['dep', '1'] }, imptla: { m: 1, t: 'import {y} from "./deptla.js";print(y);', o: ['t1', 't2', '5'] },
  impsub: { m: 1, t: 'import {z} from "./sub/in.js";print(z);', o: ['dep', 'sub', '2'] }, impcyc: { m: 1, t: 'import {f} from "./cyc1.js";print(f());', o: ['c2', 'c1', 'ok'] }, json: { m: 1, t: 'import d from "./d.json";print(d.k);', o: ['v'] }, jsonext: { m: 1, t: 'import d from "./d2";print(d[0]);', o: ['3'] }, dyn: { m: 1, t: 'let n=await import("./dep.js");print(n.x);', o: ['dep', '1'] },
  dynbad: { m: 1, t: 'try{await import("./nope.js")}catch(e){print("caught")}', o: ['caught'] }, dynthrow: { m: 1, t: 'try{await import("./thr.js")}catch(e){print("caught",e.message)}', o: ['thr', 'caught boom'] }, dynsyn: { m: 1, t: 'try{await import("./syn.js")}catch(e){print("caught",e.name)}', o: ['caught SyntaxError'], logs: 1 }, dynjs: { m: 1, t: 'await import("./badjson.json").catch(e=>print("caught"));', o: ['caught'], logs: 1 },
  impnone: { m: 1, t: 'import "./nope.js";print("a");', o: [], x: 'link' }, impsyn: { m: 1, t: 'import "./syn.js";print("a");', o: [], x: 'link' }, impthr: { m: 1, t: 'import "./thr.js";print("a");', o: ['thr'], x: 'link', e: 'boom' }, impbad: { m: 1, t: 'import {nope} from "./dep.js";print("a");', o: [], x: 'link' }, impjson: { m: 1, t: 'import "./badjson.json";print("a");', o: [], x: 'link' },
  pkg: { m: 1, t: 'import {p} from "pkg";print(p);', o: (s, seen) => seen ? ['p'] : ['pkg', 'p'], need: 'm', x: null }, pkgm: { m: 1, t: 'import {p} from "pkg";print(p);', o: [], x: 'link', without: 'm' },
};
const A = 'print("main:"+Array.prototype.slice.call(arguments,1).join("|")+":"+arguments.length);';
const MAIN = { // r: status, x: throws, o: printed by main at once, j: later
  none: { t: '' }, five: { t: 'var main=5;' }, undef: { t: 'var main;' }, obj: { t: 'var main={};' }, fn: { t: `function main(){${A}}`, call: 1 }, varfn: { t: `var main=function(){${A}};`, call: 1 },
  ...Object.fromEntries([0, 1, 2, 3, 42, 127, 255].map(n => ['r' + n, { t: `function main(){${A}return ${n}}`, call: 1, r: n }])), str: { t: `function main(){${A}return "7"}`, call: 1 }, nul: { t: `function main(){${A}return null}`, call: 1 }, tru: { t: `function main(){${A}return true}`, call: 1 }, retobj: { t: `function main(){${A}return {}}`, call: 1 }, big: { t: `function main(){${A}return 3n}`, call: 1 }, arr: { t: `function main(){${A}return [3]}`, call: 1 },
  thr: { t: `function main(){${A}throw new Error("mboom")}`, call: 1, x: 1, e: 'mboom' }, thru: { t: `function main(){${A}throw undefined}`, call: 1, x: 1 }, thr0: { t: `function main(){${A}throw 0}`, call: 1, x: 1 },
  as: { t: `async function main(){${A}}`, call: 1 }, as4: { t: `async function main(){${A}await 1;print("m2");await 2;print("m3");return 4}`, call: 1, o2: ['m2', 'm3'], r: 4 }, asthr: { t: `async function main(){${A}await 1;throw new Error("mboom")}`, call: 1, x: 1, e: 'mboom' }, asthr0: { t: `async function main(){${A}throw new Error("mboom")}`, call: 1, x: 1, e: 'mboom' }, asu: { t: `async function main(){${A}await 1;throw undefined}`, call: 1, x: 1 },
  prom: { t: `function main(){${A}return new Promise(f=>{Promise.resolve().then(()=>{print("m2");f(6)})})}`, call: 1, o2: ['m2'], r: 6 }, promr: { t: `function main(){${A}return Promise.reject(1)}`, call: 1, x: 1 }, proms: { t: `function main(){${A}return Promise.resolve("x")}`, call: 1 }, chain: { t: `async function main(){${A}for(let i=0;i<50;i++)await i;print("m2");return 9}`, call: 1, o2: ['m2'], r: 9 }, thenable: { t: `function main(){${A}return {then(){print("no")}}}`, call: 1 },
  jobs: { t: `function main(){${A}Promise.resolve().then(()=>print("k1")).then(()=>print("k2"));return 3}`, call: 1, j: ['k1', 'k2'], r: 3 }, jobthr: { t: `function main(){${A}Promise.resolve().then(()=>{print("k1");throw 1}).catch(()=>print("k2"));return 3}`, call: 1, j: ['k1', 'k2'], r: 3 }, asjobs: { t: `async function main(){${A}Promise.resolve().then(()=>print("k1")).then(()=>print("k2")).then(()=>print("k3"));return 5}`, call: 1, j: ['k1', 'k2', 'k3'], r: 5 },
  arrow: { m: 1, t: `let main=(...a)=>{print("main:"+a.slice(1).join("|")+":"+a.length);return 8};`, call: 1, r: 8 }, expo: { m: 1, t: `export function main(){${A}return 8}`, call: 1, r: 8 }, constas: { m: 1, t: `const main=async(...a)=>{print("main:"+a.slice(1).join("|")+":"+a.length);await 0;return 8};`, call: 1, r: 8 }, cls: { m: 1, t: 'class main{};', x: 1 }, bound: { t: `var main=(function(){${A}return 8}).bind(null);`, call: 1, r: 8 },
  getter: { s: 1, t: 'Object.defineProperty(globalThis,"main",{get(){throw new Error("mboom")}});', x: 1, e: 'mboom' }, get2: { s: 1, t: `Object.defineProperty(globalThis,"main",{get(){return function(){${A}return 8}}});`, call: 1, r: 8 }, glob: { s: 1, t: `globalThis.main=function(){${A}return 8};`, call: 1, r: 8 }, tdz: { m: 1, t: '', x: 0 },
};
const FILES = { 'dep.js': 'print("dep");export let x=1;', 'deptla.js': 'print("t1");export let y=await 5;print("t2");', 'sub/in.js': 'import {x} from "../dep.js";print("sub");export let z=x+1;', 'cyc1.js': 'import {g} from "./cyc2.js";print("c1");export function f(){return g()}', 'cyc2.js': 'import {f} from "./cyc1.js";print("c2");export function g(){return typeof f==="function"?"ok":"no"}', 'd.json': '{"k":"v"}', 'd2.json': '[3]', 'badjson.json': '{"k":}', 'thr.js': 'print("thr");throw new Error("boom");', 'syn.js': 'let let;', 'inc.js': 'print("inc");var INC=1;', 'inc2.js': 'print("inc2",typeof INC);', 'incthr.js': 'print("incthr");throw new Error("iboom");', 'incsyn.js': 'let let', 'lib.js': 'print("lib");export let LIB=1;export function libf(){return 2}', 'libthr.js': 'print("libthr");throw new Error("lboom");', 'libtla.js': 'await 1;print("lib");export let LIB=await 1;', 'mods/pkg.js': 'print("pkg");export let p="p";' };
// ---- options: words, what they print, whether they stop everything ------------------------------------------------------
const OPT = D => ({ strict: { w: ['--strict'] }, c: { w: ['-c'] }, dump: { w: ['--dump-stack'] }, m: { w: ['-m', D + '/mods'] }, i: { w: ['-i', D + '/inc.js'], o: ['inc'] }, i2: { w: ['-i', D + '/inc.js', '-i', D + '/inc2.js'], o: ['inc', 'inc2 number'] }, l: { w: ['-l', D + '/lib.js'], o: ['lib'] }, ltla: { w: ['-l', D + '/libtla'], o: ['lib'] }, lpkg: { w: ['-m', D + '/mods', '-l', 'pkg'], o: ['pkg'], is: 'm' }, dd: { w: ['--'] },
  ithr: { w: ['-i', D + '/incthr.js'], o: ['incthr'], stop: 1, e: 'iboom' }, isyn: { w: ['-i', D + '/incsyn.js'], o: [], stop: 1 }, inone: { w: ['-i', D + '/nope.js'], o: [], stop: 1, noe: 1 }, lthr: { w: ['-l', D + '/libthr.js'], o: ['libthr'], stop: 1, e: 'lboom' }, lnone: { w: ['-l', D + '/nope.js'], o: [], stop: 1 }, lsyn: { w: ['-l', D + '/syn.js'], o: [], stop: 1 }, bad: { w: ['-Z'], o: [], stop: 1 }, badl: { w: ['--nope'], o: [], stop: 1 }, noarg: { w: ['--strict=1'], o: [], stop: 1 }, dfunc: { w: ['-d', 'func'], dis: 1 }, dall: { w: ['-d', 'all'], dis: 1 }, dcode: { w: ['-d', 'code'], dis: 1 }, ver: { w: ['--version'], ver: 1 } });
function expect(mode, body, main, opts, args, fileArg) {
  const out = []; let e = null;
  for (const o of opts) { if (o.ver) out.push(/^\d+\.\d+\.\d+$/); if (o.o) out.push(...o.o); if (o.stop) return { out, status: 1, e: o.e, err: !o.noe }; }
  const pre = out.length, compile = opts.some(o => o.w[0] === '-c'), strict = opts.some(o => o.w[0] === '--strict'), dis = opts.some(o => o.dis);
  if (body.missing) return { out, status: 1, err: true };
  if (body.x === 'syntax') return { out, status: 1, err: true };
  if (compile) return { out, status: 0, dis, pre };
  const jobs = []; const late = mode === 'm';
  out.push(...(typeof body.o === 'function' ? body.o(mode === 'm' || strict, out.includes('pkg')) : body.o));
  if (body.x) return { out, status: 1, e: body.e, err: body.x === 'throw' || body.x === 'link', dis, pre };
  if (late) out.push(...(body.j || [])); else jobs.push(...(body.j || []));
  if (main.x && !main.call) { return { out, status: 1, e: main.e, err: main.e ? true : undefined, dis, pre, loose: jobs }; }
  let status = 0;
  if (mode === 'e' && strict && !main.s) main = { t: '' }; // declarations of a strict eval are its own
  if (main.call) {
    const a = mode === 'e' ? args : [fileArg, ...args];
    out.push('main:' + a.slice(1).join('|') + ':' + a.length);
    if (main.x) return { out, status: 1, e: main.e, err: main.e ? true : undefined, dis, pre, loose: [...jobs, ...(main.j || [])] };
    status = main.r || 0;
  }
  // jobs of program and main interleave; each list keeps its order
  return { out, tail: [jobs, main.o2 || [], main.j || []], status, err: body.logs ? undefined : false, dis, pre };
}
function merged(lines, lists) { // is lines a merge of the lists, all of them complete?
  const seen = new Set(); const go = (i, ps) => { const k = i + ':' + ps; if (seen.has(k)) return false; seen.add(k); if (i === lines.length) return lists.every((l, q) => ps[q] === l.length); return lists.some((l, q) => ps[q] < l.length && l[ps[q]] === lines[i] && go(i + 1, ps.map((p, z) => z === q ? p + 1 : p))); };
  return go(0, lists.map(() => 0));
}
function judge(x, r) {
  if (r.status !== x.status) return `status ${r.status} instead of ${x.status}`;
  let lines = r.out.split('\n'); if (lines.pop() !== '') return 'output does not end with a line end';
  if (x.dis && x.loose) while (lines.length && x.loose.includes(lines[lines.length - 1])) lines.pop();
  if (x.dis) { const n = x.out.length + (x.tail ? x.tail.flat().length : 0); lines = [...lines.slice(0, x.pre), ...(n > x.pre ? lines.slice(-(n - x.pre)) : [])]; }
  const head = lines.slice(0, x.out.length), rest = lines.slice(x.out.length);
  if (head.length < x.out.length || x.out.some((w, i) => typeof w === 'string' ? w !== head[i] : !w.test(head[i]))) return 'output';
  if (x.tail ? !merged(rest, x.tail) : x.loose ? rest.some(l => !x.loose.includes(l)) : rest.length) return 'output of jobs';
  if (x.e && !r.err.includes(x.e)) return 'error not reported';
  if (x.err === false && r.err) return 'error text on success';
  if (x.err === true && !r.err && (x.e || x.err2)) return 'nothing reported';
  return null;
}
export async function main(tier) {
  const t0 = Date.now(); process.env.RATJS_EXE = '1'; const exe = path.join(path.dirname(buildVariant('plain')), 'ratjs_exe');
  fs.mkdirSync(OUT, { recursive: true }); const D = fs.mkdtempSync(path.join(OUT, 'C33-'));
  try {
    for (const [n, t] of Object.entries(FILES)) { fs.mkdirSync(path.dirname(path.join(D, n)), { recursive: true }); fs.writeFileSync(path.join(D, n), n.endsWith('.js') ? pz(t) : t); }
    const O = OPT(D), cases = [], Q = tier === 'quick';
    const ARGS = [[], ['x'], ['a b', '-c', 'h\u00e9', '', '--strict']];
    const fileOf = (mode, b, mn) => { const f = `${mode}_${b}_${mn}.js`, p = path.join(D, f); if (!fs.existsSync(p)) fs.writeFileSync(p, pz(BODY[b].t.startsWith('import') ? BODY[b].t + MAIN[mn].t : MAIN[mn].t + BODY[b].t)); return p; };
    const add = (mode, b, mn, on, args, rel) => {
      const B = BODY[b], M = MAIN[mn]; if ((B.m && mode !== 'm') || (M.m && mode !== 'm') || (M.s && mode === 'm')) return;
      const os = on.map(k => O[k]), hasM = os.some(o => o.w.includes(D + '/mods')); if (B.need === 'm' && !hasM) return; if (B.without === 'm' && hasM) return;
      if (os.some((o, k) => o.w[0] === '--' && (mode === 'e' || k < os.length - 1))) return; // the options end there
      if (mode === 'e' && !args.length && M.call && false) return;
      if (B.o.length === undefined && false) return;
      const words = os.flatMap(o => o.w);
      let argv, fa;
      if (mode === 'e') { argv = [...words, '-e', pz(MAIN[mn].t + B.t), ...args]; if (args[0] && args[0][0] === '-') argv.splice(argv.length - args.length, 0, '--'); } else { fa = rel ? path.relative(D, fileOf(mode, b, mn)) : fileOf(mode, b, mn); argv = [...(mode === 's' ? ['-s'] : []), ...words, fa, ...args]; }
      cases.push({ argv, x: expect(mode, B, M, os, args, fa), cls: `${mode} ${on.join('+')} ${b} ${mn}` });
    };
    const modes = ['m', 's', 'e'], some = ['plain', 'strict', 'jobs', 'throws', 'syntax', 'tla', 'imp', 'pkg', 'pkgm', 'impnone'], someMain = ['none', 'r3', 'thr', 'as4', 'jobs', 'asthr'];
    const withoutCompletion = b => b;
    for (const mode of modes) {
      for (const b in BODY) for (const mn in MAIN) { add(mode, b, mn, [], Q ? ['x'] : ARGS[0], Q); if (!Q) { add(mode, b, mn, [], ARGS[1]); add(mode, b, mn, [], ARGS[2], true); } }
      const base = ['strict', 'c', 'dump', 'm', 'i', 'l'];
      for (let s = 0; s < 64; s++) { const on = base.filter((_, k) => s >> k & 1); for (const b of Q ? some : Object.keys(BODY)) for (const mn of Q ? ['none', 'r3', 'asthr'] : someMain) add(mode, b, mn, on, ['x', 'y']); }
      for (const o in O) for (const b of Q ? some : Object.keys(BODY)) for (const mn of Q ? ['r3', 'asthr'] : Object.keys(MAIN)) { add(mode, b, mn, [o], ['z']); add(mode, b, mn, [o, 'strict'], []); if (!O[o].is) add(mode, b, mn, ['i', o], ['-q']); if (!Q) for (const o2 in O) if (someMain.includes(mn) && some.includes(b)) { add(mode, b, mn, [o, o2], ['1', '2']); } }
      for (const b of some) for (const a of ARGS) for (const mn of ['fn', 'as', 'bound']) add(mode, b, mn, [], a);
    }
    // files that are not there, no file at all, the two texts
    for (const w of [[], ['--strict'], ['-c'], ['-i', D + '/inc.js']]) { for (const s of [[], ['-s']]) cases.push({ argv: [...s, ...w, D + '/nothere.js', 'x'], x: { out: w[0] === '-i' ? ['inc'] : [], status: 1 }, cls: 'missing' }); cases.push({ argv: w, x: { out: w[0] === '-i' ? ['inc'] : [], status: 0, err: false }, cls: 'no file' }); }
    cases.push({ argv: ['--version'], x: { out: [/^\d+\.\d+\.\d+$/], status: 0, err: false }, cls: 'version' }); cases.push({ argv: ['-s'], x: { out: [], status: 0, err: false }, cls: 'no file' });
    for (const w of [['-e'], ['-m'], ['-i'], ['-l'], ['-d'], ['-q'], ['--wrong']]) cases.push({ argv: w, x: { out: [], status: 1 }, cls: 'bad option' });
    const run = c => new Promise(res => {
      const p = spawn(exe, c.argv, { cwd: D, stdio: ['ignore', 'pipe', 'pipe'], env: { PATH: '/usr/bin:/bin', LANG: 'C.UTF-8' } }); let out = [], err = []; const to = setTimeout(() => p.kill('SIGKILL'), 8000);
      p.stdout.on('data', d => out.push(d)); p.stderr.on('data', d => err.push(d)); p.on('close', (st, sig) => { clearTimeout(to); res({ status: sig || st, out: Buffer.concat(out).toString(), err: Buffer.concat(err).toString() }); });
    });
    const mism = [], outc = new Set(); let next = 0;
    await Promise.all(Array.from({ length: NPROC }, async () => {
      while (next < cases.length) { if (process.env.C33_DBG) console.error(cases[next].cls);
        const c = cases[next++]; let r = await run(c), w = judge(c.x, r); outc.add(r.status + ' ' + r.out);
        if (w) { r = await run(c); w = judge(c.x, r); }
        if (w) { const k = { kind: 'cli', src: JSON.stringify(c.argv.map(a => a.replaceAll(D, 'DIR'))) }; mism.push({ ...k, key: keyOf(k), cls: c.cls, want: JSON.stringify({ ...c.x, out: c.x.out.map(String) }), got: w + ': ' + JSON.stringify(r).replaceAll(D, 'DIR').slice(0, 600), alone: 'yes' }); }
      }
    }));
    const cov = { evaluations: cases.length, distinct_nontrivial: outc.size, rule: 'one case = one command line run as a process; exit status, standard output and whether an error is reported are compared with a model of the documented behaviour', distinct_outcomes: outc.size, exhaustive: true, bounds: `${Object.keys(BODY).length} programs x ${Object.keys(MAIN).length} main forms x 3 ways to load without options; all 64 subsets of 6 options, and every option (and pair in the thorough tier) x a selection of programs and main forms`, samples: cases.slice(0, 3).map(c => JSON.stringify(c.argv)) };
    const rc = report('C33', tier, mism, cov, t0, {});
    console.log(`C33 ${tier}: ${cases.length} command lines, ${outc.size} distinct outcomes, ${mism.length} mismatches (${((Date.now() - t0) / 1000).toFixed(1)} s)`);
    return rc;
  } finally { fs.rmSync(D, { recursive: true, force: true }); }
}
export default { id: 'C33', title: 'Command line', * gen() {} };
