// Weak references and finalization: bounded histories over a small heap, compared with an explicit reachability model.
import { P0 } from '../lib/prelude.mjs';
const PRE = P0 + String.raw`
var R=[],WR=[],M=new WeakMap,MM=[new WeakMap,new WeakMap],WS=new WeakSet,TOK=[],CALLS=[];
var F=new FinalizationRegistry(function(h){CALLS.push(typeof h==="object"&&h!==null?"o"+h.id:String(h))});
function mk(i){return {id:i}}
function INIT(n,f){for(var i=0;i<n;i++){R[i]=(f||mk)(i);WR[i]=new WeakRef(R[i]);TOK[i]={}}}
function FL(){try{throw 0}catch(e){}} // the engine may keep the environment of the last call and the last error
function LIVE(m){for(var i=0;i<m.length;i++)if(m[i]!=="?"){var d=WR[i].deref();__log(i+(d===undefined?"-":"+"))}}
function CK(m,w){LIVE(m);var c=CALLS.filter(function(x){return w.indexOf(x)>=0}).sort();__log("F["+c+"]")}
`;
// ---- the model -------------------------------------------------------------------------------------------------------
class Model {
  constructor(n) {
    this.n = n; this.st = Array(n).fill('+'); // + live, ? unreachable but not collected yet, - collected
    this.root = Array(n).fill(true); this.link = []; this.wm = []; this.reg = []; this.ws = new Set(); this.kept = new Set(Array.from({ length: n }, (_, i) => i)); this.calls = []; this.mask = new Set();
  }
  reach(kept) {
    const s = new Set(); for (let i = 0; i < this.n; i++) if (this.root[i]) s.add(i);
    if (kept) for (const k of this.kept) s.add(k);
    for (const r of this.reg) if (r.held !== null) s.add(r.held);
    for (let ch = true; ch;) { ch = false; for (const [i, j] of [...this.link, ...this.wm]) if (s.has(i) && !s.has(j)) { s.add(j); ch = true; } }
    return s;
  }
  settle(kept) { const s = this.reach(kept); for (let i = 0; i < this.n; i++) if (this.st[i] !== '-') this.st[i] = s.has(i) ? '+' : '?'; }
  endScript() { this.kept.clear(); this.settle(false); }
  // a collection in a script of its own, then the jobs, until nothing changes any more
  gc() {
    this.settle(true);
    const dead = []; for (let i = 0; i < this.n; i++) if (this.st[i] === '?') { this.st[i] = '-'; dead.push(i); }
    this.link = this.link.filter(([i]) => this.st[i] !== '-'); this.wm = this.wm.filter(([i]) => this.st[i] !== '-');
    const out = this.reg.filter(r => this.st[r.t] === '-'); this.reg = this.reg.filter(r => this.st[r.t] !== '-');
    for (const r of out) this.calls.push(r.held !== null ? 'o' + r.held : r.tag);
    return dead;
  }
}
// ---- operations: text and effect; undefined when the operation makes no sense in this state --------------------------------
const has = (m, i) => m.root[i] && m.st[i] === '+';
const OPS = {
  drop: (m, i) => { if (!m.root[i]) return; m.root[i] = false; return `R[${i}]=undefined`; },
  link: (m, i, j) => { if (!has(m, i) || !has(m, j) || m.link.some(e => e[0] === i)) return; m.link.push([i, j]); return `R[${i}].p=R[${j}]`; },
  unlink: (m, i) => { if (!has(m, i) || !m.link.some(e => e[0] === i)) return; m.link = m.link.filter(e => e[0] !== i); return `delete R[${i}].p`; },
  wm: (m, i, j) => { if (!has(m, i) || !has(m, j)) return; m.wm = m.wm.filter(e => e[0] !== i); m.wm.push([i, j]); return `M.set(R[${i}],R[${j}])`; },
  wmdel: (m, i) => { if (!has(m, i) || !m.wm.some(e => e[0] === i)) return; m.wm = m.wm.filter(e => e[0] !== i); return `__log(M.delete(R[${i}]))`; },
  wmget: (m, i) => { const e = m.wm.find(e => e[0] === i); if (!has(m, i) || !e) return; m.root[e[1]] = true; return `R[${e[1]}]=M.get(R[${i}])`; },
  ws: (m, i) => { if (!has(m, i) || m.ws.has(i)) return; m.ws.add(i); return `WS.add(R[${i}])`; },
  fr: (m, i) => { if (!has(m, i)) return; const tag = 't' + i + m.reg.filter(r => r.t === i).length; m.reg.push({ t: i, held: null, tag, tok: i }); return `F.register(R[${i}],"${tag}",TOK[${i}])`; },
  frself: (m, i) => { if (!has(m, i)) return; const tag = 's' + i; if (m.reg.some(r => r.tag === tag)) return; m.reg.push({ t: i, held: null, tag, tok: 'o' + i }); return `F.register(R[${i}],"${tag}",R[${i}])`; },
  frheld: (m, i, j) => { if (i === j || !has(m, i) || !has(m, j) || m.reg.some(r => r.t === i && r.held === j)) return; m.reg.push({ t: i, held: j, tag: null, tok: null }); return `F.register(R[${i}],R[${j}])`; },
  unreg: (m, i) => { if (m.st[i] === '?' || m.mask.size) return; const n = m.reg.length; m.reg = m.reg.filter(r => r.tok !== i); m.say(String(n !== m.reg.length)); return `__log(F.unregister(TOK[${i}]))`; },
  unregself: (m, i) => { if (!has(m, i)) return; const n = m.reg.length; m.reg = m.reg.filter(r => r.tok !== 'o' + i); m.say(String(n !== m.reg.length)); return `__log(F.unregister(R[${i}]))`; },
  deref: (m, i) => { if (m.st[i] === '?' || m.root[i]) return; if (m.st[i] === '+') { m.root[i] = true; m.kept.add(i); } return `R[${i}]=WR[${i}].deref()`; },
  touch: (m, i) => { if (m.st[i] !== '+') return; m.kept.add(i); m.say(String(m.st[i] === '+')); return `__log(WR[${i}].deref()!==undefined)`; },
};
const SELF = ['wmdel'];
function run(n, hist, flav) {
  const m = new Model(n), parts = [], want = []; let cur = ''; m.say = s => { cur += s + ';'; };
  const check = (inScript) => {
    for (let i = 0; i < n; i++) if (m.st[i] !== '?') { cur += i + m.st[i] + ';'; if (m.st[i] === '+') m.kept.add(i); }
    // calls still open (target unreachable, not collected) are not looked at
    const open = new Set(m.reg.filter(r => m.st[r.t] === '?').map(r => r.held !== null ? 'o' + r.held : r.tag));
    const all = new Set([...m.calls, ...m.reg.map(r => r.held !== null ? 'o' + r.held : r.tag)]); const w = [...all].filter(x => !open.has(x));
    cur += 'F[' + m.calls.filter(x => !open.has(x)).sort() + '];';
    return `CK(${JSON.stringify(m.st)},${JSON.stringify(w)})`;
  };
  const end = t => { parts.push(['', t]); want.push(cur); cur = ''; m.endScript(); };
  end(`INIT(${n}${flav ? ',' + flav : ''})`);
  for (const [op, i, j, g] of hist) {
    if (op === 'gc') { end('FL();__gc()'); /* jobs of the collection run now */ m.gc(); m.settle(false); end('FL();__gc()'); m.gc(); m.settle(false); end(check()); continue; }
    const t = (Array.isArray(i) ? null : OPS[op](m, i, j)); if (t === undefined) return null;
    if (op === 'wmdel') cur += 'true;';
    m.settle(true);
    if (g) { // a collection inside the script: whatever is reachable or was looked at by this script must survive
      const c = check(); end(t + ';__gc();' + c);
    } else end(t);
  }
  return { src: '', kind: 'S', parts, want: want.join('|') };
}
function* canon(n, ops, depth, pre = []) { // histories up to renaming of the objects: a new object is always the next one
  yield pre; if (pre.length === depth) return;
  const used = new Set(pre.flatMap(([, i, j]) => [i, j]).filter(x => typeof x === 'number')).size;
  for (const [op, ar, g] of ops) {
    if (ar === 0) { if (pre.length && pre[pre.length - 1][0] === 'gc') continue; for (const h of canon(n, ops, depth, [...pre, [op]])) yield h; continue; }
    for (let i = 0; i < Math.min(n, used + 1); i++) {
      if (ar === 1) { for (const h of canon(n, ops, depth, [...pre, [op, i, undefined, g]])) yield h; continue; }
      const u2 = i === used ? used + 1 : used;
      for (let j = 0; j < Math.min(n, u2 + 1); j++) { for (const h of canon(n, ops, depth, [...pre, [op, i, j, g]])) yield h; }
    }
  }
}
function* graphs(n, ne) { // all edge sets up to ne edges, up to renaming
  const E = []; for (let i = 0; i < n; i++) for (let j = 0; j < n; j++) for (const k of ['link', 'wm', 'frheld']) if (k !== 'frheld' || i !== j) E.push([k, i, j]);
  const perms = []; const pm = (a, r) => { if (!r.length) perms.push(a); r.forEach((x, k) => pm([...a, x], r.filter((_, q) => q !== k))); }; pm([], Array.from({ length: n }, (_, i) => i));
  const idx = new Map(E.map((e, k) => [e.join(), k]));
  function* sub(from, pre) {
    yield pre; if (pre.length === ne) return;
    for (let k = from; k < E.length; k++) {
      const [kd, i] = E[k]; if (kd !== 'frheld' && pre.some(p => E[p][0] === kd && E[p][1] === i)) continue;
      yield* sub(k + 1, [...pre, k]);
    }
  }
  for (const s of sub(0, [])) for (let drop = 1; drop < 1 << n; drop++) {
    const key = (s, d) => s.join() + '/' + d, me = [s, drop];
    let min = true;
    for (const p of perms) {
      const s2 = s.map(k => idx.get([E[k][0], p[E[k][1]], p[E[k][2]]].join())).sort((a, b) => a - b); let d2 = 0; for (let i = 0; i < n; i++) if (drop >> i & 1) d2 |= 1 << p[i];
      const a = s2.concat(d2), b = s.concat(drop); let c = 0; for (let q = 0; q < a.length && !c; q++) c = a[q] - b[q]; if (c < 0) { min = false; break; }
    }
    if (min) yield [s.map(k => E[k]), drop];
  }
}
// ways to hold an object other than a variable: [set up, holder], each with ways to let go
const HOLD = [
  ['H={a:o}', ['delete H.a', 'H.a=1']], ['H=[o]', ['H.pop()', 'H.length=0', 'H[0]=0', 'H.shift()', 'H.splice(0,1)', 'H.fill(0)', 'H.reverse();H.length=0']], ['H=[,,o]', ['H.length=1', 'delete H[2]', 'H.copyWithin(2,0,1)']],
  ['H=function(){return o}', []], ['H=()=>o', []], ['H=Object.create(o)', ['Object.setPrototypeOf(H,null)']], ['H=new Map([[o,1]])', ['H.clear()', 'H.delete([...H.keys()][0])']], ['H=new Map([[1,o]])', ['H.clear()', 'H.delete(1)', 'H.set(1,2)']],
  ['H=new Set([o])', ['H.clear()', 'H.delete([...H][0])', 'H.forEach(x=>H.delete(x))']], ['H=(function(x){return x}).bind(o)', []], ['H=(function(x){return x}).bind(null,o)', []], ['H=new Proxy(o,{})', []], ['H=Proxy.revocable(o,{})', ['H.revoke()']], ['H=Proxy.revocable({},o)', ['H.revoke()']],
  ['H=Promise.resolve(o)', []], ['H=Promise.reject(o);H.catch(()=>{})', []], ['H=new Promise(()=>{});H.then(()=>o)', []], ['var r;H=new Promise(f=>{r=f});H2=r;H.then(()=>o);r=null', ['H2(1)']], ['H=(function*(){yield 1;yield o})();H.next()', []],
  ['H=(function*(x){yield 1})(o)', []], ['H=(async function*(){yield 1;yield o})();H.next()', []], ['var rr;H={p:(async function(){await new Promise(f=>{rr=f});return [o]})(),r:rr};rr=null', []],
  ['H={get a(){return o}}', ['delete H.a', 'Object.defineProperty(H,"a",{value:1})', 'Object.defineProperty(H,"a",{get:undefined})']], ['H={set a(v){o}}', ['delete H.a']], ['H={[Symbol.iterator]:o}', ['delete H[Symbol.iterator]']],
  ['H=new (class{#x=o})', []], ['H=new (class{#x=o;m(){this.#x=0}})', []], ['H=class{static #x=o}', []], ['H=class{static x=o}', ['delete H.x', 'H.x=1']], ['H=new (class{get #x(){return o}})', []], ['H=class{m(){return o}}', []],
  ['H=(function(){return arguments})(o)', []], ['H=(function(a){return arguments})(o)', []], ['H=[o].values()', []], ['H=new Map([[1,o]]).values()', []], ['H=new Set([o]).entries()', []],
  ['H=new Error("x",{cause:o})', ['delete H.cause']], ['H=new AggregateError([o])', ['H.errors=1']], ['H=/a/;H.lastIndex=o', ['H.lastIndex=0']], ['H=Object(1);H.x=o', ['delete H.x']], ['H=new Date(0);H.x=o', ['delete H.x']], ['H=new ArrayBuffer(8);H.x=o', ['delete H.x']],
  ['H=function(){};H.prototype=o', []], ['H=new WeakRef({});H.x=o', ['delete H.x']], ['H=new FinalizationRegistry(()=>o)', []], ['H={};H[Symbol.for("q")]=o', ['delete H[Symbol.for("q")]']],
  ['H=eval("var q=o;()=>q")', []], ['H=new Function("o","return ()=>o")(o)', []], ['H={a:{b:{c:[[[o]]]}}}', ['H.a.b.c=1', 'H.a.b.c[0][0]=1', 'delete H.a.b']], ['H={};H.h=H;H.o=o', []], ['H=[];H.push({h:H,o:o})', []], ['{let q=o;H=[()=>q,v=>{q=v}]}', []],
  ['for(let q=o;;){H=()=>q;break}', []], ['try{throw o}catch(q){H=()=>q}', []], ['H=(function(a=o,b=()=>a){return b})()', []], ['H=(function(...a){return ()=>a})(o)', []], ['H=(({a})=>()=>a)({a:o})', []], ['H=(x=>()=>arguments)', null], ['H=(function(){return ()=>this}).call(o)', []], ['H=(function(){return ()=>arguments})(o)', []],
  ['H=(function(){return ()=>new.target}).bind()()', null], ['H=Reflect.construct(function(){return ()=>new.target},[],(()=>{var f=function(){};f.x=o;return f})())', []], ['H=(function f(){return ()=>f});H.x=o', []], ['H=class{static{this.f=()=>o}}', ['delete H.f']], ['H=Array.from({length:40},(_,i)=>({i}));H[39].o=o', ['H[39]=0', 'H.length=39']],
  ['H={};for(let i=0;i<40;i++)H["k"+i]=i;H.k20=o', ['H.k20=0', 'delete H.k20', 'for(let k in H)delete H[k]']], ['H=new Map;for(let i=0;i<40;i++)H.set(i,i===20?o:i)', ['H.delete(20)', 'H.clear()', 'for(let k of H.keys())H.delete(k)']], ['H=Object.freeze([o])', []], ['H=Object.freeze({a:o})', []],
  ['H=(async()=>{for await(let q of [new Promise(()=>{})])o})', null], ['H=(function*(){yield* (function*(){yield 1;o})()})();H.next()', []], ['H=(function*(){try{yield 1}finally{yield o}})();H.next()', []], ['H=[1].map(()=>o)', ['H[0]=1']],
  ['H=new (class extends Array{constructor(){super();this.o=o}})', []], ['H={__proto__:{__proto__:o}}', ['H=Object.setPrototypeOf(H,null)']], ['H=new Proxy({o:o},{})', ['delete H.o', 'H.o=1']], ['H=Object.defineProperty({},"a",{value:o})', []], ['H=Object.defineProperty({},"a",{value:o,configurable:true})', ['delete H.a']],
  ['H=Promise.all([o,new Promise(()=>{})])', null], ['H=(f=>f`${0}`)(s=>s)', null], ['H=new (function(){return o.constructor},Object);H.o=o', ['delete H.o']], ['with({o:o}){H=()=>o}', []], ['with(o){H=()=>id}', []], ['H=[].concat([o])', ['H.shift()']], ['H=new WeakMap([[TOK[0],o]])', ['H.delete(TOK[0])', 'TOK[0]=null']], ['H=new FinalizationRegistry(()=>{});H.register(TOK[0],o)', null], ['H=structuredClone', null],
];
const FLAV = { fn: 'i=>function(){return i}', arrow: 'i=>()=>i', arr: 'i=>[i]', sym: 'i=>Symbol(i)', map: 'i=>new Map', proxy: 'i=>new Proxy({},{})', cls: 'i=>class{}', gen: 'i=>(function*(){yield i})()', prom: 'i=>Promise.resolve(i)', err: 'i=>new Error', bound: 'i=>(function(){}).bind()', wr: 'i=>new WeakRef({})', wm: 'i=>new WeakMap', re: 'i=>/a/', ta: 'i=>new Uint8Array(4)', ab: 'i=>new ArrayBuffer(8)', date: 'i=>new Date', strobj: 'i=>Object("s")', args: 'i=>(function(){return arguments})()', it: 'i=>[][Symbol.iterator]()', async: 'i=>async function(){}', meth: 'i=>({m(){}}).m', big: 'i=>Array(100).fill(i)', fr: 'i=>new FinalizationRegistry(()=>{})', realm: 'i=>__realm()', cyc: 'i=>{let o={};o.o=o;return o}', deep: 'i=>{let o={};for(let k=0;k<2000;k++)o={o};return o}', native: 'i=>Object.create(Math)' };
export default {
  id: 'C23', title: 'Weak references', reset: 1, prelude: PRE, async: true,
  rule: 'one case = one history of operations on a small heap, each operation a script of its own (with or without a collection inside it); the observed liveness (deref), WeakMap contents and finalization callbacks are compared with an explicit reachability model',
  bounds: { quick: 'all edge sets of up to 2 edges (link, WeakMap entry, registration holding a value) on 3 objects x all drop sets x 7 follow-ups; all operation histories of depth 3 up to renaming, with and without a collection inside each operation; 90 ways to hold an object x ways to let go; 28 kinds of target', thorough: 'edge sets of up to 3 edges on 3 objects (2 on 4); histories of depth 4' },
  * gen(tier) {
    const Q = tier === 'quick';
    const dflt = [['fr', 0], ['fr', 1], ['fr', 2]];
    const follow = [[], [['drop', 0], ['gc']], [['drop', 1], ['gc']], [['drop', 2], ['gc']], [['drop', 0], ['drop', 1], ['drop', 2], ['gc']], [['unreg', 0], ['drop', 0], ['gc']], [['deref', 0], ['gc'], ['drop', 0], ['gc']], [['wmget', 0], ['gc'], ['drop', 0], ['gc']]];
    for (const [n, ne] of Q ? [[3, 2]] : [[3, 3], [4, 2]])
      for (const [es, d] of graphs(n, ne)) for (const f of follow) for (const reg of f.length < 2 ? [dflt, []] : [dflt]) {
        const h = [...reg, ...es]; for (let i = 0; i < n; i++) if (d >> i & 1) h.push(['drop', i]); h.push(['gc'], ...f);
        const c = run(n, h); if (c) yield { ...c, cls: 'graph ' + es.map(e => e[0]).join('+') };
      }
    const ops = []; for (const [o, a] of [['drop', 1], ['link', 2], ['unlink', 1], ['wm', 2], ['wmdel', 1], ['wmget', 1], ['ws', 1], ['fr', 1], ['frself', 1], ['frheld', 2], ['unreg', 1], ['unregself', 1], ['deref', 1], ['touch', 1]]) ops.push([o, a, 0], [o, a, 1]);
    ops.push(['gc', 0]);
    for (const h of canon(3, ops, Q ? 3 : 4)) if (h.length && h[h.length - 1][0] !== 'gc') {
      let c = run(3, [...h, ['gc']]); if (c) yield { ...c, cls: 'history ' + h.length };
      if (h.length < 3) for (const fin of [[['drop', 0], ['gc']], [['drop', 0], ['drop', 1], ['drop', 2], ['gc']], [['fr', 0], ['drop', 0], ['gc'], ['unreg', 0]]]) { c = run(3, [...h, ['gc'], ...fin]); if (c) yield { ...c, cls: 'history ' + h.length + '+' }; }
    }
    // other ways to hold an object
    for (const [set, rel] of HOLD) if (rel) for (const r of ['', ...rel, 'H=null;H2=null']) {
      const p = [`INIT(1);F.register(R[0],"t")`, `var H,H2;(function(o){${set}})(R[0]);R[0]=null`, 'FL();__gc()', 'FL();__gc()', 'CK(["+"],["t"])'];
      let w = '||||0+;F[];';
      if (r) { p.push(r, 'FL();__gc()', 'FL();__gc()', 'CK(["-"],["t"])'); w += '||||0-;F[t];'; p.push('H=1;H2=1;__gc()', 'CK(["-"],["t"])'); w += '||0-;F[t];'; }
      yield { src: '', kind: 'S', parts: p.map(x => ['', x]), want: w, cls: 'hold' };
    }
    // kinds of target
    for (const [k, f] of Object.entries(FLAV)) {
      for (const h of [[['fr', 0], ['drop', 0], ['gc']], [['fr', 0], ['gc'], ['drop', 0], ['gc']], [['wm', 0, 0], ['fr', 0], ['gc'], ['drop', 0], ['gc']], [['wm', 0, 1], ['drop', 1], ['gc'], ['drop', 0], ['gc']], [['ws', 0], ['drop', 0], ['gc']], [['frself', 0], ['unregself', 0], ['drop', 0], ['gc']], [['frself', 0], ['drop', 0], ['gc']], [['drop', 0, undefined, 1], ['gc']], [['drop', 0], ['touch', 1, undefined, 1], ['gc']],
        [['frheld', 0, 1], ['drop', 1], ['gc'], ['drop', 0], ['gc'], ['gc']]]) {
        if (h.some(x => x[0] === 'frheld') && !['arr'].includes(k)) continue;
        let c = run(2, h, f.replace('i=>[i]', 'i=>{var a=[i];a.id=i;return a}')); if (c) yield { ...c, cls: 'target ' + k };
      }
    }
  },
};
