// Jobs and the embedding stack: all small programs of jobs, drain points inside every kind of call, and histories of embedding calls.
import { P0 } from '../lib/prelude.mjs';
const PRE = P0 + String.raw`var CAP;function TH(n){throw n}`;
// ---- job programs -----------------------------------------------------------------------------------------------------------
// a body is a list of actions: ['D'] drain, ['X'] native call whose error is swallowed, ['N'] native call whose error passes through a try,
// ['Q', kind, body] start a job, ['T'] throw (last). Kinds: p reaction, t thenable, a continuation of an async function, n native job, u native job that ignores errors
const KINDS = ['p', 't', 'a', 'n'];
function* bodies(n, kinds, deep = 0) { // all bodies of exactly n actions
  if (n === 0) { yield []; return; }
  for (const a of ['D', 'X', 'N']) for (const r of bodies(n - 1, kinds, deep)) yield [[a], ...r];
  if (n === 1) yield [['T']];
  for (let k = 0; k <= n - 1; k++) for (const b of bodies(k, kinds, deep + 1)) for (const r of bodies(n - 1 - k, kinds, deep)) for (const q of kinds) yield [['Q', q, b], ...r];
}
function render(b, st) {
  let s = '';
  for (const a of b) {
    if (a[0] === 'D') s += `__jobs();__log(${st.id}.5);`.replace(st.id + '.5', '"' + st.cur + 'd"');
    else if (a[0] === 'X') s += `__log(__ncall(()=>TH("${st.cur}x"),1));`;
    else if (a[0] === 'N') s += `try{__ncall(()=>TH("${st.cur}n"),0)}catch(e){__log(e)}`;
    else if (a[0] === 'T') s += `throw "${st.cur}t";`;
    else {
      const id = ++st.id, save = st.cur; st.cur = 'j' + id; const body = `__log("j${id}");` + render(a[2], st); st.cur = save;
      s += { p: `Promise.resolve().then(()=>{${body}});`, t: `Promise.resolve({then(){${body}}});`, a: `(async()=>{await 0;${body}})();`, n: `__njob(()=>{${body}});`, u: `__ujob(()=>{${body}});` }[a[1]];
    }
  }
  return s;
}
function simulate(body) {
  const q = [], out = []; let id = 0;
  // ids are given in the order of the text, so number the tree first
  const num = b => b.map(a => a[0] === 'Q' ? (() => { const i = ++id; return ['Q', a[1], num(a[2]), i]; })() : a);
  const tree = num(body);
  const drain = () => { while (q.length) { const j = q.shift(); out.push('j' + j.id); const t = exec(j.body, 'j' + j.id); if (t && j.kind === 'n') out.push('!e'); } };
  const exec = (b, cur) => { for (const a of b) { if (a[0] === 'D') { drain(); out.push(cur + 'd'); } else if (a[0] === 'X') out.push(cur + 'x'); else if (a[0] === 'N') out.push(cur + 'n'); else if (a[0] === 'T') return cur + 't'; else q.push({ kind: a[1], body: a[2], id: a[3] }); } return null; };
  const t = exec(tree, 'm'); if (t) out.push('!throw ' + t);
  drain(); return out;
}
const str = v => v.startsWith('!') ? v + ';' : v + ';';
// ---- drain points: an expression around D() and what it logs -------------------------------------------------------------------
const POINTS = [
  ['try{try{throw 1}finally{D()}}catch(e){__log("c"+e)}', 'D c1'], ['(function(){try{return 1}finally{D()}})()', 'D'], ['__log((function(){try{return 1}finally{D()}})())', 'D 1'], ['for(let i of [1,2]){try{continue}finally{D()}}', 'D D'], ['l:{try{break l}finally{D()}}__log("b")', 'D b'],
  ['try{throw 1}catch(e){D();__log("c"+e)}', 'D c1'], ['__log(""+{toString(){D();return "s"}})', 'D s'], ['__log(+{valueOf(){D();return 3}})', 'D 3'], ['__log(`${{toString(){D();return "t"}}}`)', 'D t'], ['__log({get x(){D();return 4}}.x)', 'D 4'], ['({set x(v){D();__log(v)}}).x=5', 'D 5'],
  ['__log(new Proxy({},{get(){D();return 6}}).x)', 'D 6'], ['__log("q" in new Proxy({},{has(){D();return true}}))', 'D true'], ['__log(Object.keys(new Proxy({a:1},{ownKeys(){D();return ["a"]}}))+"")', 'D a'], ['__log(delete new Proxy({},{deleteProperty(){D();return true}}).x)', 'D true'],
  ['__log([3,1,2].sort((a,b)=>{if(a===3||b===3)D3();return a-b})+"")', null], ['__log([1].map(x=>{D();return x+1})+"")', 'D 2'], ['__log("ab".replace(/a/,()=>{D();return "z"}))', 'D zb'], ['__log(JSON.stringify({toJSON(){D();return 1}}))', 'D 1'], ['__log(JSON.parse("[1]",function(k,v){if(k==="0")D();return v})+"")', 'D 1'],
  ['for(let x of {[Symbol.iterator](){D();return [7].values()}})__log(x)', 'D 7'], ['for(let x of {[Symbol.iterator](){return {next(){D();return {done:true}}}}});__log("e")', 'D e'], ['for(let x of {[Symbol.iterator](){return {next(){return {value:1}},return(){D();return {}}}}})break;__log("e")', 'D e'], ['try{for(let x of {[Symbol.iterator](){return {next(){return {value:1}},return(){D();return {}}}}})throw 8}catch(e){__log(e)}', 'D 8'],
  ['let [a]={[Symbol.iterator](){return {next(){return {value:1,done:false}},return(){D();return {}}}}};__log(a)', 'D 1'], ['let {a=(D(),2)}={};__log(a)', 'D 2'], ['(function(a=D(),b=3){__log(b)})()', 'D 3'], ['class A{static{D();__log("s")}}', 'D s'], ['class A{x=(D(),1)};__log(new A().x)', 'D 1'], ['class A{constructor(){D();this.y=2}};class B extends A{constructor(){super();__log(this.y)}};new B', 'D 2'], ['class A{static [(D(),"k")]=4};__log(A.k)', 'D 4'],
  ['(function*(){D();yield 1})().next();__log("g")', 'D g'], ['var g=(function*(){try{yield 1}finally{D()}})();g.next();__log(g.return(5).value)', 'D 5'], ['var g=(function*(){try{yield 1}catch(e){D();yield e}})();g.next();__log(g.throw(6).value)', 'D 6'], ['__log([...(function*(){D();yield* [1,2]})()]+"")', 'D 1,2'], ['new Promise(()=>{D();__log("p")})', 'D p'], ['new Promise(()=>{D();throw 1}).catch(()=>{});__log("p")', null], ['(async()=>{D();__log("a")})()', 'D a'],
  ['__log(eval("D();9"))', 'D 9'], ['__log(new Function("D","D();return 9")(D))', 'D 9'], ['try{eval("D();throw 9")}catch(e){__log(e)}', 'D 9'], ['try{eval("let let")}catch(e){D();__log(e.name)}', 'D SyntaxError'], ['try{null.x}catch(e){D();__log(e.name)}', 'D TypeError'], ['(s=>{D();__log(s[0])})`w`', 'D w'], ['with({get q(){D();return 2}})__log(q)', 'D 2'], ['switch(1){case (D(),1):__log("k")}', 'D k'], ['__log(1 instanceof {[Symbol.hasInstance](){D();return true}})', 'D true'],
  ['__log(Reflect.apply(function(){D();return this.v},{v:3},[]))', 'D 3'], ['__log(Array.from({length:1},()=>{D();return 4})[0])', 'D 4'], ['__log(new Map([[1,2]]).forEach(()=>D()))', 'D undefined'], ['__log(__ncall(()=>{D();return 5},1))', 'D 5'], ['__log(__ncall(()=>{D();throw 5},1))', 'D 5'], ['try{__ncall(()=>{D();throw 5},0)}catch(e){__log(e)}', 'D 5'], ['try{__ncall(()=>{throw 5},0)}catch(e){D();__log(e)}', 'D 5'], ['__log(__ncall(()=>{try{throw 6}finally{D()}},1))', 'D 6'], ['__log(Symbol({toString(){D();return "d"}}).description)', 'D d'], ['__log(new Date({valueOf(){D();return 5}}).getTime())', 'D 5'], ['__log(parseInt({toString(){D();return "12"}}))', 'D 12'], ['__log("x".padEnd({valueOf(){D();return 3}},"-"))', 'D x--'], ['__log(new Uint8Array({length:{valueOf(){D();return 2}}}).length)', 'D 2'], ['__log([..."ab"].reduce((a,b)=>{D();return a+b}))', 'D ab'], ['__log(Object.assign({},{get a(){D();return 1}}).a)', 'D 1'], ['__log({...{get a(){D();return 1}}}.a)', 'D 1'], ['__log(((...a)=>a.length)(...{[Symbol.iterator]:function*(){D();yield 1}}))', 'D 1'],
];
// what may be waiting when the drain happens: text, log
const QUEUE = [
  ['', ''], ['Promise.resolve().then(()=>__log("q"));', 'q;'], ['Promise.resolve().then(()=>{__log("q");throw 1});', 'q;'], ['Promise.reject(1).catch(e=>__log("r"+e));', 'r1;'], ['__njob(()=>__log("n"));', 'n;'], ['__njob(()=>{__log("n");throw 2});', 'n;!e;'], ['__njob(()=>{__log("n");null.x});', 'n;!e;'], ['__njob(()=>{try{throw 3}catch(e){__log("k"+e)}});', 'k3;'], ['__njob(()=>{__njob(()=>__log("n2"));__jobs();__log("n")});', 'n2;n;'], ['(async()=>{await 1;__log("a");await 2;__log("b")})();', 'a;b;'],
  ['(async()=>{try{await Promise.reject(4)}catch(e){__log("e"+e)}finally{__jobs();__log("f")}})();', 'e4;f;'], ['(async function*(){__log("s");yield 1})().next().then(v=>__log(v.value));', 's;1;'], ['Promise.resolve({then(f){__log("t");f(5)}}).then(v=>__log(v));', 't;5;'], ['Promise.all([1,Promise.resolve(2)]).then(v=>__log(v+""));', '1,2;'], ['__njob(()=>{var g=(function*(){yield 1})();g.next();__log("g")});', 'g;'], ['__njob(()=>__log(__ncall(()=>{throw 6},1)));', '6;'], ['__njob(()=>{__eops("b");});', 'b:TypeError;'], ['__njob(()=>{eval("throw 1")});', '!e;'], ['__njob(()=>{(function f(n){if(n)f(n-1);else throw 1})(5)});', '!e;'],
];
const EMB = { a: 'ok', b: 'TypeError', c: 'SyntaxError', d: 'ok', e: 'ok', f: 'TypeError', g: '!noerr', h: 'ok', i: 'ok', j: 'RangeError', k: 'ReferenceError', l: 'ok', m: 'EvalError', n: 'TypeError', o: 'URIError', p: 'SyntaxError', q: 'ok', r: 'ok', s: 'TypeError', t: 'ReferenceError', u: 'SyntaxError', v: 'ok', w: 'ok', x: 'ok', y: 'ok', z: 'ok' };
function emb(ops) {
  let out = '', q = []; const drain = () => { for (const j of q) out += j; q = []; };
  for (const o of ops) { if (o === 'w') q.push('j1;'); if (o === 'x') q.push('j2;!e;'); if (o === 'y') drain(); out += o + ':' + EMB[o] + ';'; }
  return { out, drain: () => { out = ''; drain(); return out; } };
}
export default {
  id: 'C26', title: 'Jobs and embedding', reset: 200, prelude: PRE, async: true, shards: { thorough: 16 },
  rule: 'one case = one program of jobs (with drains, throws and native calls at every place), one drain point x waiting jobs, or one history of embedding calls; the log, value stack, context stack and pending error are compared with a model',
  bounds: { quick: 'all job programs of up to 4 actions (4 kinds of job); 65 drain points x 19 waiting jobs (pairs of them on a third); all histories of 3 of 26 embedding calls, at top level and inside a native call', thorough: 'job programs of up to 5 actions; drain points x pairs of waiting jobs; histories of 4 embedding calls' },
  * gen(tier) {
    const Q = tier === 'quick';
    for (let n = 1; n <= (Q ? 4 : 5); n++) for (const b of bodies(n, n === 5 ? ['p', 'n', 'a'] : KINDS)) {
      if (n >= 4 && !JSON.stringify(b).includes('"Q"')) continue;
      const st = { id: 0, cur: 'm' }, src = render(b, st); const out = simulate(b).map(str).join('');
      yield { kind: 's', parts: [['', src], ['', '__log("z");Promise.resolve().then(()=>__log("y"))']], src: '', want: out + '|z;y;', cls: 'jobs ' + n };
    }
    for (const [p, w] of POINTS) if (w) for (const [q1, l1] of QUEUE) for (const [q2, l2] of Q ? QUEUE.slice(0, 1).concat(QUEUE.filter((_, i) => i % 6 === 5)) : QUEUE) {
      // waiting jobs of two kinds interleave: the order of their logs is judged only when one of them logs once
      const many = s => s.split(';').length > 2; let logs = l1 + l2;
      const multi = q => q && !/^(Promise\.resolve\(\)\.then|__njob)/.test(q);
      if (q2 && (many(l1) || many(l2) || multi(q1) || multi(q2)) && !(/^__njob/.test(q1) && /^__njob/.test(q2))) continue;
      if (/^n2;/.test(l1) && q2) continue;
      let first = true; const want = w.split(' ').map(t => t === 'D' ? (first ? (first = false, logs) : '') : t + ';').join('');
      yield { kind: 's', src: '', parts: [['', `{let D=()=>{__jobs()};${q1}${q2}${p}}`], ['', '__log("z");Promise.resolve().then(()=>__log("y"))']], want: want + '|z;y;', cls: 'drain point' };
    }
    const ops = Object.keys(EMB);
    const words = function* (n) { if (!n) { yield ''; return; } for (const w of words(n - 1)) for (const o of ops) yield w + o; };
    for (let n = 1; n <= (Q ? 3 : 4); n++) for (const w of words(n)) {
      { const e = emb(w), o = e.out; yield { kind: 'e', src: w, want: o + '|' + e.drain(), cls: 'embedding ' + n }; }
      if (n < 4) { const e = emb(w), o = e.out; yield { kind: 's', src: `__log("<");try{__eops("${w}")}catch(e){__log("!"+e)}__log(">")`, want: '<;' + o + '>;' + e.drain(), cls: 'embedding in call ' + n }; }
    }
  },
};
