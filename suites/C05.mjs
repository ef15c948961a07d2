// Iterator protocol and destructuring: every consumer against an instrumented iterator with a fault at every step.
import { P0, product, seqs, seqsUpTo } from '../lib/prelude.mjs';
const steps = n => ['gi', 'ci', 'gn', ...Array.from({ length: n + 1 }, (_, i) => ['n' + i, 'd' + i, 'v' + i]).flat(), 'gr', 'cr'];
const kinds = { gi: 'tuz1sof', ci: 'tu1sof', gn: 'tuzof', n: 'tuz1sof', d: 'tu1so', v: 'tuzo', gr: 'tuz1of', cr: 'tuz1sof' };
const faults = (n, only) => steps(n).flatMap(s => [...(kinds[s] || kinds[s[0]])].filter(k => !only || only.includes(k)).map(k => s + ':' + k));
// consumers: B is replaced by the body
const forofs = ['for(const x of I){B}', 'for(let x of I){B}', 'for(var x of I){B}', 'for(x of I){B}', 'for(tg().p of I){B}', 'for([x] of I){B}', 'for(const [x=D("d")] of I){B}', 'for(const {length:x} of I){B}', 'o:for(const x of I){for(const y of J()){B}}', 'o:for(const y of J()){for(const x of I){B}}', 'for(st().p of I){B}', 'for(const x of I)try{B}finally{L("f")}', 'try{for(const x of I){B}}finally{L("f")}', 'for(const x of I){try{B}catch(e){L("c");L(e)}}'];
const bodies = ['L(x)', 'L(x);break', 'L(x);continue', 'L(x);return "R"', 'L(x);throw "T"', 'L(x);break o', 'L(x);continue o', 'L(x);if(k++)break', 'L(x);if(k++)throw "T2"', 'L(x);if(k++)return "R2"', 'x=1'];
const plain = ['return [...I]', 'return [0,...I,1]', 'return [...I,...I]', 'f(...I)', 'f(0,...I,L("a"))', 'return new f(...I)', 'class Z extends f{constructor(){super(...I)}};new Z', '`${[...I]}`', 'o2.m(...I)', 'o2?.m(...I)', 'eval(...I)',
  'return Array.from(I)', 'return Array.from(I,(x,i)=>(L(x),i))', 'return Array.from(I,x=>{throw "M"})', 'return Array.from.call(function(){return tr()},I)', 'return Array.from.call(f,I)', 'return Array.from.call(function(){throw "C"},I)', 'return Array.from.call(function(){return Object.freeze({})},I)', 'return Array.from.call(function(){return Object.defineProperty([],"length",{writable:false})},I)',
  'return [...new Set(I)]', 'return new Set(I).size', 'var s=Set.prototype.add;Set.prototype.add=function(x){L(x);throw "A"};try{new Set(I)}finally{Set.prototype.add=s}', 'return new WeakSet(I) instanceof WeakSet', 'return Object.fromEntries(I)', 'return new Map(I).size', 'return new WeakMap(I) instanceof WeakMap', 'return Array.from(new Uint8Array(I))', 'return Array.from(Uint8Array.from(I))', 'return Array.from(Uint8Array.from(I,x=>{L(x);return 7}))', 'return new Float64Array(I).length', 'return new AggregateError(I).errors', 'return new AggregateError(I,{toString(){throw "m"}}).errors',
  'Promise.all(I).then(P("r"),P("e"))', 'Promise.race(I).then(P("r"),P("e"))', 'Promise.any(I).then(P("r"),P("e"))', 'Promise.allSettled(I).then(P("r"),P("e"))',
  ...['all', 'race', 'any', 'allSettled'].flatMap(m => [`Promise.${m}.call(PR("resolve"),I)`, `Promise.${m}.call(PR("then"),I)`, `Promise.${m}.call(PR("getres"),I)`, `Promise.${m}.call(PR("noncall"),I)`, `Promise.${m}.call(PR("rejthrow"),I)`]),
  'var g=(function*(){return yield* I})();for(var i=0;i<4;i++)L(g.next(i))', 'var g=(function*(){return yield* I})();L(g.next());L(g.return(5));L(g.next())', 'var g=(function*(){try{return yield* I}catch(e){L("c");L(e);return 8}})();L(g.next());L(g.throw(5));L(g.next())',
  'var [a]=I;return a', 'var [,a]=I;return a', 'var [...a]=I;return a', 'var [a,...b]=I;return b', 'var []=I', 'var [,]=I', '[]=I', 'var {}=I', '({}=I)', 'return (([a,b])=>a+b)(I)', 'return (function([a],b=L(a)){return b})(I)', 'try{throw I}catch([a,b]){return [a,b]}', 'for(var [a,b] of [I])return [a,b]', 'for(const [a,b]=I,c=L(a);;)return c', 'return (([a,[b]])=>a)(I)', 'return [[a,b]=I,a]', '[a,a]=I;return a', '[...a]=I;return a', '[[a]]=I', 'let [u=u2,u2]=I', 'let [u,w=u]=I;return w', 'class Q{[[...I].length](){}};return Reflect.ownKeys(Q.prototype).length', 'for(var [a=L("init")] in {z:1})return a', 'async function q([a]){return a}q(I).then(P("r"),P("e"))', 'async function q([a]){return a}try{q(I)}catch(e){L("sync")}', 'function*q([a]){yield a}L(q(I).next())', 'var g=(function*(){var [a=yield "y",b]=I;return [a,b]})();L(g.next());L(g.next("s"));', 'var g=(function*(){[tg()[yield "y"],b]=I})();L(g.next());L(g.return("s"));L(g.next())', 'var g=(function*(){[tg()[yield "y"],b]=I})();L(g.next());try{L(g.throw("s"))}catch(e){L(e)}', 'var g=(function*(){for(var x of I)yield x})();L(g.next());L(g.return(6));L(g.next())', 'var g=(function*(){for(var x of I)yield x})();L(g.next());L(g.throw(6))', 'var g=(function*(){[...tg()[yield "y"]]=I})();L(g.next());L(g.return("s"))'];
// array pattern elements in assignment form (A) and binding form (B)
const elA = ['', 'a', 'a=D("d")', 'tg().p', 'tg().p=D("d")', 'tg()[L("k")]', '[b]', '[b]=[D("e")]', '{c}', '{length:c=D("f")}={}', 'th().p', 'st().p', 'a=DT()', 'un.x', 'tk()[DT()]', '(a)', 'fn=function(){}', 'this.zz'];
const restA = ['...a', '...tg().p', '...[a,b]', '...[...c]', '...{length:a}', '...th().p', '...st().p'];
const elB = ['', 'a$', 'a$=D("d")', '[b$]', '[b$]=[D("e")]', '{c$}', '{length:c$=D("f")}={}', 'a$=DT()', 'fn$=()=>1', '[]', '{}', '[[b$]=[]]=D("g")'];
const restB = ['...a$', '...[a$]', '...[...a$]', '...{length:a$}', '...[]'];
// object pattern properties
const opA = ['a', 'a=D("d")', 'p:a', 'p:tg().p', 'p:tg()[L("k")]=D("d")', '[K("p")]:a', '[K("p")]:tg().p', '[TK()]:a', 'p:[b]', 'q:{c}', 'q:{c}={c:D("e")}', '"s":a', '1:a', 'p:th().p', 'p:st().p', 'u:a=DT()', 'u:un.x', '[Symbol.iterator]:a', 'fn=function(){}'];
const oprA = ['...r', '...tg().p'];
const opB = ['a$', 'a$=D("d")', 'p:b$', '[K("p")]:b$', '[TK()]:b$', 'p:[b$]', 'q:{c$}', 'q:{c$}={c:D("e")}', '"s":b$', '1:b$', 'u:b$=DT()', '[Symbol.iterator]:b$', 'fn$=class{}', 'p:{}', 'u:{}', 'u:[]={}'];
const oprB = ['...r$'];
const num = l => l.map((e, i) => e.replace(/\$/g, i));
const srcs = ['PX()', '{get p(){L("gp");return [5]},q:{c:1},s:2,1:3,a:4}', 'null', 'undefined', '5', '"str"', 'Object.create({a:1,p:[2]},{h:{value:1}})', '{p:null,q:undefined,u:undefined}', '[1,2]', 'new Proxy({},{get(t,k){throw "G"}})', 'new Proxy({b:1},{ownKeys(){throw "O"}})'];
export default {
  id: 'C05', level: 'exploration', reset: 300, async: true, variants: ['plain'],
  rule: 'one case = one consumer or pattern with one source, item count and fault; all distinct; non-trivial: all that the reference accepts as valid programs',
  trivial: (c, w) => w.startsWith('!SyntaxError'),
  prelude: P0 + String.raw`
function It(n,F,vals){var p=(F||"").split(":"),fs=p[0],fk=p[1],k=0,m=0;
 function at(s,v){L(s);if(m++>400)throw "runaway";if(s!==fs)return v;switch(fk){case "t":throw "X"+s;case "u":return undefined;case "z":return null;case "1":return 1;case "s":return "str";case "o":return {};case "f":return function(){L("ff");return {done:k++>3}}}}
 function res(i,d){return{get done(){return at("d"+i,d)},get value(){return at("v"+i,vals?vals[i]:i+10)}}}
 var it={get next(){return at("gn",function(){var i=k++;L("a"+arguments.length);return at("n"+i,res(i,i>=n))})},
  get return(){return at("gr",function(){L("ra"+arguments.length+(this===it));return at("cr",{get done(){L("rd");return true},get value(){L("rv");return "rval"}})})},
  get throw(){L("gt");return function(x){L(x);return {done:true,value:"tv"}}}};
 return {get [Symbol.iterator](){return at("gi",function(){L("i"+arguments.length);return at("ci",it)})}};
}
function J(){var i=0;return{[Symbol.iterator](){return this},next(){return{value:i,done:i++>=2}},return(){L("Jr");return{}}}}
function D(s){L(s);return 77} function DT(){L("DT");throw "DTx"} function K(k){return{toString(){L("K"+k);return k}}} function TK(){L("TK");return{toString(){L("TKs");throw "TKx"}}}
function tg(){L("tg");return{set p(v){L("=p");L(v)},set k(v){L("=k");L(v)},set y(v){L(v)}}} function tk(){L("tk");return{}} function th(){L("th");throw "thx"} function st(){L("st");return{set p(v){L("stp");throw "stx"}}}
function tr(){return new Proxy({},{defineProperty(t,k,d){L(String(k));return Reflect.defineProperty(t,k,d)},set(t,k,v){L(String(k)+"=");return Reflect.set(t,k,v)}})}
function PX(){return new Proxy({p:[9],q:{c:8},1:7,s:6,a:undefined,[Symbol("y")]:5},{get(t,k){L("g"+String(k));return t[k]},has(t,k){L("h"+String(k));return k in t},ownKeys(t){L("ok");return Reflect.ownKeys(t)},getOwnPropertyDescriptor(t,k){L("gd"+String(k));return Reflect.getOwnPropertyDescriptor(t,k)}})}
function f(){L(arguments.length);this&&(this.n=arguments.length);return arguments.length} var o2={m(){L(arguments.length)}};
function P(s){return function(v){L(s);L(v instanceof AggregateError?v.errors:v)}}
function PR(w){function C(ex){ex(function(v){L("RES");L(v)},function(e){L("REJ");L(e)})}C.resolve=function(v){L("resolve");if(w==="resolve")throw "pr";return{then(a,b){L("then");if(w==="then")throw "pt";a(v)}}};if(w==="getres")Object.defineProperty(C,"resolve",{get(){L("getres");throw "gr"}});if(w==="noncall")C.resolve=1;if(w==="rejthrow"){C=function(ex){ex(function(v){L("RES");L(v);throw "rt"},function(e){L("REJ");L(e);throw "jt"})};C.resolve=Promise.resolve.bind(Promise)}return C}
// what ECMAScript says (V8 closes the iterator when the iterator itself failed)
function FE(it){var o={};for(var e of it){if(Object(e)!==e)throw new TypeError;Object.defineProperty(o,e[0],{value:e[1],writable:true,enumerable:true,configurable:true})}return o}
var a,b,c,r,fn,x,k;
`,
  bounds: {
    quick: 'all consumers x 0..2 items x every fault kind at every protocol step; for-of heads x bodies x the same; all array and object patterns of up to 2 elements (plus rest) in assignment and binding form x 0..3 items x throwing faults; all positions',
    thorough: 'patterns of up to 3 elements with every fault kind at every step; consumers up to 4 items'
  },
  *gen(tier) {
    const th = tier === 'thorough', NI = th ? 4 : 2;
    const W0 = (b, n, F, v, s) => `a=b=c=r=fn=x=undefined;k=0;T(function(){${s ? '"use strict";' : ''}var I=It(${n},"${F}"${v ? ',' + v : ''});${b}});T(()=>[a,b,c,r,x,typeof fn==="function"?fn.name:fn])`;
    const W = (b, n, F, v, s) => { const c = { src: W0(b, n, F, v, s) }; if (b.includes('Object.fromEntries(I)')) c.ref = c.src.replace('Object.fromEntries(I)', 'FE(I)'); return c; };
    for (const c of plain) { const v = /Map|Entries/.test(c) ? '[["p",1],[{},2],["q",3],["p",4],["z",5]]' : /WeakSet/.test(c) ? '[{},{},{},{},{}]' : /Promise/.test(c) ? '[1,Promise.resolve(2),{then(a,b){L("th");b(3)}},{then(){throw 4}},{get then(){throw 5}}]' : null;
      for (let n = 0; n <= NI; n++) for (const F of ['', ...faults(n)]) yield W(c, n, F, v);
      if (v) for (let n = 1; n <= 2; n++) for (const F of ['', ...faults(n)]) yield W(c, n, F, null); }
    for (const v of ['[[]]', '[{}]', '[{get 0(){throw "e0"}}]', '[{0:1,get 1(){throw "e1"}}]', '["ab"]', '[null]', '[[{},1]]', '[Symbol.iterator]', '[1]']) for (const c of plain.filter(c => /Map|Set|Entries/.test(c))) for (const F of ['', 'cr:t', 'gr:t', 'gr:u', 'cr:1']) yield W(c, 1, F, v);
    for (const h of forofs) for (const bd of bodies) { if (/ o$/.test(bd) && !/o:/.test(h)) continue; for (let n = 0; n <= NI; n++) for (const F of ['', ...faults(n)]) for (const v of /\[x/.test(h) ? [null, '[[1],[],[2],[3],[4]]'] : [null]) yield W(h.replace('B', () => bd), n, F, v); }
    const vals = ['[[1,2],{c:3,length:4},[5],6,7]', '[undefined,undefined,[],"xy",null]'];
    const pats = function* (el, rest, N) { for (let n = 0; n <= N; n++) for (const l of seqs(el, n)) { yield [...l, ...(l.length && l[l.length - 1] === '' ? [''] : [])].join(); if (n < N || N < 3) for (const r of rest) yield [...l, r].join(); } };
    const N = th ? 3 : 2;
    for (const pat of pats(elA, restA, N)) for (const n of [0, 1, 2, 3]) for (const v of vals) { yield W(`[${pat}]=I`, n, '', v); if (pat.split(',').length <= 2) for (const F of faults(Math.min(n, 2), th ? null : 't1u')) yield W(`[${pat}]=I`, n, F, v, F === 'gi:1'); }
    for (const pat0 of pats(elB, restB, N)) { const pat = num(pat0.split(',')).join(); const vs = [...new Set(pat.match(/\b(a|b|c|fn)\d/g) || [])]; for (const n of [0, 1, 2, 3]) for (const v of vals) { yield W(`let [${pat}]=I;return [${vs}]`, n, '', v); if (n < 3) { yield W(`return (function([${pat}],z=L("z")){return [${vs}]})(I)`, n, '', v); for (const F of faults(Math.min(n, 1), th ? null : 't1')) yield W(`var [${pat}]=I;return [${vs}]`, n, F, v); } } }
    const opats = function* (el, rest, N) { for (let n = 0; n <= N; n++) for (const l of seqs(el, n)) { yield l.join(); for (const r of rest) yield [...l, r].join(); } };
    for (const pat of opats(opA, oprA, N)) for (const s of srcs) { if (/null|undefined/.test(s) && !/^("s"|1|a|b|p|q|u|)(:[abc]|$|,)/.test(pat)) continue; /* V8 looks at the source late */ if (N === 3 && pat.split(',').length > 3 && s !== 'PX()') continue; yield W(`({${pat}}=${s})`, 0, ''); yield W(`return ({${pat}}=${s})===${s}`, 0, '', null, true); }
    for (const pat0 of opats(opB, oprB, N)) { const pat = num(pat0.split(',')).join(); const vs = [...new Set(pat.match(/\b(a|b|c|fn|r)\d/g) || [])]; for (const s of srcs) { if (N === 3 && pat.split(',').length > 3 && s !== 'PX()') continue; yield W(`const {${pat}}=${s};return [${vs}].map(x=>typeof x==="function"?x.name:x)`, 0, ''); yield W(`return (({${pat}})=>[${vs}].map(x=>typeof x==="function"?x.name:x))(${s})`, 0, ''); } }
    // all positions of a pattern
    const pos = [p => `let ${p}=V`, p => `var ${p}=V`, p => `const ${p}=V`, p => `(function(${p}){L(arguments.length)})(V)`, p => `(${p}=>{})(V)`.replace(/\((.*?)=>\{/, (m, q) => `((${q})=>{`), p => `(function(${p}=V){})()`, p => `for(const ${p} of [V]){L("b")}`, p => `for(let ${p}=V;;){break}`, p => `try{throw V}catch(${p}){L("c")}`, p => `(class{static m(${p}){}}).m(V)`, p => `({set z(${p}){}}).z=V`, p => `(function*(${p}){L("never")})(V)`, p => `(async function(${p}){L("body")})(V).catch(L)`, p => `(async(${p})=>{})(V).then(L,L)`, p => `(async function*(${p}){})(V).next().then(L,L)`, p => `(function(...${p}){})(V)`, p => `for(var ${p} in {V:1}){L("i")}`, p => `(function(q,${p}){})(0,V)`, p => `new (class{constructor(${p}){}})(V)`, p => `(function(${p}){var a0;L(a0)})(V)`, p => `(function(${p},g=()=>a0){var a0=9;L(g())})(V)`];
    for (const f of pos) for (const e of ['[]', '[a0]', '[a0=D("d")]', '[a0,[b0]]', '[...a0]', '{}', '{a0}', '{a0=D("d")}', '{p:a0}', '{[K("p")]:a0}', '{...a0}', '[{a0}]', '{p:[a0]}', '{a0=DT()}', '[a0=DT()]']) for (const v of ['I', ...srcs]) for (const F of v === 'I' ? ['', ...faults(1)] : ['']) yield W(f(e).replace('V', () => v === 'I' ? v : `(${v[0] === '{' ? '(' + v + ')' : v})`), 1, F);
  }
};
