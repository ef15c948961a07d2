// Module graphs: linking, evaluation order, live bindings, namespaces, errors, top-level await, dynamic import, JSON.
import { P0, product, seqsUpTo, seqs } from '../lib/prelude.mjs';
const PRE = P0 + String.raw`
function NS(ns){try{return Reflect.ownKeys(ns).map(k=>{var v;try{v=__S(ns[k])}catch(e){v=__E(e)}return (typeof k==="symbol"?"@"+k.description:k)+"="+v}).join(",")}catch(e){return __E(e)}}
function TYP(f){try{return typeof f()}catch(e){return __E(e)}}
`;
const M = (o, ref) => ({ kind: 'm', parts: Object.entries(o), ...(ref ? { refParts: Object.entries(ref) } : {}) });
const imps = l => l.map(x => `import "./${x}";`).join('');
// bodies of a module in a graph; n is its name
const BODY = {
  s: n => `__log("${n}");`,
  t: n => `__log("${n}");throw new RangeError("${n}");`,
  w: n => `__log("${n}0");await 0;__log("${n}1");`,
  W: n => `__log("${n}0");await 0;await 0;await 0;__log("${n}1");`,
  x: n => `__log("${n}0");await 0;__log("${n}1");throw new EvalError("${n}");`,
  y: n => `__log("${n}0");if(1)throw new URIError("${n}");await 0;`,
  p: n => `__log("${n}0");await Promise.reject(new RangeError("${n}"));__log("${n}1");`,
  n: n => `__log("${n}0");await new Promise(()=>{});__log("${n}1");`,
  j: n => `__log("${n}");Promise.resolve().then(()=>__log("${n}j"));`,
  f: n => `__log("${n}0");for await(const q of [1,Promise.resolve(2)])__log("${n}"+q);`,
};
function reach(g, from = 'a') { const s = [from]; for (let i = 0; i < s.length; i++) for (const x of g[s[i]]) if (!s.includes(x)) s.push(x); return s; }
function subsets(names, ordered) { const o = [[]]; for (let i = 1; i < 1 << names.length; i++) { const b = names.filter((_, k) => i >> k & 1); o.push(b); if (ordered && b.length > 1) o.push([...b].reverse()); } return o; }
function* graphs(names, ordered) {
  const subs = subsets(names, ordered);
  for (const ls of product(...names.map(() => subs))) { const g = Object.fromEntries(names.map((n, i) => [n, ls[i]])); if (reach(g).length === names.length) yield g; }
}
const graphCase = (g, flags) => { const o = {}; Object.keys(g).forEach((n, i) => { o[n] = imps(g[n]) + BODY[flags[i]](n); }); return { ...M(o), cls: 'graph' }; };
export default {
  id: 'C24', shards: { thorough: 128 }, title: 'Modules', prelude: PRE, timeoutMs: 4000,
  rule: 'one case = one module graph, run in its own runtime: its dependency edges, the body of each module (plain, throwing, awaiting, ...), its export and import forms, or one operation on a namespace; all distinct',
  bounds: { quick: 'all connected graphs of up to 3 modules with an entry, up to 2 special bodies; export/import form pairs; namespace operations; dynamic imports', thorough: 'all body assignments over 3 modules, ordered edges, graphs of 4 modules with up to 2 special bodies' },
  * gen(tier) {
    const Q = tier === 'quick';
    // A: evaluation order and errors over all graphs
    const kinds = Q ? ['s', 'w', 't', 'x'] : Object.keys(BODY);
    for (const ns of [['a'], ['a', 'b']]) for (const g of graphs(ns, true)) for (const fl of seqs(Object.keys(BODY), ns.length)) yield graphCase(g, fl);
    { let i = 0; for (const g of graphs(['a', 'b', 'c'], !Q)) for (const fl of seqs(kinds, 3)) { const sp = fl.filter(x => x !== 's').length; if (Q ? (sp <= 2 || i++ % 3 === 0) : sp <= 2 || (sp === 3 && fl.every(x => 'swtxWj'.includes(x)))) yield graphCase(g, fl); } }
    if (!Q) for (const g of graphs(['a', 'b', 'c', 'd'], false)) for (const fl of [['s', 's', 's', 's'], ['s', 'w', 's', 's'], ['s', 's', 'w', 's'], ['s', 's', 's', 'w'], ['w', 's', 's', 's'], ['s', 'w', 'w', 's'], ['s', 'W', 's', 'w'], ['s', 's', 'w', 'W'], ['s', 'w', 'x', 's'], ['s', 'x', 's', 'w'], ['s', 't', 's', 's'], ['s', 's', 't', 'w']]) if (g.a.length <= 2) yield graphCase(g, fl);
    if (Q) { let i = 0; for (const g of graphs(['a', 'b', 'c', 'd'], false)) if (i++ % 41 === 0) for (const fl of [['s', 'w', 's', 's'], ['s', 's', 'w', 'W'], ['s', 'x', 's', 'w']]) yield graphCase(g, fl); }
    // diamonds and chains with several awaits
    for (const fl of seqs(Q ? ['s', 'w', 'W'] : ['s', 'w', 'W', 'x', 'j'], 4)) { yield graphCase({ a: ['b', 'c'], b: ['d'], c: ['d'], d: [] }, fl); yield graphCase({ a: ['b', 'c', 'd'], b: [], c: [], d: [] }, fl); yield graphCase({ a: ['b', 'd'], b: ['c'], c: ['b'], d: ['c'] }, fl); }
    // B: export forms x import forms
    const exp = ['export var x=1;', 'export let x=2;', 'export const x=3;', 'export function x(){}', 'export class x{}', 'export function*x(){}', 'export async function x(){}', 'export default 4;', 'export default function(){}', 'export default class{}', 'export default function x(){}', 'export default class x{}', 'export default ()=>1;', 'export default (function(){});', 'export default async function*(){}', 'var v=5;export{v as x};', 'let w=6;export{w as default};', 'let w=7;export{w as "a b"};', 'export{y as x};let y=8;', 'export*from"./c";', 'export*as x from"./c";', 'export*as default from"./c";', 'export*as "a b" from"./c";', 'export{x}from"./c";', 'export{default}from"./c";', 'export{default as x}from"./c";', 'export{x as default}from"./c";', 'export{y as x}from"./c";', 'export{"a b" as x}from"./c";', 'export{x as "a b"}from"./c";', 'import{x}from"./c";export{x};', 'import x from"./c";export{x};', 'import*as x from"./c";export{x};', 'import*as x from"./c";export default x;', 'import{y}from"./c";export{y as x};', 'export{};', 'export{x}from"./b";', 'export*from"./b";', 'export{x as default,default as x}from"./b";', 'export var{x,y=9,...z}={x:1,q:2};', 'export let[x,,default_]=[1,2,3];', 'export{nosuch as x};', 'export let x=1;export{x as y};', 'export let x=1;export{x};'];
    const imp = ['import{x}from"./b";L(TYP(()=>x));', 'import d from"./b";L(TYP(()=>d));L(TYP(()=>d.name));', 'import*as n from"./b";L(NS(n));', 'import d,{x}from"./b";L([TYP(()=>d),TYP(()=>x)]);', 'import d,*as n from"./b";L([TYP(()=>d),NS(n)]);', 'import{x as z}from"./b";L(TYP(()=>z));', 'import{default as z}from"./b";L([TYP(()=>z),z&&z.name]);', 'import{"a b" as z}from"./b";L(TYP(()=>z));', 'import{y}from"./b";L(TYP(()=>y));', 'import{x as p,x as q}from"./b";L(p===q);', 'import"./b";L(1);', 'export*from"./b";import*as s from"./a";L(NS(s));', 'export{x}from"./b";import*as s from"./a";L(NS(s));', 'export{default as dd,x as "x y"}from"./b";import*as s from"./a";L(NS(s));', 'export*as n from"./b";import*as s from"./a";L(NS(s.n));'];
    const cs = ['export let x=10,y=11;export default 12;let z=13;export{z as "a b"};', 'export*from"./b";export let y=1;', 'export let q=1;'];
    for (const e of exp) for (const i of imp) for (const c of Q && !/c"/.test(e) ? cs.slice(0, 1) : cs) yield { ...M({ a: i, b: e, c }), cls: 'forms' };
    for (const [e1, e2] of product(exp, exp)) { if (e1 === e2 || (Q && (exp.indexOf(e1) + exp.indexOf(e2)) % 3)) continue; yield { ...M({ a: 'import*as n from"./b";L(NS(n));', b: e1 + e2, c: cs[0] }), cls: 'forms2' }; if (!Q) { yield { ...M({ a: 'import{x}from"./b";L(TYP(()=>x));', b: e1 + e2, c: cs[0] }), cls: 'forms2' }; yield { ...M({ a: 'import d from"./b";L(TYP(()=>d));', b: e1 + e2, c: cs[1] }), cls: 'forms2' }; } }
    // C: star exports, conflicts and cycles over three providers
    const st = ['export*from"./c";export*from"./d";', 'export*from"./c";', 'export*from"./d";', 'export let x="B";export*from"./c";export*from"./d";', 'export*from"./c";export{x}from"./d";', 'export*from"./a";export*from"./c";', 'import{x}from"./c";export{x};export*from"./d";'];
    const cd = ['export let x="C";', 'export let x="C",y="Y";', 'export*from"./d";', 'export{x}from"./d";', 'export*from"./b";export let y="c";', 'export{x as y}from"./d";export*from"./b";', 'export default 1;export let z=1;', ''];
    const dd = ['export let x="D";', 'export let y="D";', 'export*from"./c";export let z="d";', 'export*from"./b";', 'export{x}from"./c";', 'export{y as x}from"./c";', ''];
    const ai = ['import*as n from"./b";L(NS(n));', 'import{x}from"./b";L(TYP(()=>x)+x);', 'import{y}from"./b";L(y);export let x="A";', 'import d from"./b";L(d);', 'import*as n from"./b";export*from"./b";export let x="A";L(NS(n));'];
    for (const [a, b, c, d] of product(ai, st, cd, dd)) yield { ...M({ a, b, c, d }), cls: 'star' };
    // D: live bindings, assignment, dead zones
    const decl = { v: 'export var x=1;', l: 'export let x=1;', c: 'export const x=1;', f: 'export function x(){return 1}', C: 'export class x{}', d: 'export default class x{}', D: 'let x=1;export{x as default};', E: 'let x=1;export default x;', F: 'export default function x(){}' };
    const mut = ['', 'export function set(v){x=v}', 'export function set(v){try{x=v}catch(e){L(e.name)}}'];
    for (const [k, d] of Object.entries(decl)) for (const m of mut) { const I = /default/.test(d) ? 'import x,{set}' : 'import{x,set}';
      if (m) yield { ...M({ a: `${I}from"./b";import*as n from"./b";L(TYP(()=>x));T(()=>set(5));L([TYP(()=>x),x===5]);L(NS(n));T(()=>{x=6});T(()=>{x++});T(()=>{[x]=[1]});T(()=>{x??=1});T(()=>typeof x);T(()=>{for(x of[1]);});T(()=>{"use strict";return eval("x=4")});T(()=>eval("typeof x"));`, b: d + m }), cls: 'live' };
      for (const u of ['TYP(()=>x)', 'TYP(()=>x.name)', 'TYP(()=>{x=1})', 'TYP(()=>{typeof x})', 'NS(n)', '("x" in n)', '("default" in n)', 'TYP(()=>Object.keys(n))', 'TYP(()=>Object.getOwnPropertyDescriptor(n,"x"))', 'TYP(()=>Object.isFrozen(n))', 'TYP(()=>JSON.stringify(n))', 'TYP(()=>Reflect.has(n,"x"))', 'TYP(()=>n.hasOwnProperty)', 'TYP(()=>Object.prototype.hasOwnProperty.call(n,"x"))', 'TYP(()=>({...n}))', 'TYP(()=>Object.assign({},n))', 'TYP(()=>Reflect.set(n,"x",1))', 'TYP(()=>Object.prototype.propertyIsEnumerable.call(n,"x"))'])
        yield { ...M({ a: `import"./b";${d}${m};L(${u.replace(/\bn\b/g, 'm')});import*as m from"./a";`, b: `import*as n from"./a";${/default/.test(d) ? 'import x from"./a"' : 'import{x}from"./a"'};L(${u});Promise.resolve().then(()=>L(${u}));` }), cls: 'dead zone' };
    }
    for (const [d1, d2] of product(Object.values(decl), Object.values(decl))) { const i = d => /default/.test(d) ? 'import o from' : 'import{x as o}from'; yield { ...M({ a: i(d2) + `"./b";L(TYP(()=>o));${d1}L(TYP(()=>x));`, b: i(d1) + `"./a";L(TYP(()=>o));${d2}L(TYP(()=>x));` }), cls: 'cycle' }; }
    // E: namespace objects
    const nsops = ['typeof n', 'Object.prototype.toString.call(n)', 'Reflect.ownKeys(n)', 'Object.keys(n)', 'n.x', 'n.nosuch', 'n[Symbol.toStringTag]', 'n[Symbol.iterator]', 'n.toString', 'n.__proto__', 'Object.getPrototypeOf(n)', 'Reflect.setPrototypeOf(n,null)', 'Reflect.setPrototypeOf(n,{})', 'Object.setPrototypeOf(n,null)===n', 'Object.setPrototypeOf(n,{})', 'Object.isExtensible(n)', 'Object.isSealed(n)', 'Object.isFrozen(n)', 'Object.preventExtensions(n)===n', 'Object.seal(n)===n', 'Object.freeze(n)', 'Reflect.preventExtensions(n)', '(n.x=1)', '(n.zz=1)', 'Reflect.set(n,"x",2)', 'Reflect.set({},"x",2,n)', 'Object.create(n).x', 'delete n.x', 'delete n.zz', 'Reflect.deleteProperty(n,"x")', 'Reflect.deleteProperty(n,"zz")', 'Reflect.deleteProperty(n,Symbol.toStringTag)', 'Reflect.deleteProperty(n,Symbol())', '"x" in n', '"zz" in n', 'Symbol.toStringTag in n', 'Symbol() in n', 'Object.getOwnPropertyDescriptor(n,"x")', 'Object.getOwnPropertyDescriptor(n,"zz")', 'Object.getOwnPropertyDescriptor(n,Symbol.toStringTag)', 'DESC(n)', 'Object.entries(n)', 'Object.values(n)', 'JSON.stringify(n)', '({...n})', '(({x,...r})=>r)(n)', 'Object.assign({},n)', '[...Object.keys(n)].join()', '(()=>{var o=[];for(var k in n)o.push(k);return o})()', 'Reflect.get(n,"x",{})', 'n===m', 'new n', 'n()', 'String(n)', 'n+""', 'Object.hasOwn(n,"default")', '`${n.x}`', 'n?.x', 'n.f()', 'n.f.call(1)', 'n["a b"]', 'n[0]', 'Array.isArray(n)', 'Object.fromEntries(Object.entries(n))', 'new Proxy(n,{}).x', 'Reflect.ownKeys(new Proxy(n,{}))', 'structuredCloneX', 'n instanceof Object', 'Object.is(n,m)', 'new Map([[n,1]]).get(m)', 'Reflect.getPrototypeOf(n)', '(()=>{"use strict";n.x=1})()', '(()=>{"use strict";delete n.x})()', '(()=>{"use strict";delete n.zz})()', '({__proto__:n}).x', 'Object.defineProperties(n,{})===n', 'Object.getOwnPropertyNames(n)', 'Object.getOwnPropertySymbols(n)'];
    for (const k of ['"x"', '"zz"', 'Symbol.toStringTag', 'Symbol("q")', '"f"', '"k"']) for (const d of ['{}', '{value:1}', '{value:n.x}', '{value:n.k}', '{writable:true}', '{writable:false}', '{enumerable:true}', '{enumerable:false}', '{configurable:true}', '{configurable:false}', '{get(){}}', '{value:1,writable:true,enumerable:true,configurable:false}', '{value:"Module"}', '{value:"Module",writable:false,enumerable:false,configurable:false}', '{value:NaN}', '{value:n[' + k + '],writable:true,enumerable:true}']) nsops.push(`Reflect.defineProperty(n,${k},${d})`, ...(Q ? [] : [`Object.defineProperty(n,${k},${d})===n`]));
    const nsmods = ['export let x=1;export const k=NaN;export function f(){return this===undefined||this}let q=3;export{q as "a b",q as default,q as _,q as Z,q as $,q as "0z"};', 'export*from"./c";export let x=4;', 'export default 1;', 'export{x}from"./c";export*as k from"./c";', ''];
    yield { ...M({ a: 'import*as n from"./b";L(Reflect.ownKeys(n));', b: 'let q=1;export{q as "2",q as "10",q as a,q as "1"}' }), cls: 'namespace', want: '["1","10","2","a",@Symbol.toStringTag];' };
    yield { ...M({ a: 'import*as n from"./b";L([Reflect.set(n,"x",2,{}),n.x]);', b: 'export let x=1' }), cls: 'namespace', want: '[false,1];' };
    for (const b of nsmods) for (const o of nsops) yield { ...M({ a: `import*as n from"./b";import*as m from"./b";T(()=>${o});L(NS(n));`, b, c: 'export var x="cx";export let f=()=>"cf";export{x as "\\u{1F600}",x as "\\uffff",x as b,x as a,x as "10_",x as "9_"};export default 3;' }), cls: 'namespace' };
    // F: dynamic import, one chain at a time so that the host's number of turns is not observed
    const targ = { ok: 'export let x=1;export default 2;L("ok");', thr: 'L("thr");throw new RangeError("r");', syn: 'let a=;', link: 'import{nosuch}from"./ok";L("link");', dep: 'import"./thr";L("dep");', tla: 'L("t0");await 0;L("t1");export let x=3;', rej: 'L("r0");await 0;throw new EvalError("e");', cyc: 'import*as n from"./a";L("cyc");export let x=TYP(()=>n.q);', miss: 'import"./nosuch";', json: 'import v from"./d.json";export let x=v.k;', bad: 'import v from"./e.json";', then: 'export function then(r){L("then");r("T")}', then2: 'export let then=4;', thent: 'export function then(r){throw new RangeError("tt")}' };
    const base = { ...targ, 'd.json': '{"k":[1,2,{"z":null}]}', 'e.json': '{k:1}', 'n.json': '[1,', 'p.json': '{"__proto__":1,"a":1,"a":2}' };
    const spec = [...Object.keys(targ), 'nosuch', 'd.json', 'e.json', 'n.json', 'p.json', 'a'];
    const use = n => `try{const n=await import("./${n}");L(NS(n))}catch(e){L(E2(e))}`;
    const E2 = 'function E2(e){return e instanceof Error?e.name:__S(e)}export let q=1;';
    for (const n of spec) yield { ...M({ a: E2 + use(n), ...base }), cls: 'dynamic' };
    for (const [n, m] of product(spec, spec)) if (n !== 'thr' || m !== 'dep') yield { ...M({ a: E2 + use(n) + use(m), ...base }), cls: 'dynamic' };
    for (const n of spec) for (const m of spec) if (n !== 'a' && m !== 'a' && (n !== 'thr' || m !== 'dep')) yield { ...M({ a: E2 + `let e1,e2;try{e1=await import("./${n}")}catch(e){e1=e}try{e2=await import("./${n}")}catch(e){e2=e}L(e1===e2);` + use(m) + `try{e2=await import("./${n}")}catch(e){e2=e}L(e1===e2);`, ...base }), cls: 'dynamic identity' };
    for (const n of spec) yield { ...M({ a: `import"./b";${E2}${use(n)}`, b: `L("b");`, ...base }), cls: 'dynamic' };
    for (const n of spec) if (!['syn', 'miss', 'link', 'bad', 'a', 'cyc'].includes(n)) yield { ...M({ a: `import*as s from"./${n}";L(NS(s));${E2}${use(n)}`, ...base }), cls: 'static+dynamic' }, yield { ...M({ a: `import"./${n}";L(1);`, ...base }), cls: 'static' };
    for (const n of ['syn', 'miss', 'link', 'bad']) yield { ...M({ a: `import"./${n}";L(1);`, ...base }), cls: 'static' };
    for (const sp of ['{toString(){L("ts");return "./ok"}}', '{toString(){throw new EvalError}}', 'Symbol()', 'undefined', 'null', '1', '["./ok"]', '(L("e"),"./ok")', '(()=>{throw new RangeError})()', '`./${"ok"}`', '{valueOf(){return "./ok"},toString:undefined}', 'async()=>1']) yield { ...M({ a: E2 + `let p;try{p=import(${sp});L(p instanceof Promise);L((await p).x)}catch(e){L(p===undefined?"sync":"async");L(E2(e))}`, ...base }), cls: 'specifier' };
    // G: import.meta and module-level scope
    for (const s of ['L(typeof import.meta)', 'L(Object.getPrototypeOf(import.meta))', 'L(import.meta===import.meta)', 'import.meta.z=1;L(import.meta.z)', 'import{m}from"./b";L(m===import.meta)', 'import{m,g}from"./b";L(m===g())', 'L(Object.isExtensible(import.meta))', 'L((()=>import.meta===f())());function f(){return import.meta}', 'T(()=>eval("import.meta"))', 'T(()=>new Function("return import.meta"))',
      'L(this)', 'L((()=>this)())', 'L(function(){return this}())', 'var v=1;let l=2;function f(){};class C{};L([typeof globalThis.v,typeof globalThis.l,typeof globalThis.f,typeof globalThis.C])', 'L(TYP(()=>{undeclared=1}))', 'L(typeof f);function f(){}', 'L(TYP(()=>C));class C{}', 'L(TYP(()=>l));let l', 'L(v);var v=1', 'T(()=>arguments)', 'T(()=>eval("var q=1;q")+typeof q)', 'L(typeof f);{function f(){}}', 'export{f};{function f(){}}', 'L(typeof d);export default function d(){}', 'L(TYP(()=>d));export default class d{}', 'import s from"./a";L(TYP(()=>s));export default 5', 'import s from"./a";L([typeof s,s.name]);export default function(){}', 'import s from"./a";L(TYP(()=>s.name));export default class{};L(s.name)', 'import s from"./a";export default class{static name="N"};L(s.name)', 'import s from"./a";export default class{static name(){}};L(typeof s.name)', 'import s from"./a";export default (class{});L(s.name)', 'import s from"./a";export default ()=>1;L(s.name)', 'import s from"./a";export default async function*(){};L(s.name)', 'import s from"./a";export default (function(){});L(s.name)', 'import s from"./a";export default [1];L(s.length)', 'import s from"./a";var y=1;export default y;y=2;L(s)', 'import s from"./a";function y(){};export{y as default};y=2;L(s)', 'import s from"./a";export default function y(){};y=2;L(s)', 'import s from"./a";export default class y{};y=2;L(s)', 'var Object=1;L(Object)', 'let undefined$=1;L(undefined$)', 'L(await 5);L(await new Promise(r=>r(6)))', 'L(typeof await import("./b"))', 'const{x=await 1}={};L(x)', 'for(const q of[await 1,await 2])L(q)', 'L(`${await 3}`)', 'try{await Promise.reject(4)}catch(e){L(e)}finally{await 0;L("f")}', 'label:{await 0;break label}L(1)', 'for await(const x of (async function*(){yield 1;yield 2})())L(x)', 'await 0;L(typeof f);function f(){}', 'L(TYP(()=>l));await 0;let l=1;L(l)', 'class A{[await "k"](){return 1}};L(new A().k())', 'export const x=await 7;import*as s from"./a";L(s.x)', 'await using1;var using1', 'switch(await 1){case await 1:L("c")}', 'if(await false);else L("e")', 'L(await(async()=>{await 0;return 8})())', 'await 0;throw new RangeError', 'const e=await Promise.reject(new URIError)', 'await{then(r){r(1)}};L("t")', 'await{get then(){throw new EvalError}}', 'L(delete globalThis.__S)', 'L(typeof __log)', 'Promise.resolve().then(()=>L("j"));L("s")', 'Promise.resolve().then(()=>L("j"));await 0;L("s")', 'await 0;Promise.resolve().then(()=>L("j"));L("s")', 'Promise.reject(1);L("s")'])
      yield { ...M({ a: s, b: 'export const m=import.meta;export function g(){return import.meta}' }), cls: 'scope' };
    // order of side effects between import declarations wherever they stand, and of repeated imports
    for (const l of seqsUpTo(['import"./b";', 'import*as n@ from"./c";', 'import{x as x@}from"./d";', 'L("s@");', 'export*from"./b";', 'export{x as y@}from"./d";', 'export*as m@ from"./c";'], Q ? 3 : 4, 1)) yield { ...M({ a: l.map((s, i) => s.replace(/@/g, i)).join(''), b: 'L("b");export let bb=1;', c: 'import"./d";L("c");', d: 'L("d");export let x=1;' }), cls: 'request order' };
    // JSON values
    for (const j of ['null', 'true', '1', '-0', '"s"', '[]', '{}', '[1,[2]]', '{"a":{"b":1}}', ' 1 ', '', '{', '1,2', '"\\u0041"', "'a'", '[1,]', '\ufeff1', '{"default":5}', '//c\n1', 'undefined', 'NaN', '01', '1e400', '"\u2028"']) { yield { ...M({ a: 'import v from"./j.json";import*as n from"./j.json";L(v);L(NS(n));', 'j.json': j }), cls: 'json' }; yield { ...M({ a: 'import{a}from"./j.json";L(a)', 'j.json': j }), cls: 'json' }; yield { ...M({ a: 'import v from"./j.json";import w from"./b";L(v===w||(v!==v&&w!==w));', b: 'import v from"./j.json";export default v;', 'j.json': j }), cls: 'json' }; }
  },
};
