// Map, Set, WeakMap, WeakSet: keyed lookup, insertion order, iteration while the collection changes, constructors.
import { P0, product, seqs, seqsUpTo, permutations } from '../lib/prelude.mjs';
const keys = ['1', '"1"', 'NaN', '0', '-0', 'undefined', 'null', 'true', 'o1', 'o2', 'Y', '1n', '2n**64n', '"a"', '"a\\u0000"', '1.5', '2**31', '4294967295', '-1', '""', '"é"', 'BIG+"x"', 'Symbol.iterator', '10n-9n', '"x".concat("")', '0/0', '1e400', 'Symbol.for("q")', 'f1', '[1]'];
// histories: operations on one collection with up to two live iterators
const kk = ['1', '2', '3'];
const mops = [...kk.map(k => `c.set(${k},V())`), ...kk.map(k => `c.delete(${k})`), 'c.clear()', 'i=c.entries()', 'i2=c.keys()', 'X(i)', 'X(i2)'];
const sops = [...kk.map(k => `c.add(${k})`), ...kk.map(k => `c.delete(${k})`), 'c.clear()', 'i=c.values()', 'i2=c.entries()', 'X(i)', 'X(i2)'];
// what a callback or a loop body does at one step
const muts = ['', 'c.delete(1)', 'c.delete(2)', 'c.delete(3)', 'c.delete(9)', 'A(4)', 'A(1)', 'A(2)', 'c.clear()', 'c.clear();A(5)', 'c.delete(k);A(k)', 'c.delete(1);A(1)', 'c.delete(2);A(2)', 'c.delete(3);A(3)', 'c.delete(3);A(3);c.delete(1);A(1)', 'for(var q=20;q<60;q++)A(q)', 'for(var q=20;q<60;q++)A(q);for(q=20;q<60;q++)c.delete(q)', 'throw "m"', 'c.forEach(()=>L("in"))', 'i2=c.values();X(i2);X(i2)', 'c.clear();A(1);A(2)', 'c.delete(1);c.delete(2)', 'for(var x of c){c.delete(2);break}'];
const recv = ['new Map', 'new Set', 'new WeakMap', 'new WeakSet', '{}', '5', 'null', 'undefined', 'Map.prototype', 'Set.prototype', 'new Proxy(new Map,{})', 'Object.create(new Map)', 'new (class extends Map{})', 'new (class extends Set{})', 'new Map().entries()', 'new Set().values()', 'f1', '[]', 'new (class extends WeakMap{})'];
const inputs = ['', 'undefined', 'null', '[]', '[[1,2]]', '[[1,2],[1,3],[2,4]]', '[1]', '["ab"]', '[["a"]]', '[[]]', '[{0:"k",1:"v"}]', '[null]', '5', '{}', '"ab"', 'true', 'Y', 'new Map([[1,2],[3,4]])', 'new Set([1,2])', 'IT([[1,2],[3,4]])', 'IT([1,2])', 'IT([o1,o2])', 'IT([[o1,1],[o2,2]])', '[[o1,1],[o2,2],[o1,3]]', '[o1,o2,o1]', '[[o1,1],[1,1]]', '[Y]', '[[Y,1]]', '[Symbol.for("s")]', '[[Symbol.for("s"),1]]', 'IT([[1,2],5,[3,4]])', 'IT([[o1,2],{get 0(){throw "g0"}}])', 'IT([{get 0(){L("g0");return o1},get 1(){L("g1");return 2}}])', 'IT([{get 0(){L("g0");return 1},get 1(){throw "g1"}}])', 'NX', 'VX', 'DX', 'RX', '{[Symbol.iterator]:5}', '{[Symbol.iterator]:null}', '{[Symbol.iterator](){return 5}}', '{[Symbol.iterator](){return {}}}', '(function*(){try{yield [o1,1];yield 5;yield [o2,1]}finally{L("fin")}})()', '[,]', '[NaN,NaN,0,-0]', '[[NaN,1],[NaN,2],[-0,3],[0,4]]'];
const adders = ['', 'AD=null', 'AD=5', 'AD=undefined', 'AD=function(...a){L("ad"+a.length+S(a[0]));return OA.apply(this,a)}', 'AD=function(a){throw "ad"}', 'AD=get:throw "gad"', 'AD=function(){L("noop")}', 'AD=f1', 'AD=function(...a){L("x");AG();return OA.apply(this,a)}'];
const weird = ['o1', 'o2', 'f1', 'Y', 'Symbol.iterator', 'Symbol.for("x")', '1', '"s"', 'null', 'undefined', 'true', '1n', '[]', 'globalThis', 'new Proxy({},{})', 'NaN'];
const C = { Map: 'set', Set: 'add', WeakMap: 'set', WeakSet: 'add' };
export default {
  id: 'C13', level: 'exploration', reset: 300, variants: ['plain'],
  rule: 'one case = one operation history on one collection with its live iterators, one mutating traversal, one key pair, one constructor input or one receiver; all distinct; non-trivial: every case',
  prelude: P0 + String.raw`
var c,i,i2,vn,o1={n:1},o2={n:2},Y=Symbol("Y"),BIG="k".repeat(300),AD,OA;function f1(){}
function V(){return ++vn}
function S(x){return x===o1?"o1":x===o2?"o2":__S(x,3)}
function X(i){if(!i){L("-");return}var r=i.next();__log((r.done?"D":"")+S(r.value))}
function A(x){if(c instanceof Map)c.set(x,x);else c.add(x)}
function Z(){if(!(c instanceof Map||c instanceof Set))return;__log(c.size+":"+[...c.entries()].map(e=>S(e[0])+"="+S(e[1])).join())}
function IT(l,n){var j=0;return{[Symbol.iterator](){L("it");return this},next(){L("n"+j);return{value:l[j],done:j++>=l.length}},return(){L("rt");return{}}}}
var NX={[Symbol.iterator](){return{next(){throw "nx"},return(){L("RT")}}}},VX={[Symbol.iterator](){return{next(){return{done:false,get value(){throw "vx"}}},return(){L("RT")}}}},DX={[Symbol.iterator](){return{next(){return{get done(){throw "dx"}}},return(){L("RT")}}}},RX={[Symbol.iterator](){var n=0;return{next(){return{done:n++>3,value:5}},return(){L("RT");throw "rx"}}}};
`,
  bounds: {
    quick: `operation histories of depth 5 over ${mops.length} Map and ${sops.length} Set operations including two live iterators, from an empty and a filled collection; ${muts.length} mutations at each step of a traversal by 5 kinds of traversal, and pairs of them; ${keys.length}^2 key pairs; ${inputs.length} constructor inputs x ${adders.length} adders x 4 constructors; ${recv.length} receivers x all methods x ${weird.length} arguments`,
    thorough: 'histories of depth 6; triples of mutations'
  },
  *gen(tier) {
    const th = tier === 'thorough';
    const ini = [['new Map', mops], ['new Map([[1,"a"],[2,"b"],[3,"c"]])', mops], ['new Set', sops], ['new Set([1,2,3])', sops]];
    const depth = th ? 6 : 4;
    for (const [e, ops] of ini) for (const s of seqsUpTo(ops, depth, depth - 1)) {
      // live iterators must exist before they are advanced; at least one mutation
      if (!/\(|=/.test(s[0]) || /^X/.test(s[0])) continue; const j = s.join(';'); if (/X\(i\)/.test(j) && j.indexOf('i=') > j.indexOf('X(i)') || /X\(i\)/.test(j) && j.indexOf('i=') < 0) continue; if (/X\(i2\)/.test(j) && (j.indexOf('i2=') < 0 || j.indexOf('i2=') > j.indexOf('X(i2)'))) continue;
      if (depth > 4 && !/X\(/.test(j)) continue;
      yield { src: `vn=0;i=i2=null;c=${e};${s.map(o => /^c\./.test(o) ? `T(()=>S(${o}===c?"c":1))` : o).join(';')};if(i)X(i);if(i2)X(i2);Z();if(i){X(i);X(i)}` };
    }
    // many keys of one kind, looked up by separately made equal keys, while growing, after deletions and after refilling
    const KEY = ['i', '-i', 'i+0.5', 'i*1e300', 'i/0', 'String(i)', '"k".repeat(i)', 'BigInt(i)', '-(2n**64n)*BigInt(i)', 'BigInt(i)<<70n', 'i%2?BigInt(i):i', 'i%2?String(i):i', 'Symbol.for("z"+i)', 'String.fromCharCode(i*300)', '-0*i', 'i%2===0', '2**31+i', '-(2**32)*i'];
    for (const k of KEY) for (const n of th ? [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 20, 21, 22, 30, 40, 63, 64, 65, 66, 90, 200, 600] : [1, 3, 4, 5, 9, 10, 11, 20, 30, 65, 200]) for (const W of ['Map', 'Set']) for (const d of [1, 2, 3])
      yield { src: `{let K=i=>${k},c=new ${W},n=${n},A=i=>${W === 'Map' ? 'c.set(K(i),i)' : 'c.add(K(i))'},R=()=>{let o="";for(let i=0;i<n+2;i++)o+=${W === 'Map' ? 'c.has(K(i))?c.get(K(i)):"-"' : '+c.has(K(i))'};L(o+":"+c.size)};for(let i=0;i<n;i++)A(i);R();for(let i=0;i<n;i+=${d})L(c.delete(K(i)));R();for(let i=n-1;i>=0;i--)A(i);R();L([...c.keys()].map(x=>typeof x==="symbol"?"s":String(x)).join())}`, cls: 'many keys' };
    // deeper histories with a filled collection and an iterator already in the middle
    for (const [e, ops] of [ini[1], ini[3]]) for (const pre of [0, 1, 2, 3]) for (const s of seqs([...ops.slice(0, 7), 'X(i)'], th ? 6 : 4)) yield { src: `vn=0;c=${e};i=c[Symbol.iterator]();${'X(i);'.repeat(pre)}${s.join(';')};X(i);X(i);X(i);Z()` };
    // one mutation at each step of a traversal, all kinds of traversal; and two mutations
    const trav = [b => `c.forEach(function(v,k,m){L(S(k)+(m===c));if(++n>30)throw "many";${b}})`, b => `for(var k of c.keys()){L(S(k));if(++n>30)throw "many";${b}}`, b => `for(var [k,v] of c.entries()){L(S(k)+S(v));if(++n>30)throw "many";${b}}`, b => `(()=>{for(var v of c){var k=v;if(Array.isArray(v))k=v[0];L(S(k));if(++n>30)throw "many";${b}}})()`, b => `Array.from(c.values(),k=>{L(S(k));if(++n>30)throw "many";${b}})`, b => `new Set((function*(){for(var k of c.keys()){yield k;if(++n>30)throw "many";${b}}})()).forEach(x=>L(S(x)))`];
    for (const e of ['new Map([[1,1],[2,2],[3,3]])', 'new Set([1,2,3])', 'new Map([[2,1]])', 'new Set([3,1])']) for (const t of trav) for (const m1 of muts) for (const w1 of [1, 2, 3]) for (const m2 of th ? muts : ['', 'A(6)', 'c.delete(2)', 'c.clear()', 'c.delete(1);A(1)', 'c.delete(k)']) for (const w2 of m2 ? [1, 2, 3, 4] : [1]) yield { src: `c=${e};var n=0;T(()=>{${t(`if(n==${w1}){${m1}}if(n==${w2}){${m2}}`)};return 1});Z()` };
    // key pairs
    for (const a of keys) for (const b of keys) yield { src: `c=new Map;c.set(${a},"A");c.set(${b},"B");L(c.size);L(c.get(${a}));L(c.get(${b}));L(c.has(${b}));for(var [k,v] of c)L(typeof k+(Object.is(k,-0)?"neg":"")+S(v));L(c.delete(${a}));L(c.size);L(c.has(${b}));c=new Set([${a},${b}]);Z();L(c.delete(${b}));L(c.delete(${b}));Z()` };
    for (const a of keys) for (const b of keys) for (const d of th ? keys : keys.slice(0, 9)) if (a !== b && a !== d) yield { src: `c=new Set([${a},${b},${d}]);c.delete(${b});L(c.has(${a}));L(c.has(${d}));L(c.size);c.add(${b});Z()` };
    // growth and shrinkage across the table's resize points
    for (const n of [7, 8, 9, 15, 16, 17, 31, 33, 63, 65, 127, 129, 257, 1025]) for (const del of ['j%2', 'j%3==0', 'j<n-2', 'j>1', 'true', 'j==0', 'j==n-1']) for (const kf of ['j', '"k"+j', 'j+0.5', '-j', 'j*65536', 'BigInt(j)', '{j}', 'Symbol()']) yield { src: `c=new Map;var n=${n},ks=[];for(let j=0;j<n;j++){ks.push(${kf === '{j}' ? '({j})' : kf});c.set(ks[j],j)}i=c.values();X(i);X(i);for(let j=0;j<n;j++)if(${del})c.delete(ks[j]);L(c.size);X(i);X(i);for(let j=0;j<n;j+=3)c.set(ks[j],-j);L(c.size);L([...c.values()].slice(0,20));var z=0;for(let j=0;j<n;j++)z+=c.has(ks[j])?j:0;L(z);c.clear();L(c.size);X(i);c.set(ks[0],1);Z();X(i)` };
    // constructors
    for (const k of Object.keys(C)) for (const x of inputs) for (const ad of adders) {
      if (ad === '') { yield { src: `T(()=>{c=new ${k}(${x});return 1});Z();if(c instanceof ${k}){L(c.has(o1));L(c.has(o2));L(c.has(Symbol.for("s")))}` }; yield { src: `T(()=>{c=new (class extends ${k}{${C[k]}(...a){L("sub"+a.length);return super.${C[k]}(...a)}})(${x});return 1});Z()` }; yield { src: `T(()=>${k}(${x}))` }; yield { src: `var nt=function(){}.bind();Object.defineProperty(nt,"prototype",{get(){L("pt");return Array.prototype}});T(()=>Object.getPrototypeOf(Reflect.construct(${k},[${x}],nt))===Array.prototype)` }; continue; }
      const g = ad.startsWith('AD=get:'), v = ad.replace(/^AD=(get:)?/, '');
      yield { src: `OA=${k}.prototype.${C[k]};try{${g ? `Object.defineProperty(${k}.prototype,"${C[k]}",{get(){${v}},configurable:true})` : `var AG=()=>{${k}.prototype.${C[k]}=null};${k}.prototype.${C[k]}=${v}`};T(()=>{c=new ${k}(${x});return 1})}finally{Object.defineProperty(${k}.prototype,"${C[k]}",{value:OA,writable:true,configurable:true,enumerable:false})}Z()` };
    }
    for (const x of inputs) for (const k of ['Map', 'Set']) yield { src: `T(()=>{var j=0;c=new ${k}(${x});var d=new ${k}(c);return [d.size,d!==c]});T(()=>[...c])` };
    // receivers and arguments
    const meth = { Map: ['get', 'set', 'has', 'delete', 'clear', 'forEach', 'entries', 'keys', 'values', '@it', 'size'], Set: ['add', 'has', 'delete', 'clear', 'forEach', 'entries', 'keys', 'values', '@it', 'size'], WeakMap: ['get', 'set', 'has', 'delete'], WeakSet: ['add', 'has', 'delete'] };
    for (const k of Object.keys(meth)) for (const f of meth[k]) for (const r of recv) for (const a of ['', ...weird.slice(0, 8)]) {
      if (f === 'size') { if (!a) yield { src: `T(()=>Object.getOwnPropertyDescriptor(${k}.prototype,"size").get.call(${r}))` }; continue; }
      yield { src: `var r0=${/^\{/.test(r) ? '(' + r + ')' : r};T(()=>{var q=${k}.prototype${f === '@it' ? '[Symbol.iterator]' : '.' + f}.call(r0${a ? ',' + a : ''});return q===r0?"this":Object(q)===q&&typeof q.next==="function"?[...q]:q})` };
    }
    for (const k of ['WeakMap', 'WeakSet']) for (const a of weird) for (const b of weird) { const s = C[k]; yield { src: `c=new ${k};T(()=>c.${s}(${a}${k === 'WeakMap' ? ',"A"' : ''})===c);T(()=>c.${s}(${b}${k === 'WeakMap' ? ',"B"' : ''})===c);T(()=>c.has(${a}));T(()=>c.has(${b}));${k === 'WeakMap' ? `T(()=>c.get(${a}));T(()=>c.get(${b}));` : ''}T(()=>c.delete(${a}));T(()=>c.has(${a}));T(()=>c.has(${b}))` }; }
    for (const a of weird) yield { src: `T(()=>typeof new WeakRef(${a}).deref());T(()=>WeakRef(${a}));T(()=>new FinalizationRegistry(()=>{}).register(${a}));T(()=>new FinalizationRegistry(()=>{}).register(o1,${a}));T(()=>new FinalizationRegistry(()=>{}).register(o1,o1));T(()=>new FinalizationRegistry(()=>{}).register(o1,1,${a}));T(()=>new FinalizationRegistry(()=>{}).unregister(${a}));T(()=>new FinalizationRegistry(${a}))` };
    for (const h of seqs(['W.set(o1,V())', 'W.set(o2,V())', 'W.delete(o1)', 'W.delete(o2)', 'W.set(Y,V())', 'W2.set(o1,V())', 'W2.delete(o1)', 'WS.add(o1)', 'WS.delete(o1)'], th ? 6 : 4)) yield { src: `vn=0;var W=new WeakMap,W2=new WeakMap,WS=new WeakSet;${h.map(o => `T(()=>{var r=${o};return r===W||r===W2||r===WS?"t":r})`).join(';')};L([W.get(o1),W.get(o2),W.has(o1),W.has(Y),W2.get(o1),WS.has(o1)])` };
    for (const h of seqs(['register(o1,1,o2)', 'register(o2,2,o2)', 'register(o1,3,o1)', 'unregister(o2)', 'unregister(o1)', 'unregister(Y)', 'register(o1,4)', 'register(Y,5,Y)'], th ? 5 : 4)) yield { src: `var FR=new FinalizationRegistry(()=>{});${h.map(o => `T(()=>FR.${o})`).join(';')}` };
    // iterator objects
    for (const e of ['new Map([[1,2]])', 'new Set([1])']) for (const f of ['entries', 'keys', 'values']) { yield { src: `c=${e};i=c.${f}();L(DESC(i));L(DESC(Object.getPrototypeOf(i)));T(()=>i.next.call({}));T(()=>i.next.call(new Set().values()));T(()=>i.next.call(new Map().keys()));T(()=>i.next.call([].values()));L(Object.prototype.toString.call(i));L(i[Symbol.iterator]()===i);X(i);X(i);A(9);X(i);var r=c.${f}().next();L(DESC(r))` }; }
    // object surfaces and subclassing
    for (const k of Object.keys(C)) yield { src: `L(SURF(${k}));L(SURF(${k}.prototype));L(${k}.prototype.constructor===${k});T(()=>${k}[Symbol.species]===${k});T(()=>${k}.prototype[Symbol.iterator]===${k}.prototype.${k === 'Map' ? 'entries' : 'values'});T(()=>${k}.prototype.keys===${k}.prototype.values)` };
    for (const cb of ['undefined', 'null', '5', '{}', 'class{}', 'x=>L(x)', 'function(){"use strict";L(S(this))}', 'function(){L(typeof this)}', 'async x=>{}', 'new Proxy(x=>L(x),{})']) for (const th2 of ['', ',o1', ',5', ',null', ',undefined']) for (const e of ['new Map', 'new Map([[1,2]])', 'new Set([1])', 'new Set']) yield { src: `c=${e};T(()=>c.forEach(${/^(class|function)/.test(cb) ? '(' + cb + ')' : cb}${th2}))` };
  }
};
