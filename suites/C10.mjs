// Property definition, lookup, deletion, integrity levels, prototype chains and own-key order on every object kind.
import { P0, product, seqs, seqsUpTo } from '../lib/prelude.mjs';
// object kinds: [expression, keys of interest]
const kinds = {
  ord: '({})', arr: '[7,8,9]', hole: '[7,,9]', sarg: '(function(){return arguments})(7,8)', marg: '(function(a,b){return arguments})(7,8)', targ: '(function(){"use strict";return arguments})(7,8)',
  str: 'new String("xy")', ta: 'new Uint8Array([7,8])', fn: '(function(p,q){})', arrow: '(()=>{})', cls: '(class{static m(){}})', bound: '(function(p,q){}).bind(null,1)', err: 'new RangeError("m")', date: 'new Date(5)', re: '/x/g',
  nul: 'Object.create(null)', map: 'new Map', num: 'new Number(5)', gen: '(function*(){})', prom: 'Promise.resolve(1)', proxy: 'new Proxy({},{})', parr: 'new Proxy([7,8],{})', f64: 'new Float64Array(2)', b64: 'new BigInt64Array(2)', inst: 'new (class{f=1;#g=2})', sym: 'Object(Symbol("q"))', big: 'Object(5n)', ab: 'new ArrayBuffer(2)', sub: 'new (class extends Array{})(7,8)', ssub: 'new (class extends String{})("xy")', fsub: 'new (class extends Function{})' };
const keysOf = k => ['"p"', '"0"', '"5"', 'Y', ...({ arr: ['"length"'], hole: ['"1"', '"length"'], str: ['"length"', '"2"'], ta: ['"-0"', '"1.5"', '"length"', '"1e3"', '"Infinity"', '"-1"', '"2"', '"01"'], b64: ['"0.5"'], fn: ['"prototype"', '"name"', '"length"'], cls: ['"prototype"', '"name"'], re: ['"lastIndex"'], parr: ['"length"'], sub: ['"length"'], marg: ['"length"', '"callee"', '"1"'], targ: ['"callee"'], err: ['"message"'] }[k] || [])];
const vals = ['', 'value:1', 'value:V2'], tri = n => ['', n + ':true', n + ':false'];
const reqs = [];
for (const [v, w, e, c] of product(vals, tri('writable'), tri('enumerable'), tri('configurable'))) reqs.push([v, w, e, c].filter(x => x).join());
for (const [g, s, e, c] of product(['', 'get:g1', 'get:g2', 'get:void 0'], ['', 'set:s1', 'set:s2', 'set:void 0'], tri('enumerable'), tri('configurable'))) if (g || s) reqs.push([g, s, e, c].filter(x => x).join());
const curs = [null];
for (const [v, w, e, c] of product(['value:1', 'value:NaN', 'value:-0'], ['true', 'false'], ['true', 'false'], ['true', 'false'])) if (v === 'value:1' || c === 'false') curs.push(`${v},writable:${w},enumerable:${e},configurable:${c}`);
for (const [g, s, e, c] of product(['get:g1', 'get:void 0'], ['set:s1', 'set:void 0'], ['true', 'false'], ['true', 'false'])) curs.push(`${g},${s},enumerable:${e},configurable:${c}`);
// histories
const hkeys = ['"b"', '"a"', '1', '0', '"-1"', '4294967294', '4294967295', 'Y', '3', '17', '40'];
const hops = [...hkeys.map(k => `o[${k}]=V()`), ...hkeys.map(k => `delete o[${k}]`), ...hkeys.slice(0, 4).flatMap(k => [`Object.defineProperty(o,${k},{value:V(),configurable:true})`, `Object.defineProperty(o,${k},{get(){return 5},enumerable:true,configurable:true})`, `Reflect.defineProperty(o,${k},{value:V()})`]), 'Object.freeze(o)', 'Object.seal(o)', 'Object.preventExtensions(o)', 'Object.setPrototypeOf(o,{__proto__:null,a:"pa",2:"p2"})', 'Object.setPrototypeOf(o,{set a(v){L("sa"+v)},get a(){return "ga"},set 1(v){L("s1"+v)},b:3})', 'Object.setPrototypeOf(o,Object.freeze({a:1,0:2}))', 'o.__proto__=[21,22,23,24]', 'Object.setPrototypeOf(o,new Proxy({},{set(t,k,v,r){L("ps"+String(k));return Reflect.set(t,k,v,r)},has(t,k){L("ph"+String(k));return false},get(t,k){return k==="toString"?void 0:"pg"}}))', 'for(var k in o)L(k)', 'Object.assign(o,{c:1,a:2,[Y]:3,1:4})', 'o=Object.assign({},o)', 'o={...o,z:0}', 'o.length=1', 'o.length=2', 'o.length="x"', 'Object.defineProperty(o,"length",{value:1,writable:false})', 'L(Object.entries(o))', 'for(var k in o){L(k);o.zz=1}', 'o.a++', 'o[1]+="s"', 'for(i=0;i<20;i++)o["x"+i]=i', 'for(i=0;i<20;i++)o[i]=i', 'for(i=19;i>=0;i--)delete o["x"+i]', 'for(i=30;i>=0;i-=3)o[i*2]=i', 'for(i=20;i>=1;i--)delete o[i]'];
const hkinds = ['ord', 'arr', 'marg', 'str', 'ta', 'fn', 'hole', 'nul', 'inst', 'parr', 'cls'];
// Reflect.set matrix
const props = ['', 'p:1', 'get p(){L("g");return 2}', 'set p(v){L("s");L(this===RC);L(v)}', 'get p(){return 3},set p(v){L("s2");L(v)}'];
const robs = ['o', '{}', '{p:5}', 'Object.freeze({p:6})', 'Object.freeze({})', 'Object.defineProperty({},"p",{value:7,writable:true})', 'Object.defineProperty({},"p",{value:8,configurable:true})', '{get p(){return 9}}', '{set p(v){L("rs")}}', '5', '"s"', 'null', 'undefined', 'Y', '[]', 'new Proxy({p:1},{getOwnPropertyDescriptor(t,k){L("gopd");return Reflect.getOwnPropertyDescriptor(t,k)},defineProperty(t,k,d){L(d);return Reflect.defineProperty(t,k,d)}})', 'new Uint8Array(2)', '(function(){return arguments})(1)', 'new String("s")', 'f1', 'Object.create(o)', 'Object.preventExtensions({})', 'new Proxy({},{defineProperty(){return false}})'];
// values handed to the Object/Reflect functions
const VV = ['{}', '{a:1,b:2}', '[7,,9]', '"ab"', '5', 'true', 'null', 'undefined', 'Y', '5n', '({m(){return arguments.length}}).m', 'Object.freeze({q:1})', 'Object.seal([1])', 'Object.preventExtensions({z:1})', 'new Proxy({a:1},LH())', 'new Uint8Array(2)', '(function(){return arguments})(1,2)', 'new String("zz")', 'Object.create({inh:1},{own:{value:1},vis:{value:2,enumerable:true},[Y]:{value:3,enumerable:true}})', '{get a(){L("ga");return 1},set b(v){L("sb")},0:1,[Y]:2}', '{get a(){throw "th"},b:1}', '{2:1,1:2,b:3,a:4,[Y]:5,[Symbol.iterator]:6}', 'class{constructor(){} static m(){}}', '(()=>{})', 'new Map', 'new Proxy([1,2],{})', '-0', '""', 'NaN', '{__proto__:null,x:1}', '{["__proto__"]:1}', '{get a(){delete this.b;return 1},b:2}', '{get a(){this.c=3;return 1},b:2}', '{get a(){Object.defineProperty(this,"b",{enumerable:false});return 1},b:2}', 'RV()'];
const un = ['Object.keys(v)', 'Object.values(v)', 'Object.entries(v)', 'Object.getOwnPropertyNames(v)', 'Object.getOwnPropertySymbols(v)', 'Object.getOwnPropertyDescriptors(v)', 'Reflect.ownKeys(v)', 'Object.isExtensible(v)', 'Object.isFrozen(v)', 'Object.isSealed(v)', 'Object.freeze(v)===v', 'Object.seal(v)===v', 'Object.preventExtensions(v)===v', 'Reflect.isExtensible(v)', 'Reflect.preventExtensions(v)', 'nm(Object.getPrototypeOf(v))', 'nm(Reflect.getPrototypeOf(v))', 'nm(v.__proto__)', 'Object(v)===v', 'typeof Object(v)', 'new Object(v)===v', 'DESC(Object(v))', 'Object.create(v)', 'Object.setPrototypeOf({},v)', 'nm(Object.getPrototypeOf({__proto__:v}))', 'Object.prototype.valueOf.call(v)===v', 'Object.prototype.toString.call(v)', 'Object.prototype.toLocaleString.call(v)', 'v in {a:1}', '"a" in v', 'v instanceof Object', 'v.hasOwnProperty("a")', 'Object.prototype.isPrototypeOf.call(v,Object.create(Object(v)))', 'Object.fromEntries(Object.entries(v))', 'Object.is(v,v)', 'Object.defineProperties({},v)', 'Object.defineProperties(v,{})===v', 'Object.defineProperties(v,{n:{value:1}})===v', 'Object.create({},v)', 'Object.assign({},v)', 'Object.assign(v,{a:9,n:8})===v', 'Object.assign({},v,v)', '({...v})', '(({a,...r})=>r)(v)', 'JSON.stringify(v)', 'R(v)', 'for_in(v)', 'v.__proto__={zz:1}', 'v.__proto__=null', 'v.__proto__=5', 'Object.setPrototypeOf(v,null)===v', 'Object.setPrototypeOf(v,Object.getPrototypeOf(v))===v', 'Reflect.setPrototypeOf(v,{})', 'Reflect.setPrototypeOf(v,null)', 'Object.setPrototypeOf(v,undefined)', 'Object.setPrototypeOf(v)', 'Reflect.setPrototypeOf(v,1)', 'Object.getOwnPropertyDescriptor(v)', 'Object.hasOwn(v)', 'Reflect.has(v)', 'Reflect.get(v)', 'Reflect.set(v)', 'Reflect.deleteProperty(v)', 'Reflect.defineProperty(v,"n",{})', 'Reflect.defineProperty(v,"n")', 'Object.defineProperty(v,"n",{value:1})===v', 'Object.defineProperty(v,"n",v)', 'Object.defineProperty({},"n",v)', 'Reflect.apply(f1,v,[1])', 'Reflect.apply(f1,1,v)', 'Reflect.apply(v,1,[])', 'Reflect.construct(f1,v)', 'Reflect.construct(v,[])', 'Reflect.construct(f1,[],v)', 'f1.apply(1,v)', 'v.__lookupGetter__("a")', 'v.__lookupSetter__("b")', 'v.__defineGetter__("n",f1)', 'v.__defineSetter__("n",f1)', 'v.__defineGetter__("n",1)', 'v.toString===Object.prototype.toString', 'delete v.a', 'delete v[0]', '(function(){"use strict";return delete v.a})()', '(function(){"use strict";return delete v[0]})()', '(function(){"use strict";v.n=1;return v.n})()', '(function(){"use strict";v[0]=1;return v[0]})()', '(v.n=1,v.n)', '(v.a=1,v.a)', '(v[0]=3,v[0])', 'v?.a', 'v.length', '(v.length=0,v.length)'];
const bin = ['Object.hasOwn(v,k)', 'Object.prototype.hasOwnProperty.call(v,k)', 'Object.prototype.propertyIsEnumerable.call(v,k)', 'Object.getOwnPropertyDescriptor(v,k)', 'Reflect.getOwnPropertyDescriptor(v,k)', 'Reflect.has(v,k)', 'k in v', 'Reflect.get(v,k)', 'v[k]', 'Reflect.get(v,k,RC)', 'Reflect.set(v,k,1)', 'v[k]=1', 'Reflect.deleteProperty(v,k)', 'delete v[k]', 'Object.defineProperty(v,k,{value:3})===v', 'Reflect.defineProperty(v,k,{get(){return 4},configurable:true})', '({[k]:1})', 'Object.fromEntries([[k,v]])', '(function(){"use strict";v[k]=1})()', '(function(){"use strict";return delete v[k]})()', 'Object.prototype.__lookupGetter__.call(v,k)', 'Object.prototype.__defineGetter__.call(v,k,f1)', '(({[k]:a,...r})=>[a,r])(v)'];
const KK = ['"a"', '"b"', '0', '"1"', 'Y', 'KO("a")', 'KO(Y)', '1.5', '-0', '"length"', 'KT()', 'undefined', '[]', '["a"]', '1e21', '5n', 'true', '"__proto__"', '{}', '""', '4294967295', 'null'];
// prototype cycles and chains
const protoPairs = ['a', 'b', 'c', 'null', 'Object.prototype', 'px', 'Object.create(a)', '5', 'f1'];
// for-in with mutation on the chain
const fkinds = ['{a:1,b:2,c:3}', '[1,2,3]', '"abc"', 'Object.create({a:1,p:2},{a:{value:1},q:{value:2,enumerable:true},b:{value:1,enumerable:true}})', '{__proto__:{b:9,d:8,__proto__:{e:7,a:6}},a:1,b:2,c:3}', 'new Uint8Array(3)', '(function(){return arguments})(1,2,3)', '{2:1,1:1,b:1,a:1,[Y]:1}', '{__proto__:["x","y","z"],1:5,q:1}', 'new String("abc")', '{__proto__:new String("ab"),a:1,b:2}', '{a:1,__proto__:{b:2,c:3,d:4}}', 'null', 'undefined', '5', 'new Proxy({a:1,b:2,c:3},{})', '{a:1,__proto__:new Proxy({b:2,c:3},{})}', '{a:1,__proto__:[3,4],1:9}', 'f1', 'class{static a=1;static b=2}', 'new (class{a=1;b=2;m(){}})', 'Object.create(null,{a:{value:1,enumerable:true},b:{get(){throw 1},enumerable:true}})'];
const fmuts = ['', 'delete o.b', 'delete o.c', 'delete o[1]', 'delete o[2]', 'o.zz=1', 'o.a=5', 'break', 'continue', 'o=null', 'for(var j in o){L("j"+j);break}', 'throw "x"', 'o[7]=1;o.zz=2'];
export default {
  id: 'C10', level: 'exploration', reset: 40, variants: ['plain'],
  rule: 'one case = one object kind with its current property state and all requested descriptors of one shape, one operation history, or one call; all distinct; non-trivial: every case (each checks the full descriptor list)',
  prelude: P0 + String.raw`
var MG=0,Y=Symbol("Y"),AK=["0","1","2","3","5","17","40","-1","4294967294","4294967295","a","b","c","p","zz","x0","x19","length","callee",Y,Symbol.iterator],vn,i,k,o,RC,v,V2={};function g1(){return 1} function g2(){return 2} function s1(v){} function s2(v){} function f1(){return arguments.length}
function V(){return ++vn}
function F(x){return x===g1?"g1":x===g2?"g2":x===s1?"s1":x===s2?"s2":x===V2?"V2":typeof x==="function"?"fn":__S(x,2)}
function D1(d){if(!d)return "-";var r="";if("value" in d)r+="v"+F(d.value)+(d.writable?"w":"");else r+="g"+F(d.get)+"s"+F(d.set);return r+(d.enumerable?"e":"")+(d.configurable?"c":"")}
function DD(o){var ks=MG&&Array.isArray(o)===false&&Object.prototype.toString.call(o)==="[object Arguments]"?AK:Reflect.ownKeys(o),s="";for(var q=0;q<ks.length;q++){var k=ks[q];if(typeof o==="function"&&(k==="arguments"||k==="caller"))continue;if(k==="stack")continue;s+=String(k)+":"+D1(Object.getOwnPropertyDescriptor(o,k))+","}return s+(Object.isExtensible(o)?"x":"n")}
function nm(x){if(x===null)return "null";if(Object(x)!==x)return x;var n=[["O",Object],["A",Array],["F",Function],["S",String],["N",Number],["B",Boolean],["Sy",Symbol],["Bi",BigInt],["M",Map],["U",Uint8Array]];for(var e of n)if(e[1].prototype===x)return e[0];return "?"}
function Q(x){var n=nm(x);return Object(x)===x&&n!=='?'?'P'+n:x}
function LH(){var h={};for(let n of ["get","set","has","deleteProperty","ownKeys","getOwnPropertyDescriptor","defineProperty","getPrototypeOf","setPrototypeOf","isExtensible","preventExtensions"])h[n]=function(t,k){L(n.slice(0,5)+n.length+(typeof k==="string"||typeof k==="symbol"?String(k):""));return Reflect[n].apply(null,arguments)};return h}
function RV(){var r=Proxy.revocable({a:1},{});r.revoke();return r.proxy}
function KO(k){return{toString:null,[Symbol.toPrimitive](h){L("K"+h);return k}}} function KT(){return{toString(){L("KT");throw "KT"}}}
function R(v){var r=[];for(var k in v)r.push(k);return r} function*EOP(o,q){if(o==null){if(q)return;return}o=Object(o);var vis=new Set;for(var k of Reflect.ownKeys(o)){if(typeof k==='symbol')continue;var d=Reflect.getOwnPropertyDescriptor(o,k);if(d){vis.add(k);if(d.enumerable)yield k}}var p=Reflect.getPrototypeOf(o);if(p===null)return;for(var k of EOP(p))if(!vis.has(k))yield k}
function for_in(v){var n=0;for(var k in v){n++;if(n>20)break}return n}
// define every requested descriptor on a fresh object in the given state
function M(mk,key,cur,ext,rq){var out="",j;for(j=0;j<rq.length;j++){var o=mk();try{if(cur)Object.defineProperty(o,key,cur)}catch(e){out="skip";break}if(!ext)Reflect.preventExtensions(o);var b=D1(Object.getOwnPropertyDescriptor(o,key)),r;try{r=Reflect.defineProperty(o,key,rq[j])}catch(e){r=__E(e)}out+=(r===true?"t":r===false?"f":r);var a=D1(Object.getOwnPropertyDescriptor(o,key));if(a!==b)out+="("+a+")";if(j%7===0)out+=DD(o)}__log(out)}
var RD=[${reqs.filter(r => !/get|set/.test(r)).map(r => `{${r}}`).join()}],RA=[${reqs.filter(r => /get|set/.test(r)).map(r => `{${r}}`).join()}];
`,
  bounds: {
    quick: `${curs.length} current property states x ${reqs.length} requested descriptors x extensible or not x ${Object.keys(kinds).length} object kinds x 4..8 keys; operation histories of depth 2 over ${hops.length} operations on ${hkinds.length} kinds (depth 3 over a reduced alphabet); Reflect.set targets x receivers; ${un.length} object functions x ${VV.length} values; ${bin.length} keyed operations x ${VV.length} x ${KK.length}; prototype changes; for-in with mutations`,
    thorough: 'histories of depth 3 over the full alphabet on all kinds and of depth 4 and 5 over reduced alphabets'
  },
  *gen(tier) {
    const th = tier === 'thorough';
    for (const k of Object.keys(kinds)) for (const key of keysOf(k)) for (const c of curs) for (const x of [1, 0]) for (const rq of ['RD', 'RA']) yield { src: `${k === 'marg' ? 'MG=1;' : 'MG=0;'}M(()=>${kinds[k]},${key},${c ? `{${c}}` : 'null'},${x},${rq})` };
    const H = (k, ops) => k === 'fn' && /seal.*freeze/.test(ops.join()) ? { src: 'L(0)' } : H0(k, ops);
    const H0 = (k, ops) => { const strict = ops.length % 2 === 0; return { src: `vn=9;MG=${k === 'marg' ? 1 : 0};o=${kinds[k]};__log(DD(o));` + ops.map(p => `T(()=>{${strict ? '' : '"use strict";'}${p}});__log(DD(o));`).join('') }; };
    for (const k of hkinds) for (const ops of seqsUpTo(k === 'ta' ? hops.filter(x => !/seal|freeze\(o\)|for\(var/.test(x)) : hops, 2, 1)) yield H(k, ops);
    for (const k of Object.keys(kinds)) if (!hkinds.includes(k)) for (const a of hops) if (!(/seal/.test(a) && /64/.test(k))) yield H(k, [a]);
    // key order and representation: adds and deletes only
    const kk = ['0', '1', '17', '40', '"a"', '"b"', '4294967294', '4294967295', 'Y'];
    const small = [...kk.slice(0, 7).map(x => `o[${x}]=V()`), ...kk.slice(0, 6).map(x => `delete o[${x}]`), 'for(i=0;i<20;i++)o[i]=i', 'for(i=20;i>=1;i--)delete o[i]', 'Object.defineProperty(o,3,{get:g1,configurable:true})', 'o.length=1', 'for(i=30;i>=0;i-=3)o[i*2]=i'];
    const small2 = [...kk.slice(2, 6).map(x => `o[${x}]=V()`), 'delete o[17]', 'delete o.a', 'delete o[1]', 'for(i=0;i<20;i++)o[i]=i', 'for(i=20;i>=1;i--)delete o[i]', 'Object.defineProperty(o,1,{get:g1,configurable:true})', 'o.length=18', 'for(i=30;i>=0;i-=3)o[i*2]=i'];
    for (const k of ['ord', 'arr']) for (const ops of seqs(small, 3)) yield H(k, ops);
    for (const k of ['ord', 'arr']) for (const ops of seqs(small2, 4)) yield H(k, ops);
    if (th) { for (const k of hkinds) for (const ops of seqs(k === 'ta' ? hops.filter(x => !/seal|freeze\(o\)|for\(var/.test(x)) : hops, 3)) yield H(k, ops); for (const k of ['ord', 'arr', 'hole', 'marg', 'fn']) for (const ops of seqs(small, 4)) yield H(k, ops); for (const k of ['ord', 'arr']) for (const ops of seqs(small2, 5)) yield H(k, ops); }
    for (const p of props) for (const q of props) for (const r of robs) for (const fl of ['', 'Object.freeze(o)', 'Object.freeze(pr)', 'Object.preventExtensions(o)']) for (const s of ['Reflect.set(o,"p",4,RC)', 'Reflect.get(o,"p",RC)', 'RC.p=4', '(()=>{"use strict";o.p=4})()']) yield { src: `var pr={${q}};o={__proto__:pr,${p}};${fl};RC=${r === 'o' ? r : '(' + r + ')'};T(()=>${s});T(()=>DD(o)+DD(pr));T(()=>DD(RC))` };
    for (const p of props) for (const q of props) for (const k of ['o', 'f1', '[]', 'class A{}', 'new Proxy({p:1},{})']) for (const e of ['super.p=4', 'super.p', 'super.p++']) yield { src: `var pr={${q}};o={__proto__:pr,${p},m(){return ${e}}};RC=${k === 'o' ? k : '(' + k + ')'};T(()=>o.m.call(RC));T(()=>DD(o)+DD(RC));T(()=>{Object.freeze(RC);o.m.call(RC)})` };
    for (const vv of VV) for (const u of un) if (!(/Uint8/.test(vv) && /seal/.test(u) || /LH/.test(vv) && /^R\(|for_in/.test(u))) yield { src: `v=(${vv});T(()=>${u});T(()=>Object(v)===v&&typeof v!=='function'?DD(v):0)` };
    for (const vv of VV) for (const b of bin) for (const kk of KK) if (!(/__proto__/.test(kk) && /\.\.\.r/.test(b))) yield { src: `v=(${vv});k=${kk};RC={};T(()=>Q(${b}));T(()=>Object(v)===v&&typeof v!=='function'?DD(v):0)` };
    for (const x of ['a', 'b', 'c', 'px', 'f1', 'fz']) for (const p of protoPairs) for (const y of ['a', 'b', 'c', 'px', 'f1']) for (const q of protoPairs) if (!(x === 'px' && !/null|Object.prototype|5/.test(p) || y === 'px' && !/null|Object.prototype|5/.test(q))) for (const f of ['Object', 'Reflect', '__proto__']) { const s = (x, p) => f === '__proto__' ? `${x}.__proto__=${p}` : `${f}.setPrototypeOf(${x},${p})===${f === 'Object' ? x : 'true'}`; yield { src: `(()=>{var a={n:"a"},b={n:"b",__proto__:a},c={n:"c",__proto__:b},px=new Proxy({n:"q"},{}),f1=function(){},fz=Object.preventExtensions({});T(()=>Q(${s(x, p)}));T(()=>Q(${s(y, q)}));var n=x=>{var s="";for(var i=0;x&&i<6;i++){s+=x===a?"a":x===b?"b":x===c?"c":x===px?"p":x===Object.prototype?"O":x===f1?"f":"?";x=Object.getPrototypeOf(x)}return s};L([n(a),n(b),n(c),n(px),n(f1)]);L(b.isPrototypeOf(c));L(a.isPrototypeOf(px))})()` }; }
    for (const fk of fkinds) for (const m of fmuts) if (!(/delete/.test(m) && /__proto__|Object.create\(\{/.test(fk))) for (const w of ['true', 'c==="b"||c==="1"', 'n==1']) { const f = x => `o=${fk};T(()=>{var n=0;for(var c ${x}){L(c);n++;if(n>30)throw "inf";if(${w}){${m}}}return n})`; yield { src: f('in o'), ref: f('of EOP(o)') }; }
    // descriptor objects: which fields are read, in which order
    for (const f of ['value', 'writable', 'get', 'set', 'enumerable', 'configurable']) for (const g of ['value', 'writable', 'get', 'set', 'enumerable', 'configurable']) for (const x of ['1', '""', 'f1', 'undefined', 'null', 'g1', '{}']) for (const y of ['0', 'f1', 'undefined', '"x"']) for (const w of ['{}', 'Object.create(dd)', 'new Proxy(dd,LH())']) yield { src: `(()=>{var dd={get ${f}(){L("${f}");return ${x}},${g}:${y}};T(()=>Reflect.defineProperty(o={},"n",${w === '{}' ? 'dd' : w}));L(DD(o))})()` };
  }
};
