// Array functions on dense, holey, sparse, frozen, exotic and array-like receivers; callbacks that mutate; sorting.
import { P0, product, seqs, seqsUpTo, permutations } from '../lib/prelude.mjs';
const ix = ['-Infinity', '-4', '-1', '-0.5', '0', '1', '1.9', '2', '3', '5', 'Infinity', 'NaN', 'undefined', '"1"', 'N(1)', 'null'];
const ix2 = ['-3', '-1', '0', '1', '2', '4', 'undefined'];
const ixb = ['2**32', '-(2**32)', '2**53', '4294967295', '-4294967294', '1n', 'Y', 'TV()', '{}', '[]', 'true'];
const el = ['', '1', '2', 'undefined'];
const arrs = [...seqsUpTo(el, 3)].map(s => '[' + s.join() + (s.length && s[s.length - 1] === '' ? ',' : '') + ']');
const recv = ['[]', '[7]', '[7,8,9]', '[7,,9]', '[,,]', '[1,2,3,4,5]', 'SP(()=>{var a=[1];a[20]=2;return a})', 'SP(()=>{var a=[1,2];a.length=40;return a})', 'SP(()=>{var a=[];a[5]=1;a[2]=3;return a})', 'Object.freeze([7,8])', 'Object.seal([7,8])', 'Object.preventExtensions([7,,8])', 'SP(()=>{var a=[7,8];Object.defineProperty(a,"length",{writable:false});return a})', 'SP(()=>{var a=[7,8,9];Object.defineProperty(a,"1",{configurable:false});return a})', 'SP(()=>{var a=[7,8,9];Object.defineProperty(a,"1",{writable:false});return a})', 'SP(()=>{var a=[7,8,9];Object.defineProperty(a,"1",{get(){L("g1");return 5},set(v){L("s1"+v)},configurable:true,enumerable:true});return a})', 'SP(()=>{var a=[7,,9];a.__proto__={__proto__:Array.prototype,1:"p1",4:"p4"};return a})', 'SP(()=>{var a=[7,,9];a.__proto__={__proto__:Array.prototype,get 1(){return "gp"},set 1(v){L("sp"+v)},set 3(v){L("sp3"+v)}};return a})', 'new Sub(7,8,9)', 'new Sub2(7,8,9)', 'SP(()=>{var a=[7,8];a.constructor=undefined;return a})', 'SP(()=>{var a=[7,8];a.constructor={[Symbol.species]:null};return a})', 'SP(()=>{var a=[7,8];a.constructor={[Symbol.species]:function(n){L("SP"+n);return {length:9}}};return a})', 'SP(()=>{var a=[7,8];a.constructor={[Symbol.species]:function(n){return Object.freeze({})}};return a})', 'SP(()=>{var a=[7,8];a.constructor=5;return a})', 'SP(()=>{var a=[7,8];a.constructor={};return a})', 'SP(()=>{var a=[7,8];a.constructor={[Symbol.species]:5};return a})', 'SP(()=>{var a=[7,8];Object.defineProperty(a,"constructor",{get(){throw "gc"}});return a})',
  'px([7,8,9])', 'px([7,,9])', 'px({length:3,0:7,2:9})', 'px(Object.freeze([7,8]))', '{length:3,0:7,1:8,2:9}', '{length:2,0:7,5:1}', '{length:"2",0:7,1:8}', '{length:N(2),0:7,1:8}', '{length:-1,0:7}', '{length:NaN,0:7}', '{length:1.7,0:7,1:8}', '{0:7}', '{get length(){L("gl");return 2},get 0(){L("g0");return 7},get 1(){L("g1");return 8}}', '{length:TV()}', '{get length(){throw "gl"}}', 'Object.freeze({length:2,0:7,1:8})', '{length:2,get 0(){throw "g0"},1:8}', '{length:2,0:7,set 1(v){L("s"+v)}}', '{length:3,0:7,1:8,2:9,constructor:Array}', '{length:Y}', '{length:2n}', '"abc"', '""', '5', 'true', 'null', 'undefined', 'Y', 'new String("ab")', 'new Uint8Array([7,8,9])', 'new Float64Array([3,1,2])', '(function(){return arguments})(7,8)', '(function(a,b){return arguments})(7,8)', 'function(a,b){}', 'new Map', 'RVP()', '{__proto__:[7,8,9]}', 'Object.create({length:2,0:7,1:8})'];
const heavy = ['{length:2**53-1}', '{length:2**53+5,9007199254740990:1}', '{length:Infinity}', 'SP(()=>{var a=[1,2];a.length=4294967295;return a})', '{length:4294967296,0:1,4294967295:2}', '{length:2**53-3}'];
const light = ['push()', 'push(1)', 'push(1,2)', 'push(1,2,3,4)', 'pop()', 'at(-1)', 'at(2**53-2)', 'at(4294967295)', 'slice(-2)', 'slice(9007199254740989)', 'slice(4294967290,4294967296)', 'slice(0,3)', 'splice(-1,1)', 'splice(9007199254740990,1)', 'splice(9007199254740990,0,"x","y")', 'splice(-1,1,"n")', 'indexOf(1,-3)', 'indexOf(1,9007199254740990)', 'includes(undefined,-2)', 'includes(1,-2)', 'lastIndexOf(1,1)', 'lastIndexOf(1,-4294967290)', 'fill(5,-2)', 'fill(5,9007199254740990)', 'fill(5,4294967293,4294967297)', 'copyWithin(-3,-2)', 'copyWithin(0,-2)', 'copyWithin(4294967290,0,3)', 'unshift()', 'unshift(1)', 'with(0,1)', 'with(-1,1)', 'toSpliced(0,0)', 'toSpliced(0,0,1)', 'toSpliced(0)', 'toReversed()', 'toSorted()', 'concat.name', 'keys().next()', 'entries().next()', 'find(()=>1)', 'findLast(()=>1)', 'findLastIndex(()=>1)', 'flat.length', 'find(x=>x===1)'.slice(0, 0) || 'findIndex(()=>1)', 'map(()=>1)'];
const vals = ['7', '8', 'undefined', 'NaN', '"x"', '-0', 'null', 'N(7)', 'Y', '9n'];
const cbs = ['every', 'some', 'forEach', 'map', 'filter', 'find', 'findIndex', 'findLast', 'findLastIndex', 'flatMap'];
const cb = ['x=>L(x)', '(x,i,o)=>{L(i);L(o===a);return i==1}', 'function(x,i){"use strict";L(this);return true}', 'function(x,i){L(typeof this);return false}', '(x,i)=>{if(i==1)throw "cb";return x}', 'x=>[x,[x]]', 'x=>x', '()=>0', 'async x=>x', '(x,i)=>({length:2,0:x})', 'x=>px([x])'];
const badcb = ['undefined', 'null', '5', '{}', '"f"', 'class{}', 'Y', '/x/', ''];
const muts = ['a.push(9)', 'a.pop()', 'a.length=0', 'a.length=1', 'a.shift()', 'a.unshift(0)', 'delete a[2]', 'delete a[1]', 'a[2]="m"', 'a[7]="q"', 'a.reverse()', 'a.splice(0,1)', 'Object.freeze(a)', 'a.length=10', 'a=null', 'Object.defineProperty(a,1,{get(){L("mg");return "G"},configurable:true})', 'a.__proto__={2:"pp"}', 'for(;a.length<40;)a.push(a.length)', 'a.fill("z")', 'a[1]=a'];
const nargs = { concat: ['', '1', '[2,3]', '[,4]', 'SPR', 'SPN', '"s"', 'new Sub(5)', '[[6]]', 'px([1])', 'null,undefined', '{length:2}', 'SPT', 'SPL', '[1],[,2],3', 'new Uint8Array(2)', '1,SPH'], push: ['', '1', '1,2', 'undefined', 'a'], unshift: ['', '1', '1,2', 'undefined,3,4'], join: ['', '"-"', 'undefined', 'null', '""', '5', '{toString(){L("ts");return "+"}}', 'Y', 'TV()'], flat: ['', '0', '1', '2', 'Infinity', '-1', 'NaN', '"1"', 'N(1)', 'undefined', 'TV()', 'Y'], pop: [''], shift: [''], reverse: [''], toReversed: [''], toString: [''], toLocaleString: [''], keys: [''], entries: [''], values: [''], sort: ['', 'undefined', 'null', '5', '{}', '(x,y)=>y-x', '()=>0', '()=>{throw "c"}', '(x,y)=>(x>y?"1":"-1")', '()=>NaN', '(x,y)=>({valueOf(){return x<y?1:-1}})', '()=>Y', '()=>1n', 'function(x,y){if(!vn++)L(this===undefined);return 0}'], toSorted: ['', 'undefined', 'null', '5', '(x,y)=>y-x', '()=>0', '()=>{throw "c"}', '(x,y)=>(x>y?1:-1)', 'function(){"use strict";if(!vn++)L(this===undefined);return 0}', '()=>Y'] };
const sortvals = ['3', '"10"', '9', 'undefined', 'null', '', 'N(5)', '"a"', '-1', 'NaN', '[2]', '{}', 'true', '1n', '"é"', '"\\ud83d\\ude00"', '"\\uffff"'];
const mutseq = ['a.push(V())', 'a.push(V(),V())', 'a.pop()', 'a.shift()', 'a.unshift(V())', 'a.unshift(V(),V())', 'a.splice(1,1)', 'a.splice(1,0,V())', 'a.splice(0,2,V())', 'a.splice(-1,1,V(),V())', 'a.length=1', 'a.length=3', 'a.length=6', 'a[1]=V()', 'a[4]=V()', 'a[25]=V()', 'delete a[0]', 'delete a[1]', 'a.fill(V(),1,3)', 'a.reverse()', 'a.copyWithin(0,1)', 'a.copyWithin(1,0)', 'a.sort((x,y)=>y-x)', 'a=a.concat([,V()])', 'a=a.slice(1)', 'a=a.flat()', 'a=a.map(x=>x)', 'a=a.toSpliced(0,1)', 'a=a.filter(()=>true)', 'Object.defineProperty(a,1,{value:V(),configurable:false,writable:true})'];
const froms = ['[1,,3]', '"a\\ud83d\\ude00b"', '{length:2,0:1,1:2}', 'new Set([1,2])', 'new Map([[1,2]])', 'IT(3)', '{length:"2",0:7}', '{length:-1}', '{}', '5', 'null', 'undefined', 'px([1,2])', '{[Symbol.iterator]:null,length:1,0:4}', '{[Symbol.iterator]:undefined,length:1,0:4}', '{[Symbol.iterator]:5}', '{[Symbol.iterator](){return 5}}', 'new Uint8Array(2)', '(function*(){yield 1;yield 2})()', '{length:TV()}', '{length:2,get 0(){throw "g0"}}', 'function(a,b){}', 'IT(2).next'];
const ctors = ['Array', 'Sub', 'Sub2', 'Object', 'function(n){L("C"+arguments.length+":"+n);this.n=n}', 'function(n){L("F"+arguments.length);return Object.freeze([])}', 'undefined', '5', 'function(){return new Proxy({},{defineProperty(t,k,d){L("dp"+String(k));return true},set(t,k,v){L("set"+String(k)+v);return true}})}', 'function(){throw "ctor"}', '()=>{}', 'Map', 'function(){return px([])}', 'function(){var o={};Object.defineProperty(o,"length",{set(v){L("sl"+v)}});return o}', 'function(){var o={};Object.defineProperty(o,"length",{value:5});return o}', 'Uint8Array', 'String'];
const actor = ['', '0', '3', '-1', '1.5', '4294967295', '4294967296', 'NaN', '"3"', 'undefined', 'null', 'true', '{}', '[]', '3n', '1,2', 'undefined,undefined', '-0', 'N(2)', 'Y', 'Infinity'];
export default {
  id: 'C11', level: 'exploration', reset: 300, variants: ['plain'],
  rule: 'one case = one array function on one receiver with one argument list, one mutating callback, one operation history or one sort input; all distinct; non-trivial: every case',
  prelude: P0 + String.raw`
var a,r,vn=0,Y=Symbol("Y");function V(){return ++vn}
class Sub extends Array{} class Sub2 extends Array{static get [Symbol.species](){L("spec");return Array}}
function N(n){return{valueOf(){L("v"+n);return n}}} function TV(){return{valueOf(){L("TV");throw "TV"}}}
function SP(f){return f()} function RVP(){var r=Proxy.revocable([],{});r.revoke();return r.proxy}
function px(t){var h={};for(let n of ["get","set","has","deleteProperty","ownKeys","getOwnPropertyDescriptor","defineProperty","getPrototypeOf","setPrototypeOf","isExtensible","preventExtensions"])h[n]=function(t,k){__log(n[0]+n[n.length>9?3:1]+(typeof k==="string"||typeof k==="symbol"?String(k).replace("Symbol.",""):""));return Reflect[n].apply(null,arguments)};var p=new Proxy(t,h);PT.set(p,t);return p}
var PT=new WeakMap;
function ST(o){if(Object(o)!==o)return o;if(PT.has(o))o=PT.get(o);try{if(typeof o==="function")return "fn";return DESC(o)}catch(e){return __E(e)}}
function SS(o){if(Object(o)===o&&PT.has(o))o=PT.get(o);if(Object(o)===o&&Reflect.ownKeys(o).length>100)return "big";return o}
function RR(r){if(r===a)return "same";if(Object(r)===r&&typeof r.next==="function"){var o=[],x,i=0;while(i++<50&&!(x=r.next()).done)o.push(x.value);return o}if(Object(r)===r&&PT.has(r))return PT.get(r);return Array.isArray(r)&&r.constructor!==Array?[typeof r.constructor==='function'?r.constructor.name:r.constructor,r]:r}
function IT(n,f){var i=0;return{[Symbol.iterator](){L("it");return this},next(){L("n"+i);return{value:i,done:i++>=n}},return(){L("rt");return{}}}}
var SPR={length:2,0:"x",1:"y",[Symbol.isConcatSpreadable]:true},SPN=[1,2],SPT={get [Symbol.isConcatSpreadable](){throw "ics"}},SPL={length:3,2:"z",[Symbol.isConcatSpreadable]:1},SPH={length:2**53-1,[Symbol.isConcatSpreadable]:true};SPN[Symbol.isConcatSpreadable]=false;
function srt(l,c){var x=l.slice().sort(c);__log(x.map(e=>typeof e==="object"&&e?e.k+e.t:String(e)).join(" "))}
// inconsistent comparators: the result must be a permutation and the call must end
function perm(n,tab,w){var x=[];for(var i=0;i<n;i++)x.push(i);var y=x.slice(),c=0,f=(p,q)=>{if(++c>5000)throw "diverge";return tab(p,q)};var z=w?y.toSorted(f):y.sort(f);var k=z.slice().sort((p,q)=>p-q);__log(k.join()===x.join()?"perm":"LOST"+z.join())}
`,
  bounds: {
    quick: `${arrs.length} arrays of length <= 3 over {hole,1,2,undefined} x index functions x ${ix2.length}..${ix.length} values per argument; ${recv.length} receivers x all functions x boundary arguments; ${heavy.length} huge receivers; callbacks x ${muts.length} mutations at every step; sequences of 3 out of ${mutseq.length} mutators (length 3 receivers); Array.from/of; sorting: all inputs of length <= 5 over 3 keys, ${sortvals.length}^3 values by default order, patterns up to length 70, all 3x3 comparator tables`,
    thorough: 'mutator sequences of depth 4, arrays of length 4, sorting inputs of length 7, all receivers x all argument pairs'
  },
  *gen(tier) {
    const th = tier === 'thorough';
    const C = (rc, e) => ({ src: `vn=0;a=${/^function|^\{/.test(rc) ? '(' + rc + ')' : rc};T(()=>r=RR(${e}));T(()=>ST(a))` });
    const m = (f, args) => `Array.prototype.${f}.call(a${args ? ',' + args : ''})`;
    const A2 = th ? [...seqsUpTo(el, 4)].map(s => '[' + s.join() + (s.length && s[s.length - 1] === '' ? ',' : '') + ']') : arrs;
    // small arrays, exhaustively, with all index pairs
    for (const x of A2) {
      for (const s of ix2) for (const e of [null, ...ix2]) { const p = e === null ? s : s + ',' + e; yield C(x, `a.slice(${p})`); yield C(x, `a.fill(9,${p})`); yield C(x, `a.splice(${p})`); yield C(x, `a.splice(${p},"x","y")`); yield C(x, `a.toSpliced(${p},"x")`); for (const t of th ? ix2 : ['0', '1', '-2']) yield C(x, `a.copyWithin(${t},${p})`); }
      for (const s of ix2) { for (const v of ['1', '2', 'undefined', 'NaN']) for (const f of ['indexOf', 'lastIndexOf', 'includes']) yield C(x, `a.${f}(${v},${s})`); yield C(x, `a.at(${s})`); yield C(x, `a.with(${s},9)`); yield C(x, `a.flat(${s})`); }
      for (const f of ['reverse()', 'toReversed()', 'sort()', 'toSorted()', 'pop()', 'shift()', 'unshift(8,9)', 'push(8,9)', 'join()', 'concat([,1])', 'keys()', 'entries()', 'values()', 'indexOf(1)', 'lastIndexOf(1)', 'includes()', 'lastIndexOf(undefined)', 'toString()', 'reduce((x,y)=>[x,y])', 'reduceRight((x,y)=>[x,y])', 'map(x=>x)', 'filter(()=>1)', 'flatMap(x=>[x,x])', 'findLast(x=>L(x)===1)', 'find(x=>L(x)===1)', 'every(x=>L(x)!==2)', 'some(x=>L(x)===2)', 'forEach(L)']) yield C(x, 'a.' + f);
    }
    // all receivers, all functions
    for (const rc of recv) {
      for (const f of Object.keys(nargs)) for (const g of nargs[f]) { if (rc === 'Y' && /toLocale/.test(f)) continue; if (/sort|Sorted/.test(f) && /x[-<>]?y|y-x|x>y/.test(g) && /"p1"|"gp"/.test(rc)) continue; /* no total order */ yield C(rc, m(f, g)); }
      const one = [...ix, ...ixb], two = th ? [...ix, ...ixb.slice(0, 4), 'TV()'] : ix2;
      for (const f of ['at', 'slice', 'splice', 'toSpliced', 'flat']) for (const x of one) yield C(rc, m(f, x));
      for (const f of ['fill', 'with', 'copyWithin']) for (const x of one) yield C(rc, m(f, f === 'fill' ? '"F",' + x : f === 'with' ? x + ',"W"' : x));
      for (const x of two) for (const y of [...two, 'TV()']) { yield C(rc, m('slice', x + ',' + y)); yield C(rc, m('splice', x + ',' + y)); yield C(rc, m('splice', x + ',' + y + ',"i","j"')); yield C(rc, m('toSpliced', x + ',' + y + ',"i","j"')); yield C(rc, m('copyWithin', '1,' + x + ',' + y)); yield C(rc, m('copyWithin', x + ',0,' + y)); yield C(rc, m('fill', '"F",' + x + ',' + y)); }
      for (const f of ['indexOf', 'lastIndexOf', 'includes']) { yield C(rc, m(f, '')); for (const v of vals) { yield C(rc, m(f, v)); for (const x of ['-1', '1', 'undefined', 'Infinity', '-Infinity', 'N(0)', 'TV()', '-0.5']) yield C(rc, m(f, v + ',' + x)); } }
      for (const f of cbs) { for (const c of cb) { yield C(rc, m(f, c)); yield C(rc, m(f, c + ',"T"')); } for (const c of badcb) yield C(rc, m(f, c)); }
      for (const f of ['reduce', 'reduceRight']) { for (const c of ['(x,y,i,o)=>{L(i);L(o===a);return x+"|"+y}', '(x,y)=>L(x)', '()=>{throw "c"}', ...badcb]) { yield C(rc, m(f, c)); yield C(rc, m(f, c + ',"I"')); yield C(rc, m(f, c + ',undefined')); } }
      yield C(rc, 'Array.isArray(a)'); yield C(rc, 'a.length=1'); yield C(rc, 'a.length=0'); yield C(rc, '[...a]'); yield C(rc, 'Array.from(a)'); yield C(rc, '[].concat(a)'); yield C(rc, '[].concat(a,a)'); yield C(rc, 'Object.assign([],a)'); yield C(rc, 'String.raw({raw:a},1,2)'); yield C(rc, 'Math.max.apply(null,a)'); yield C(rc, '[a,a].flat()'); yield C(rc, '[a].join()'); yield C(rc, '[[a],a].flat(2)');
    }
    for (const rc of heavy) for (const l of light) { if (/-3\}/.test(rc) && /unshift\(1/.test(l) || /\*\*|Inf/.test(rc) && /lastIndexOf\(1,-4/.test(l)) continue; if (/4294967296|2\*\*53|Infinity/.test(rc) && /^(toReversed|toSorted|map)/.test(l) && 0) continue; if (/4294967295/.test(rc) && /toSpliced|toReversed|toSorted|^with|copyWithin\(0|splice\(0|^map|^at\(2|unshift|copyWithin\(42/.test(l)) continue; if (/findLast|unshift\(1|copyWithin\(0|splice\(-1,1\)$/.test(l) && 0) continue; if (/4294967296/.test(rc) && /unshift\(1|^fill\(5,90|toSpliced|with/.test(l)) continue; yield C(rc, `Array.prototype.${l.replace('(', '.call(a,').replace(',)', ')').replace(/^(\w+\.name|\w+\.length)$/, '$1')}`); }
    // callbacks that change the array at one step
    for (const f of [...cbs, 'sort', 'toSorted', 'reduce', 'reduceRight', 'from', 'forof', 'iter']) for (const mu of muts) for (const at of [1, 2, 3]) for (const rc of ['[7,8,9]', '[7,,9,10]', 'px([7,8,9])', '{length:3,0:7,1:8,2:9}']) {
      if (/sort|toSorted/.test(f) && (rc[0] === 'p' || at > 1)) continue; if (/a=null/.test(mu) && /sort/.test(f)) continue;
      if (/^\{/.test(rc) && /a\.(push|pop|shift|un|rev|spl|fill)/.test(mu)) continue;
      const g = `(x,i)=>{if(++n==${at}){${mu}}L(x);return ${/sort|Sorted/.test(f) ? '0' : /find|some/.test(f) ? 'false' : 'true'}}`;
      const e = f === 'from' ? `Array.from(a,${g})` : f === 'forof' ? `(()=>{for(var x of a){if(++n==${at}){${mu}}L(x);if(n>60)break}})()` : f === 'iter' ? `(()=>{var it=Array.prototype.entries.call(a),x;while(!(x=it.next()).done){if(++n==${at}){${mu}}L(x.value);if(n>60)break}return it.next()})()` : /^reduce/.test(f) ? `Array.prototype.${f}.call(a,(p,x,i)=>{if(++n==${at}){${mu}}L(x);return i})` : `Array.prototype.${f}.call(a,${g})`;
      if (/^\{|px/.test(rc) && f === 'forof' && rc[0] === '{') continue;
      if (/sort|Sorted/.test(f)) { yield { src: `a=${rc};var n=0;T(()=>{var o=a,s=${e.replace(/L\(x\);/, '')};return [s===o,SS(s)]});T(()=>ST(a))` }; continue; }
      yield { src: `a=(${rc});var n=0;T(()=>RR(${e}));T(()=>ST(a))` };
    }
    // histories of mutators
    for (const rc of ['[]', '[91,92,93]', '[91,,93]', 'new Sub(91,92)']) for (const q of seqs(mutseq, th && rc !== '[]' ? 4 : 3)) yield { src: `vn=0;a=${rc};${q.map(x => `T(()=>{"use strict";return RR(${x})});`).join('')}T(()=>[ST(a).length,SS(a)])` };
    // Array, Array.of, Array.from
    for (const c of ctors) { for (const g of ['', '1', '1,2', 'undefined', '[]']) yield { src: `T(()=>RR(Array.of.call(${c}${g ? ',' + g : ''})))` }; for (const f of froms) for (const mf of ['', ',undefined', ',x=>L(x)', ',(x,i)=>i,5', ',function(x,i){L(this);L(arguments.length);return x},"t"', ',5', ',null', ',()=>{throw "mf"}']) yield { src: `T(()=>RR(Array.from.call(${c},${f}${mf})))` }; }
    for (const x of actor) for (const f of ['Array', 'new Array', 'new Sub', 'Array.of', 'new class extends Array{constructor(...a){super(...a)}}', 'Reflect.construct.bind(null,Array)']) yield { src: f.startsWith('Reflect') ? `T(()=>{var r=Reflect.construct(Array,[${x}],Sub);return [r.length,r.constructor===Sub,Reflect.ownKeys(r)]})` : f.startsWith('new class') ? `T(()=>{var r=new (class Q extends Array{constructor(...a){super(...a)}})(${x});return [r.length,r.constructor.name,Reflect.ownKeys(r)]})` : `T(()=>{var r=${f}(${x});return [r.length,r.constructor.name,r.length<50?r:0]})` };
    for (const v of actor.filter(x => !/,|^$/.test(x))) for (const rc of ['[1,2,3,4,5]', 'SP(()=>{var a=[1,2,3];Object.defineProperty(a,1,{configurable:false});return a})', 'Object.freeze([1,2])', 'SP(()=>{var a=[1,2];a[50]=3;return a})']) for (const w of ['a.length=V', '(()=>{"use strict";a.length=V})()', 'Object.defineProperty(a,"length",{value:V})===a', 'Reflect.set(a,"length",V)', 'Reflect.defineProperty(a,"length",{value:V,writable:false})', 'Reflect.defineProperty(a,"length",{value:V,enumerable:true})', 'Reflect.set([],"length",V,a)']) yield { src: `a=${rc};T(()=>${w.replace(/V/g, v)});T(()=>a.length<60?ST(a):a.length)` };
    // sorting
    const ks = ['a', 'b', 'c'];
    for (const l of seqsUpTo([0, 1, 2], th ? 7 : 5)) yield { src: `a=[${l.map((k, i) => `{k:"${ks[k]}",t:${i}}`).join()}];T(()=>{srt(a,(x,y)=>x.k<y.k?-1:x.k>y.k?1:0);srt(a,(x,y)=>y.k.charCodeAt(0)-x.k.charCodeAt(0));srt(a,()=>0);srt(a.toSorted((x,y)=>(x.k>y.k)-(x.k<y.k)),()=>0)})` };
    for (const l of seqs(sortvals, 3)) yield { src: `a=[${l.join()}${l[2] === '' ? ',' : ''}];T(()=>SS(a.sort()));T(()=>[${l.join()}${l[2] === '' ? ',' : ''}].toSorted())` };
    if (th) for (const l of seqs(sortvals.slice(0, 9), 4)) yield { src: `a=[${l.join()}${l[3] === '' ? ',' : ''}];T(()=>SS(a.sort()))` };
    for (let n = 0; n <= (th ? 200 : 70); n++) for (const pat of ['i', 'n-i', 'i%2', 'i%3', 'i%7', '(i*7)%n', '(i*i)%11', 'Math.abs(n/2-i)', '0', 'i<n/2?i*2:(n-i)*2', 'i^5', '(i*37)%13']) yield { src: `T(()=>{var n=${n},a=[];for(var i=0;i<n;i++)a.push({k:${pat},t:"_"+i});srt(a,(x,y)=>x.k-y.k);srt(a,(x,y)=>y.k-x.k);srt(a.map(x=>x.k));srt(a.map(x=>x.k),(x,y)=>x>y?1:x<y?-1:0);srt(a.map((x,i)=>i%5==2?undefined:x.k))})` };
    for (let t = 0; t < 19683; t += 27) yield { src: `for(var t=${t};t<${t + 27};t++){let T=t;perm(3,(p,q)=>Math.floor(T/3**(p*3+q))%3-1,T&1)}` };
    for (let n = 0; n <= 40; n++) for (const c of ['()=>1', '()=>-1', '(p,q)=>(p*7+q*3)%5-2', '(p,q)=>p%2?1:-1', '(p,q)=>(p^q)%3-1', '()=>Infinity', '()=>NaN', '(p,q)=>q%3-1', '(p,q)=>p>q?-1:-1', '(()=>{var s=1;return()=>(s=(s*16807)%2147483647)%3-1})()', '()=>undefined', '()=>true', '()=>"x"']) yield { src: `perm(${n},${c});perm(${n},${c},1)` };
    // receivers of sort with holes and undefined
    for (const l of seqsUpTo(['', '3', '1', 'undefined', '"x"'], 4, 1)) for (const rc of ['A', 'O', 'P']) { if (rc === 'P' && l.length < 2) continue; /* V8 does not touch them */ const ai = '[' + l.join() + (l[l.length - 1] === '' ? ',' : '') + ']'; yield { src: `a=${ai};${rc === 'O' ? 'a=Object.assign({length:a.length},a);' : rc === 'P' ? 'a=px(a);' : ''}T(()=>RR(Array.prototype.sort.call(a)));T(()=>ST(a));T(()=>Array.prototype.toSorted.call(a))` }; }
  }
};
