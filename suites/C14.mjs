// ArrayBuffer, typed arrays, DataView: element conversions, bounds, aliasing views, species, detachment at every step.
import { P0, product, seqs, seqsUpTo } from '../lib/prelude.mjs';
const TY = ['Int8', 'Uint8', 'Uint8Clamped', 'Int16', 'Uint16', 'Int32', 'Uint32', 'Float32', 'Float64', 'BigInt64', 'BigUint64'];
const big = t => /Big/.test(t), sz = t => /8$|Clamped/.test(t) ? 1 : /16/.test(t) ? 2 : /32/.test(t) ? 4 : 8;
const nv = ['0', '-0', '1', '-1', '0.5', '-0.5', '1.5', '2.5', '0.49999999999999994', '254.5', '255.5', '127', '128', '-128', '-129', '255', '256', '257', '32767', '32768', '-32769', '65535', '65536', '65537.9', '2147483647', '2147483648', '-2147483648', '-2147483649', '4294967295', '4294967296', '4294967297', '-4294967297', '2**53', '2**53+2', '2**63', '2**64', '2**100', '-(2**100)', '1e300', '-1e300', 'Infinity', '-Infinity', 'NaN', '1.17549435e-38', '1e-45', '7e-46', '7.1e-46', '3.4028235e38', '3.4028235677973366e38', '3.4028235677973362e38', '16777217', '16777219', '1.00000017881393421514957253748434595763683319091796875', '0.1', 'Number.MIN_VALUE', 'Number.MAX_VALUE', '1e21', '-1.9', '2**31+0.5', '-(2**31)-0.5', '-(2**32)-1', '2**52+0.5'];
const bv = ['0n', '1n', '-1n', '127n', '2n**63n-1n', '2n**63n', '-(2n**63n)', '-(2n**63n)-1n', '2n**64n-1n', '2n**64n', '2n**64n+1n', '-(2n**64n)', '2n**100n+5n', '-(2n**100n)-5n', '2n**32n', '2n**32n-1n', '-(2n**32n)', '2n**128n-1n'];
const ov = ['undefined', 'null', 'true', '"12"', '"x"', '" 0x10 "', '""', '[3]', '[]', '{}', 'VO(7)', 'VO(7n)', 'TH()', 'Y', '"1n"', '"-9223372036854775809"', 'new Date(5)', '{valueOf(){DT();return 5}}', '{valueOf(){DT();return 5n}}'];
const idx = ['0', '1', '2', '-1', '"1"', '"-0"', '-0', '1.5', '"1.0"', '"01"', '"+1"', '"1e0"', '"Infinity"', '"NaN"', '"x"', '4294967295', '2**53', '"9007199254740993"', 'Y', '"length"', '" 1"', '"-1"', '"0x1"', '1n', '"1e21"', '1e21', '"0.1"', '"1e-7"', '"0.0000001"'];
const ix = ['', 'undefined', '0', '1', '-1', '2', '3', '4', '5', '-4', '-5', '1.9', 'NaN', 'Infinity', '-Infinity', '"2"', 'VO(1)', 'null', 'TH()', 'DV(1)'];
const acc = ['Int8', 'Uint8', 'Int16', 'Uint16', 'Int32', 'Uint32', 'Float32', 'Float64', 'BigInt64', 'BigUint64'];
const srcs = ['undefined', 'null', '', '3', '0', '-0', '-1', '1.5', '2**53', '"3"', 'true', 'NaN', 'Infinity', '[1,2,3]', '[1,,3]', '["4",null]', '[1n,2n]', '{length:2,0:5,1:6}', '{length:"2",0:5}', '{length:-1}', '{length:0,0:1}', '{}', 'Y', '5n', 'IT([1,2,3])', 'IT([1n,2n])', 'new Set([1,2])', '"123"', 'new String("45")', 'new Uint8Array([1,2,255])', 'new Int16Array([-1,2])', 'new Float64Array([1.5,-1,1e10])', 'new BigInt64Array([1n,-1n])', 'new Float32Array([0.1])', 'new Uint8ClampedArray([300,-5])', 'new (class extends Uint8Array{})([9])', 'DTA()', 'new ArrayBuffer(16)', 'new ArrayBuffer(16),0', 'new ArrayBuffer(16),8', 'new ArrayBuffer(16),8,1', 'new ArrayBuffer(16),8,2', 'new ArrayBuffer(16),16', 'new ArrayBuffer(16),16,0', 'new ArrayBuffer(16),17', 'new ArrayBuffer(16),24', 'new ArrayBuffer(16),1', 'new ArrayBuffer(16),4', 'new ArrayBuffer(15)', 'new ArrayBuffer(15),8', 'new ArrayBuffer(7),0,1', 'new ArrayBuffer(16),-1', 'new ArrayBuffer(16),-8', 'new ArrayBuffer(16),"8"', 'new ArrayBuffer(16),undefined,1', 'new ArrayBuffer(16),0,undefined', 'new ArrayBuffer(16),0,-1', 'new ArrayBuffer(16),0,0', 'new ArrayBuffer(16),0,2**53', 'new ArrayBuffer(16),Infinity', 'new ArrayBuffer(16),VO(8),VO(1)', 'DB()', 'DB(),8', 'new ArrayBuffer(16),TH()', 'b16,{valueOf(){__detach(b16);return 8}}', 'b16,8,{valueOf(){__detach(b16);return 1}}', 'new SharedArrayBuffer(16)', 'new SharedArrayBuffer(16),8,1', '{get length(){L("len");return 1},get 0(){L("g0");return 7}}', '{get [Symbol.iterator](){L("git");return undefined},length:1,0:3}', '{[Symbol.iterator]:5}', '{[Symbol.iterator]:null,length:2,1:2}', 'px([1,2])', 'new Proxy(new Uint8Array(2),{})', '{length:{valueOf(){L("lv");return 2}}}', 'new DataView(new ArrayBuffer(2))', 'function(a,b){}', '1,2,3'];
// methods with arguments; A = the typed array, numeric flavour filled with small numbers
const M = { at: 1, copyWithin: 3, entries: 0, fill: 'v', includes: 'v', indexOf: 'v', lastIndexOf: 'v', join: 'j', keys: 0, reverse: 0, slice: 2, subarray: 2, sort: 's', toReversed: 0, toSorted: 's', values: 0, with: 'w', toString: 0, toLocaleString: 0, set: 'S', length: 'g', byteLength: 'g', byteOffset: 'g', buffer: 'g', '@tag': 'g' };
const CB = ['every', 'filter', 'find', 'findIndex', 'findLast', 'findLastIndex', 'forEach', 'map', 'reduce', 'reduceRight', 'some'];
const cbs = ['x=>L(x)', '(x,i,o)=>{L(i);L(o===A);return i==1}', 'function(x){L(this===o1);return x>1}', 'x=>{if(L(x)>1)throw "cb";return x}', '(x,i)=>{DT();L(x);return 1}', '(x,i)=>{if(i==1)DT();L(x);return x}', '(x,i)=>{A[2]=big?9n:9;L(x);return true}', 'undefined', '{}', 'class{}', '(p,x,i,o)=>{L(p);L(x);L(i);return x}', 'x=>big?300n:300', 'x=>"5"', 'x=>({valueOf(){DT();return big?5n:5}})'];
const recvs = ['{}', '[]', 'null', 'undefined', '5', 'new DataView(new ArrayBuffer(2))', 'new Proxy(new Uint8Array(2),{})', 'Uint8Array.prototype', 'Object.create(new Uint8Array(2))', 'new ArrayBuffer(3)', 'new SharedArrayBuffer(3)', 'DTA()', 'DB()', 'DDV()'];
const speciesV = ['undefined', 'null', 'Object', '5', 'Uint8Array', 'Int16Array', 'Float64Array', 'BigInt64Array', 'function(n,o,l){L("sp"+arguments.length);return new Uint8Array(10)}', 'function(){return new Uint8Array(1)}', 'function(){return {}}', 'function(){return A}', 'function(){return DTA()}', 'function(n){DT();return new Uint8Array(n)}', 'function(){return new BigInt64Array(4)}', 'function(){throw "sp"}', 'class X extends Uint16Array{}', 'function(){return new Uint8Array(A.buffer,1)}', '()=>1', 'function(n){L(n);return new Uint8ClampedArray(n)}'];
// random-access histories over several views of one buffer
const views = ['u8', 'i16', 'f32', 'f64', 'b64', 'dv'];
const wr = ['u8[V%16]=V*37', 'i16[V%8]=-V*999', 'f32[V%4]=V/3', 'f64[V%2]=-V*1e10', 'b64[V%2]=BigInt(V)*-12345678901n', 'dv.setInt32(V%13,V*1e8,V%2)', 'dv.setFloat64(V%9,V/7,true)', 'u8.set(u8.subarray(2,9),V%8)', 'u8.copyWithin(V%16,V%5,V%7+5)', 'i16.set([V,V+1],V%7)', 'f32.set(i16.subarray(0,4))', 'u8.fill(V,V%9,V%5+8)', 'i16.reverse()', 'f64.set(b)', 'u8.set(f32,3)', 'i16.set(u8.subarray(1,6))', 'u8.sort()', 'c8.set(i16,4)', 'dv.setBigUint64(V%9,BigInt(V)**20n)'];
export default {
  id: 'C14', level: 'exploration', reset: 300, variants: ['plain'],
  rule: 'one case = one value stored and read back, one construction, one method call, or one history of writes through aliasing views; all distinct; non-trivial: every case',
  prelude: P0 + String.raw`
var A,B,r,o1={},Y=Symbol("Y"),big=false,b16;function VO(v){return{valueOf(){L("v");return v}}} function TH(){return{valueOf(){throw "TH"}}} function DV(v){return{valueOf(){DT();return v}}}
function DT(){L("dt");try{if(BL.call(A.buffer))__detach(A.buffer)}catch(e){L("nd")}}
function DB(){var b=new ArrayBuffer(16);__detach(b);return b} function DTA(){var b=new Uint8Array(4);__detach(b.buffer);return b} function DDV(){var b=new DataView(new ArrayBuffer(4));__detach(b.buffer);return b}
function IT(l){var j=0;return{[Symbol.iterator](){L("it");return this},next(){L("n"+j);return{value:l[j],done:j++>=l.length}},return(){L("rt");return{}}}}
function px(t){return new Proxy(t,{get(t,k,r){L("g"+String(k));return Reflect.get(t,k,r)},has(t,k){L("h"+String(k));return k in t}})}
var TAP=Object.getPrototypeOf(Uint8Array.prototype),TA=TAP.constructor,BL=Object.getOwnPropertyDescriptor(ArrayBuffer.prototype,"byteLength").get;
function W(x){if(x===A)return "A";if(x===globalThis.b16)return "b16";if(ArrayBuffer.isView(x)&&!(x instanceof DataView))return x.constructor.name+x.byteOffset+"+"+x.length+":"+Array.from(x,__S)+(x.buffer===(A&&A.buffer)?"same":"");if(x instanceof DataView){try{return "DV"+x.byteOffset+"+"+x.byteLength}catch(e){return "DVdet"}}if(x instanceof ArrayBuffer)return "AB"+x.byteLength+":"+(x.byteLength?new Uint8Array(x):"");if(Object(x)===x&&typeof x.next==="function"){var o=[],z,n=0;while(n++<20&&!(z=x.next()).done)o.push(z.value);return o}return x}
function HX(b){var u=new Uint8Array(b),s="";for(var q=0;q<u.length;q++)s+=(u[q]<16?"0":"")+u[q].toString(16);__log(s)}
function MK(){b16=new ArrayBuffer(16)}
`,
  bounds: {
    quick: `${TY.length} element types x ${nv.length + bv.length + ov.length} stored values x 9 ways to store; ${idx.length} property keys x 10 operations; ${srcs.length} constructor argument lists x 11 types; all DataView accessors x offsets x values; all methods with <=3 indices from ${ix.length} values; callbacks that detach; ${speciesV.length} species; write histories of depth 3 over ${wr.length} operations on six views of one buffer`,
    thorough: 'write histories of depth 4; all 11 types for every method argument pair; all float32 rounding boundaries'
  },
  *gen(tier) {
    const th = tier === 'thorough';
    // conversions
    for (const t of TY) for (const v of [...nv, ...bv, ...ov]) {
      const n = `new ${t}Array`;
      yield { src: `big=${big(t)};A=${n}(2);T(()=>{A[1]=${v};return 1});T(()=>W(A));HX(A.length?A.buffer:0)` };
      if (/DT|TH|VO/.test(v) && !th) continue;
      const D = t === 'Uint8Clamped' ? null : t;
      yield { src: `big=${big(t)};A=${n}(2);T(()=>W(A.fill(${v})));A=${n}(2);T(()=>{A.set([${v}],1);return W(A)});T(()=>W(${n}([${v}])));T(()=>W(${t}Array.of(${v},${v})));T(()=>W(${t}Array.from([1],()=>${v})));A=${n}(3);T(()=>W(A.with(1,${v})));T(()=>W(A.map(()=>${v})));T(()=>Reflect.set(A,0,${v}));T(()=>Reflect.defineProperty(A,1,{value:${v}}));T(()=>W(A));T(()=>A.indexOf(${v}));T(()=>A.includes(${v}));T(()=>A.lastIndexOf(${v}))` };
      if (D) yield { src: `A=new DataView(new ArrayBuffer(9));T(()=>A.set${D}(1,${v}));T(()=>HX(A.buffer));T(()=>A.set${D}(0,${v},true));T(()=>HX(A.buffer));T(()=>A.get${D}(0,1));T(()=>A.get${D}(0))` };
    }
    // conversions between element types: every typed array source into every type
    for (const a of TY) for (const b of TY) { const l = (big(a) ? bv : nv).join(); yield { src: `A=new ${a}Array([${l}]);T(()=>W(new ${b}Array(A)));B=new ${b}Array(A.length);T(()=>{B.set(A);return W(B)});T(()=>W(${b}Array.from(A)))` }; for (const o of [0, 1, 2, 4, 8]) yield { src: `var b=new ArrayBuffer(64),q=new Uint8Array(b);for(var j=0;j<64;j++)q[j]=j*7+1;A=new ${a}Array(b,0,4);T(()=>{B=new ${b}Array(b,${o},4);B.set(A);return 1});HX(b)` }; }
    // bit patterns: every 16-bit-pattern family of float32/float64 read through integers
    for (let h = 0; h < 65536; h += th ? 64 : 512) yield { src: `var u=new Uint32Array(1),f=new Float32Array(u.buffer),d=new DataView(new ArrayBuffer(8)),s=0,n=0;for(var j=${h};j<${h + (th ? 64 : 512)};j+=1){u[0]=j*65536+(j*40503&65535);var x=f[0];if(x!==x)n++;else{f[0]=x;s=(s*31+u[0])|0}d.setUint32(0,u[0]);d.setUint32(4,j*2654435761);var y=d.getFloat64(0);if(y===y){d.setFloat64(0,y);s=(s*31+d.getUint32(0)+d.getUint32(4))|0;d.setFloat32(0,y);var z=d.getFloat32(0);if(z===z){s=(s*31+d.getUint32(0))|0;if(Math.fround(y)!==z)L("fround")}}}L(s);L(n)` };
    // keys
    for (const t of ['Uint8', 'Float64', 'BigInt64']) for (const k of idx) { const v = big(t) ? '5n' : '5';
      for (const det of ['', '__detach(A.buffer);']) for (const e of [`A[${k}]`, `A[${k}]=${v}`, `${k} in A`, `delete A[${k}]`, `Object.hasOwn(A,${k})`, `Object.getOwnPropertyDescriptor(A,${k})`, `Reflect.set(A,${k},${v})`, `Reflect.set(A,${k},${v},{})`, `Reflect.set({},${k},${v},A)`, `Reflect.set(Object.create(A),${k},${v})`, `Reflect.get(A,${k},{})`, `(()=>{"use strict";A[${k}]=${v};return A[${k}]})()`, `(()=>{"use strict";return delete A[${k}]})()`, `Reflect.has(Object.create(A),${k})`, `Object.create(A)[${k}]`, `Reflect.set(A,${k},TH())`]) yield { src: `A=new ${t}Array(2);${det}T(()=>W(${e}));T(()=>Reflect.ownKeys(A).map(String))` };
      for (const [w, en, c, val] of product(['', 'writable:true', 'writable:false'], ['', 'enumerable:true', 'enumerable:false'], ['', 'configurable:true', 'configurable:false'], ['', `value:${v}`, 'get(){}'])) if (!(val === 'get(){}' && w)) yield { src: `A=new ${t}Array(2);T(()=>Reflect.defineProperty(A,${k},{${[w, en, c, val].filter(x => x).join()}}));T(()=>W(A));T(()=>Object.getOwnPropertyDescriptor(A,${k}))` };
    }
    for (const t of TY) for (const f of ['preventExtensions', 'isExtensible']) for (const n of [0, 2]) yield { src: `A=new ${t}Array(${n});T(()=>Object.${f}(A)===A);T(()=>Object.isExtensible(A));T(()=>Reflect.ownKeys(A))` };
    // construction
    for (const t of TY) for (const s of srcs) { const q = /^\{/.test(s) ? `(${s})` : s;
      yield { src: `MK();big=${big(t)};T(()=>W(A=new ${t}Array(${q})))` }; yield { src: `MK();T(()=>W(${t}Array.from(${q})))` };
      if (th || t === 'Uint8' || t === 'BigInt64') { yield { src: `MK();T(()=>W(new (class extends ${t}Array{get length(){L("l");return 1}})(${q})))` }; yield { src: `MK();var nt=function(){}.bind();Object.defineProperty(nt,"prototype",{get(){${/^(3|0|-0|1.5|"3"|true|NaN||null|undefined)$/.test(q)?'L("pt");':''}return Array.prototype}});T(()=>Object.getPrototypeOf(Reflect.construct(${t}Array,[${q}],nt))===Array.prototype)` }; yield { src: `MK();T(()=>W(${t}Array.of(${q})));T(()=>W(${t}Array.from(${q},(x,i)=>{L(i);return x})))`}; } }
    for (const s of ['', '0', '1', '-1', '1.9', '"3"', 'NaN', 'undefined', 'null', '2**53', 'Infinity', '{}', '[]', 'Y', '1n', 'VO(4)', 'TH()', '-0.9', '-1n', '2**60']) for (const k of ['ArrayBuffer', 'SharedArrayBuffer']) { yield { src: `T(()=>new ${k}(${s}).byteLength);T(()=>${k}(${s}))` }; if (!/2\*\*|Inf/.test(s)) yield { src: `var nt=function(){}.bind();Object.defineProperty(nt,"prototype",{get(){L("pt");return null}});T(()=>Object.prototype.toString.call(Reflect.construct(${k},[${s}],nt)))` }; }
    for (const c of ['undefined', '{}', 'Array', 'Object', 'Uint8Array', 'TA', 'function(n){L(n);return new Uint8Array(n)}', 'function(n){return new Uint8Array(n-1)}', 'function(n){return {}}', 'function(n){return new BigInt64Array(n)}', 'function(n){return DTA()}', '()=>1', 'class extends Int8Array{}', 'function(n){return new Uint8Array(9)}']) for (const f of ['of.call(C,1,2)', 'of.call(C)', 'from.call(C,[1,2])', 'from.call(C,[])', 'from.call(C,IT([1,2]))', 'from.call(C,{length:2,0:1})', 'from.call(C,[1],x=>x,o1)', 'from.call(C,[1],5)', 'from.call(C,null)', 'from.call(C,{[Symbol.iterator]:5})', 'from.call(C,IT([1]),function(x,i){L(this===o1);return i},o1)', 'from.call(C,[TH()])', 'from.call(C,IT([TH()]))', 'from.call(C,[1,2],x=>{throw "m"})']) yield { src: `var C=(${c});T(()=>W(TA.${f}))` };
    // slice of buffers
    for (const k of ['ArrayBuffer', 'SharedArrayBuffer']) for (const s of ix) for (const e of ix) yield { src: `A=new Uint8Array(new ${k}(4));A.set([1,2,3,4]);T(()=>W(new Uint8Array(A.buffer.slice(${s || 'undefined'}${e ? ',' + e : ''}))))` };
    for (const sp of ['undefined', 'null', '5', 'ArrayBuffer', 'Object', 'function(n){L(n);return new ArrayBuffer(n)}', 'function(n){return new ArrayBuffer(1)}', 'function(n){return new ArrayBuffer(9)}', 'function(n){return A.buffer}', 'function(n){return DB()}', 'function(n){__detach(A.buffer);return new ArrayBuffer(n)}', 'function(n){return new SharedArrayBuffer(n)}', 'function(n){return new Uint8Array(n)}']) for (const a of ['', '1', '1,3', '-1']) for (const cc of ['{[Symbol.species]:SP}', 'SP', '{get [Symbol.species](){throw "gs"}}']) yield { src: `A=new Uint8Array([1,2,3,4]);var SP=(${sp});A.buffer.constructor=${cc};T(()=>W(A.buffer.slice(${a})))` };
    // DataView construction and accessors
    for (const s of ['', '0', '4', '8', '9', '-1', 'undefined', '1.5', 'NaN', '"4"', 'Infinity', 'VO(2)', 'TH()', 'DV(2)']) for (const l of ['', '0', '4', '8', '9', '-1', 'undefined', '1.9', 'null', '2**53', 'VO(2)', 'DV(1)']) for (const b of ['new ArrayBuffer(8)', 'new SharedArrayBuffer(8)', 'DB()', '{}', 'A']) { if (b === 'A' || b === '{}') { if (l === '' ) yield { src: `A=new Uint8Array(8);T(()=>W(new DataView(${b === 'A' ? 'A' : b},${s || 'undefined'})))` }; continue; } yield { src: `A={buffer:${b}};T(()=>{var d=new DataView(A.buffer,${s || 'undefined'}${l ? ',' + l : ''});return [d.byteOffset,d.byteLength,d.buffer===A.buffer]})` }; }
    for (const t of acc) for (const o of ['', '0', '1', '3', '4', '7', '8', '9', '-1', '-0.5', '1.5', 'NaN', 'undefined', '"2"', 'Infinity', '2**53', '2**53-1', '2**32', 'VO(1)', 'TH()', 'DV(0)', 'Y', '1n']) for (const le of ['', 'true', 'false', '1', '""', '{}']) {
      const v = big(t) ? ['-2n', '0x0102030405060708n', 'VO(1n)', '1', 'TH()', 'DV(1n)'] : ['-2', '16909060.7', 'VO(1)', '1n', 'TH()', 'DV(1)'];
      yield { src: `A=new DataView(new Uint8Array([1,130,3,132,5,134,7,136,9,138]).buffer,1,8);T(()=>A.get${t}(${o || 'undefined'}${le ? ',' + le : ''}));T(()=>HX(A.buffer))` };
      for (const x of le && le !== 'true' && !th ? v.slice(0, 1) : v) yield { src: `A=new DataView(new Uint8Array([1,130,3,132,5,134,7,136,9,138]).buffer,1,8);T(()=>A.set${t}(${o || 'undefined'},${x}${le ? ',' + le : ''}));T(()=>HX(A.buffer))` };
    }
    for (const f of [...acc.flatMap(t => ['get' + t, 'set' + t]), 'buffer', 'byteLength', 'byteOffset']) for (const q of recvs) yield { src: `var q=${/^\{/.test(q) ? `(${q})` : q};T(()=>{var d=Object.getOwnPropertyDescriptor(DataView.prototype,"${f}");return W((d.get||d.value).call(q,TH(),TH()))})` };
    for (const f of ['byteLength', 'slice']) for (const k of ['ArrayBuffer', 'SharedArrayBuffer']) for (const q of recvs) yield { src: `var q=${/^\{/.test(q) ? `(${q})` : q};T(()=>{var d=Object.getOwnPropertyDescriptor(${k}.prototype,"${f}");var r=(d.get||d.value).call(q,0,2);return typeof r==="number"?r:r.byteLength});T(()=>ArrayBuffer.isView(q))` };
    // methods
    const CA = (t, x) => ({ src: `big=${big(t)};A=new ${t}Array(${big(t) ? '[3n,1n,2n,1n]' : t === 'Float64' ? '[NaN,-0,1.5,0]' : '[3,1,2,1]'});T(()=>W(${x}));T(()=>W(A.length?Array.from(A):0))` });
    for (const t of th ? TY : ['Uint8', 'Int16', 'Float64', 'BigUint64']) {
      for (const m of Object.keys(M)) { const k = M[m], c = (...a) => { while (a.length && a[a.length - 1] === '') a.pop(); return `A.${m}(${a.map(x => x || 'undefined').join()})`; };
        if (k === 'g') { const g = m === '@tag' ? 'A[Symbol.toStringTag]' : `A.${m}`; yield CA(t, `typeof ${g}==="object"?1:${g}`); yield { src: `A=new ${t}Array(new ArrayBuffer(32),8,2);T(()=>[A.length,A.byteLength,A.byteOffset,A[Symbol.toStringTag]]);__detach(A.buffer);T(()=>[A.length,A.byteLength,A.byteOffset,A[Symbol.toStringTag],A.buffer.byteLength])` }; continue; }
        if (k === 0) { if (m !== 'toLocaleString' || t !== 'Float64') yield CA(t, c()); continue; }
        if (k === 1) for (const a of ix) yield CA(t, c(a));
        if (k === 2) for (const a of ix) for (const b of ix) yield CA(t, c(a, b));
        if (k === 3) for (const a of ix) for (const b of ix) for (const d of th || t === 'Uint8' ? ix : ['', '2', '-1', 'DV(3)', 'VO(3)']) yield CA(t, c(a, b, d));
        if (k === 'v') for (const v of big(t) ? ['1n', '2n', '5n', '1', 'undefined', 'VO(1n)', 'TH()', 'DV(1n)', '"1"'] : ['1', '0', '-0', 'NaN', '1.5', '"1"', '1n', 'undefined', 'VO(1)', 'TH()', 'DV(1)', '']) for (const a of ix) for (const b of m === 'fill' && a !== 'undefined' && a ? ix : ['']) yield CA(t, c(v, a, b));
        if (k === 'j') for (const s of ['', '"-"', 'null', 'undefined', '5', '{toString(){L("ts");return "+"}}', '{toString(){DT();return "+"}}', 'Y', '""']) yield CA(t, c(s));
        if (k === 's') for (const s of ['', 'undefined', 'null', '5', '{}', '(a,b)=>a<b?-1:a>b?1:0', '(a,b)=>a<b?1:a>b?-1:0', '(a,b)=>{throw "c"}', '(a,b)=>{DT();return 0}', '()=>0', '(a,b)=>NaN', '(a,b)=>"-1"', '(a,b)=>Y', 'class{}']) yield CA(t, c(s));
        if (k === 'w') for (const a of ix) if (!/O\(|V\(|H\(/.test(a)) for (const v of big(t) ? ['9n', '9', 'VO(9n)', 'TH()', 'DV(9n)'] : ['9', '9n', 'VO(9)', 'TH()', 'DV(9)', '"x"', '300']) yield CA(t, c(a, v));
        if (k === 'S') for (const s of ['', '[9,8]', '[9n,8n]', '[1,2,3,4,5]', '{length:1,0:VO(5)}', '{length:2,get 0(){DT();return 7},get 1(){L("g1");return 8}}', '"12"', '5', 'null', 'undefined', '{}', '{length:-1}', '[TH()]', 'A', 'A.subarray(1)', 'A.subarray(0,3)', 'new Int8Array([-1,-2])', 'new BigInt64Array([-1n])', 'new Uint8ClampedArray([7])', 'new Float32Array([1.5,300])', 'DTA()', 'px([1,2])', '[,1]', '{length:2**53}', 'new Uint8Array(A.buffer,1,2)', 'new Uint16Array(A.buffer,2,1)', 'Y']) for (const o of ix) yield CA(t, c(s, o));
      }
      for (const m of CB) for (const cb of cbs) for (const x of ['', 'o1', ...(/reduce/.test(m) ? ['undefined'] : [])]) yield CA(t, `A.${m}(${cb}${x ? ',' + x : ''})`);
      // species
      for (const sp of speciesV) for (const f of ['slice()', 'slice(1,3)', 'slice(3,1)', 'subarray(1)', 'subarray(0,2)', 'subarray(DV(0))', 'map(x=>x)', 'filter(x=>x>1)', 'filter(()=>true)', 'filter(()=>false)', 'slice(0,DV(2))', 'toReversed()', 'toSorted()', 'with(0,A[0])']) if (!(/slice\(3|subarray|filter\(\(\)=>false|map/.test(f) && (big(t) ? !/^(BigI|undef|null|5|Obj)/.test(sp) || /BigInt/.test(sp) : /BigI/.test(sp)))) yield { src: `big=${big(t)};A=new ${t}Array(${big(t) ? '[3n,1n,2n]' : '[3,1,2]'});var SP=(${sp});A.constructor={[Symbol.species]:SP};T(()=>W(A.${f}));T(()=>W(Array.from(A)))` };
      for (const cc of ['undefined', 'null', '5', '{}', big(t) ? 'BigInt64Array' : 'Uint8Array', '{get [Symbol.species](){DT();return undefined}}', '{get [Symbol.species](){throw "gs"}}']) for (const f of ['slice()', 'subarray(1)', 'map(x=>x)', 'filter(x=>x>1)']) yield { src: `big=${big(t)};A=new ${t}Array(3);A.constructor=${cc};T(()=>W(A.${f}));delete A.constructor;Object.defineProperty(A,"constructor",{get(){DT();return undefined}});T(()=>{var r=A.${f};return r.constructor.name+r.length})` };
    }
    // receivers
    for (const m of [...Object.keys(M).filter(m => M[m] !== 'g'), ...CB, '[Symbol.iterator]']) for (const q of recvs) yield { src: `A=new Uint8Array(2);var q=${/^\{/.test(q) ? `(${q})` : q};T(()=>W(TAP${m[0] === '[' ? m : '.' + m}.call(q,TH(),TH())))` };
    for (const m of ['length', 'byteLength', 'byteOffset', 'buffer', 'Symbol.toStringTag']) for (const q of recvs) yield { src: `var q=${/^\{/.test(q) ? `(${q})` : q};T(()=>{var r=Object.getOwnPropertyDescriptor(TAP,${/Sym/.test(m) ? m : `"${m}"`}).get.call(q);return typeof r==="object"?1:r})` };
    // generic Array functions applied to typed arrays
    for (const f of ['push(1)', 'pop()', 'shift()', 'unshift(1)', 'splice(0,1)', 'concat(A)', 'reverse()', 'sort()', 'fill(7)', 'slice(1)', 'indexOf(1)', 'includes(undefined)', 'copyWithin(0,1)', 'flat()', 'map(x=>x)', 'join()', 'keys()', 'toSpliced(0,1)', 'at(-1)', 'lastIndexOf(3)', 'filter(x=>1)', 'toSorted()']) for (const t of ['Uint8', 'BigInt64']) for (const det of ['', '__detach(A.buffer);']) yield { src: `A=new ${t}Array(${big(t) ? '[3n,1n]' : '[3,1]'});${det}T(()=>W(Array.prototype.${f.replace('(', '.call(A' + (/\(\)/.test(f) ? '' : ','))}));T(()=>Array.from(A.length?A:[]).map(String))` };
    // iteration with detachment
    for (const f of ['values', 'keys', 'entries']) for (const n of [0, 1, 2, 3]) yield { src: `A=new Uint8Array([5,6,7]);var it=A.${f}();${'T(()=>W(it.next()));'.repeat(n)}__detach(A.buffer);T(()=>it.next());T(()=>it.next())` };
    for (const e of ['for(var x of A){L(x);DT()}', '[...A]', 'Array.from(A,x=>{DT();return x})', 'for(var x in A){L(x);DT()}', 'Object.keys(A)', 'Object.entries(A)', 'JSON.stringify(A)', 'JSON.stringify({A},(k,v)=>{if(k==="0")DT();return v})', 'String(A)', 'A+""', 'Object.assign([],A)', '({...A})', 'A.concat', 'Math.max(...A)', 'Array.prototype.concat.call([],A)', 'new Set(A).size', 'structuredClone?.name', 'Object.freeze(A)===A', 'var [p,q=DT(),...s]=A;L(s)']) yield { src: `A=new Uint8Array([5,6,7]);T(()=>{${/^(for|var)/.test(e) ? e + ';return 1' : 'return W(' + e + ')'}})` };
    // sorting numeric types
    for (const t of TY) for (const s of seqs(big(t) ? ['0n', '-1n', '2n', '2n**63n'] : ['0', '-0', '-1', 'NaN', '10', '9'], th ? 5 : 3)) yield { src: `A=new ${t}Array([${s}]);L(W(A.toSorted()));${/NaN/.test(s)?'':'L(W(A.toSorted((a,b)=>a<b?1:a>b?-1:0)));'}L(W(A.sort()))` };
    // aliasing histories
    for (const s of seqs(wr, th ? 4 : 3)) yield { src: `var buf=new ArrayBuffer(16),u8=new Uint8Array(buf),c8=new Uint8ClampedArray(buf),i16=new Int16Array(buf),f32=new Float32Array(buf),f64=new Float64Array(buf),b64=new BigInt64Array(buf),dv=new DataView(buf),b=[1.5,-2];${s.map((o, i) => o.replace(/\bV\b/g, String(3 + i * 5))).join(';')};for(var q=0;q<16;q++)if((u8[q|3]&0x7f)>=0x7e)break;HX(buf)` };
    for (const k of [...TY.map(t => t + 'Array'), 'TA', 'DataView', 'ArrayBuffer', 'SharedArrayBuffer']) yield { src: `L(SURF(${k}));L(SURF(${k}.prototype));T(()=>${k}());T(()=>new ${k});T(()=>${k}.prototype.constructor===${k});T(()=>Object.getPrototypeOf(${k})===TA);T(()=>Object.prototype.toString.call(${k}.prototype));T(()=>TAP.values===TAP[Symbol.iterator]);T(()=>TAP.toString===Array.prototype.toString)` };
  }
};
