// The surface of every built-in, and Object, Function, Symbol, Error, Boolean and global functions over arguments of every type.
import vm from 'node:vm';
import { P0, product, seqsUpTo, pack } from '../lib/prelude.mjs';
const J = JSON.stringify;
export const GLOB = ['Object', 'Function', 'Array', 'String', 'Number', 'Boolean', 'Symbol', 'BigInt', 'Date', 'RegExp', 'Map', 'Set', 'WeakMap', 'WeakSet', 'WeakRef', 'FinalizationRegistry', 'Promise', 'Proxy', 'Reflect', 'JSON', 'Math', 'Atomics', 'ArrayBuffer', 'SharedArrayBuffer', 'DataView', 'Int8Array', 'Uint8Array', 'Uint8ClampedArray', 'Int16Array', 'Uint16Array', 'Int32Array', 'Uint32Array', 'Float32Array', 'Float64Array', 'BigInt64Array', 'BigUint64Array', 'Error', 'AggregateError', 'EvalError', 'RangeError', 'ReferenceError', 'SyntaxError', 'TypeError', 'URIError', 'eval', 'isFinite', 'isNaN', 'parseFloat', 'parseInt', 'decodeURI', 'decodeURIComponent', 'encodeURI', 'encodeURIComponent'];
export const HID = { G: 'Object.getPrototypeOf(function*(){})', AG: 'Object.getPrototypeOf(async function*(){})', AF: 'Object.getPrototypeOf(async function(){})', AI: 'Object.getPrototypeOf([][Symbol.iterator]())', MI: 'Object.getPrototypeOf(new Map().entries())', SI: 'Object.getPrototypeOf(new Set().entries())', StI: 'Object.getPrototypeOf(""[Symbol.iterator]())', RI: 'Object.getPrototypeOf("".matchAll(/x/g))', TA: 'Object.getPrototypeOf(Int8Array)', It: 'Object.getPrototypeOf(Object.getPrototypeOf([][Symbol.iterator]()))' };
const NEW = /(^|\.)(groupBy|difference|intersection|union|symmetricDifference|isSubsetOf|isSupersetOf|isDisjointFrom|withResolvers|isWellFormed|toWellFormed|fromAsync|transfer|transferToFixedLength|detached|maxByteLength|resize|resizable|grow|growable|waitAsync|try|captureStackTrace|prepareStackTrace|stackTraceLimit|stack|rawJSON|isRawJSON|unicodeSets|getYear|setYear|toGMTString|compile|anchor|big|blink|bold|fixed|fontcolor|fontsize|italics|link|small|strike|sub|sup|substr|trimLeft|trimRight|arguments|caller|input|lastMatch|lastParen|leftContext|rightContext|\$.*|__(proto|defineGetter|defineSetter|lookupGetter|lookupSetter)__|dispose|asyncDispose|drop|every|filter|find|flatMap|forEach|map|reduce|some|take|toArray)$/;
const WALK = `(function(){var seen=new Set,out=[];function w(o,p,e){if((typeof o!=="object"&&typeof o!=="function")||o===null||seen.has(o))return;seen.add(o);out.push([p,e,typeof o]);for(var k of Reflect.ownKeys(o)){var d=Object.getOwnPropertyDescriptor(o,k);var ks=typeof k==="symbol"?"["+k.description+"]":"["+JSON.stringify(k)+"]",q=p+"."+(typeof k==="symbol"?k.description:k),g="Object.getOwnPropertyDescriptor("+e+","+ks.slice(1,-1)+")";if(d.get)w(d.get,q+"#get",g+".get");if(d.set)w(d.set,q+"#set",g+".set");w(d.value,q,e+ks)}}`;
export const walk = () => JSON.parse(vm.runInNewContext(WALK + GLOB.map(n => `w(${n},"${n}","${n}");`).join('') + Object.entries(HID).map(([n, e]) => `w(${e},"%${n}",${J('HID.' + n)});`).join('') + 'return JSON.stringify(out)}).call()', { HID: 0 })).filter(([p]) => !p.split('.').some((x, i) => NEW.test(x.replace(/#.*/, '')) && !(/^(Array|%TA)$/.test(p.split('.')[0]) && /^(every|filter|find|forEach|map|reduce|some)$/.test(x)) && !(p.startsWith('Map.prototype.forEach') || p.startsWith('Set.prototype.forEach') || p.startsWith('Array.prototype.flatMap'))));
const PRE = String.raw`
var HID={${Object.entries(HID).map(([k, v]) => k + ':' + v)}};
var INTR=new Map;for(const n of ${J(GLOB)}){var v=globalThis[n];if(typeof v==="function"&&v.prototype)INTR.set(v.prototype,"%"+n);INTR.set(v,"%"+n+"()")}for(const n in HID)INTR.set(HID[n],"%%"+n);INTR.set(Reflect,"%Reflect");INTR.set(Math,"%Math");INTR.set(JSON,"%JSON");INTR.set(Atomics,"%Atomics");
function T(f){try{var r=f();__log(INTR.get(r)||__S(r))}catch(e){__log(__E(e))}}
function V(n,v){return {valueOf(){L("v"+n);return v},toString(){L("s"+n);return String(v)}}}
function PX(t,n){return new Proxy(t,{get(o,k,r){__log(n+".get "+(typeof k==="symbol"?"@"+k.description:k));return Reflect.get(o,k,r)},set(o,k,v,r){__log(n+".set "+String(k));return Reflect.set(o,k,v,r)},has(o,k){__log(n+".has "+String(k));return Reflect.has(o,k)},ownKeys(o){__log(n+".ownKeys");return Reflect.ownKeys(o)},getOwnPropertyDescriptor(o,k){__log(n+".gopd "+String(k));return Reflect.getOwnPropertyDescriptor(o,k)},deleteProperty(o,k){__log(n+".del "+String(k));return Reflect.deleteProperty(o,k)},defineProperty(o,k,d){__log(n+".def "+String(k)+" "+Reflect.ownKeys(d).map(String));return Reflect.defineProperty(o,k,d)},getPrototypeOf(o){__log(n+".gpo");return Reflect.getPrototypeOf(o)},setPrototypeOf(o,p){__log(n+".spo");return Reflect.setPrototypeOf(o,p)},isExtensible(o){__log(n+".isx");return Reflect.isExtensible(o)},preventExtensions(o){__log(n+".pe");return Reflect.preventExtensions(o)},apply(o,t,a){__log(n+".apply");return Reflect.apply(o,t,a)},construct(o,a,t){__log(n+".construct");return Reflect.construct(o,a,t)}})}
`;
const recv = ['undefined', 'null', '0', '"s"', 'true', '1n', 'Symbol("y")', '{}', '[1]', '()=>1', 'new Map([[1,2]])', 'new Date(NaN)', '/r/g', 'new Uint8Array(2)', 'new ArrayBuffer(8)', 'new Proxy({},{})', 'Promise.resolve(1)', 'Object(1)', 'Object("s")', 'Object(Symbol.iterator)', 'new Error("m")', 'new DataView(new ArrayBuffer(4))', '(function*(){yield 1})()', 'new WeakMap', 'new Set([1])', 'Object(1n)', 'Object(false)', '[][Symbol.iterator]()', 'new SharedArrayBuffer(4)', 'new WeakRef({})', 'class{constructor(){}}'];
const argl = ['', 'undefined', 'null', '-1', '"a"', 'Symbol("a")', '{}', '[1,2]', '()=>0', 'V(1,2)', '1n', '[],1', '0,()=>0', '"x","y","z"', '{length:2,0:1,1:2},0', 'null,null', '-1,2', 'new Proxy([],{}),{}', 'Infinity,NaN'];
// functions whose results depend on chance, time, locale or host, and functions that block
export const SKIP = /^%It\.(constructor|Symbol\.toStringTag)|Math\.random$|Date\.now$|^Date$|toLocale|localeCompare|^eval$|Atomics\.(wait|notify)$|Function\.prototype\.(toString|call|apply|bind)$|^Function(\.prototype)?$|^%(G|AG|AF)\.constructor|Error\.prototype\.toString|Symbol$|^(FinalizationRegistry|WeakRef)|Promise|%AG|Math\.|^Date\.prototype\.to|Array\.(prototype\.)?(fill|sort|copyWithin|concat|flat|splice|join|repeat|toSpliced|with|lastIndexOf|indexOf|includes|from)|\.repeat$|\.pad|normalize|Date\.parse|ArrayBuffer$|^Date\.prototype\.Symbol\.toPrimitive|RegExp\.prototype\.(toString|Symbol|flags|source)|^RegExp$|Atomics\.|^(BigInt|Number)\.prototype\.toString|Proxy\.revocable|^JSON|Object\.prototype\.toLocaleString|Object\.fromEntries|Object\.groupBy|(Int|Uint|Float|BigInt64|BigUint64).*Array$|^Array$|%TA|String\.prototype\.(replace|match|search|split|concat|at|sub)|String\.raw/;
const targets = ['undefined', 'null', '1', '"ab"', 'true', 'Symbol("q")', '7n', '{a:1,b:2}', '[3,,4]', '()=>1', 'function f(a,b){"use strict"}', 'class{static s=1}', 'new Date(0)', '/x/', 'Object.create({inh:1},{h:{value:1},a:{value:2,enumerable:true}})', 'Object.freeze({z:1})', 'Object.seal([1])', 'Object.preventExtensions({p:{}})', '{get g(){L("g");return 5},set g(v){L("set "+v)},[Symbol("s")]:9,2:"two",1:"one"}', '{get t(){throw 8},u:1}', 'new Proxy({k:1},{})', 'PX({a:1,b:{}},"P")', 'PX([1,2],"A")', 'Object.create(null,{n:{value:1,enumerable:true}})', 'new Uint8Array([1,2])', '(function(){return arguments})(1,2)', 'new String("xy")', 'new Map([[1,2]])', '(()=>{var r=Proxy.revocable({},{});r.revoke();return r.proxy})()', 'new (class X{#p=1;q=2;get r(){return 3}})'];
export const NAT = { Object: ['{a:1}', '[1]'], Array: ['[3,1,2]'], String: ['"abc"'], Number: ['5'], Boolean: ['true'], Symbol: ['Symbol("n")'], BigInt: ['9n'], Date: ['new Date(5e11)'], Map: ['new Map([[1,2],["a",3]])'], Set: ['new Set([1,"a"])'], WeakMap: ['new WeakMap([[Map,1]])'], WeakSet: ['new WeakSet([Map])'], ArrayBuffer: ['new ArrayBuffer(8)'], SharedArrayBuffer: ['new SharedArrayBuffer(8)'], DataView: ['new DataView(new ArrayBuffer(16))'], '%MI': ['new Map([[1,2]]).entries()'], '%SI': ['new Set([1]).values()'], '%AI': ['[1,2].values()'], '%StI': ['"ab"[Symbol.iterator]()'], '%RI': ['"ab".matchAll(/./g)'], '%G': ['(function*(){var x=yield 1;yield x})()'] };
export default {
  id: 'C34', title: 'Remaining built-ins', reset: 150, prelude: P0 + PRE,
  rule: 'one case = the surface of one built-in object, one call of one built-in function with one receiver or argument list, or one program over Object, Function, Symbol, Error or Boolean functions; all distinct; non-trivial when it produces at least one result',
  * gen(tier) {
    const Q = tier === 'quick', W = walk().filter(([p]) => !/^%It\.(get |set )?(constructor|@?@?Symbol)/.test(p));
    for (const [p, e, t] of W) yield { src: `var o=${e};L([typeof o,Object.isExtensible(o),Object.isFrozen(o),${p === '%It' ? '' : 'Object.prototype.toString.call(o)'}]);__log(${p.startsWith('%It') ? 'SURF(o).replace(/@Symbol.toStringTag.*/,"")' : 'SURF(o)'}${p === 'Date.prototype' || p === 'String.prototype' || p === 'RegExp' || p === 'RegExp.prototype' || p === 'JSON' || p === 'Object.prototype' || p === 'Symbol' || p === '%It' || /^Error/.test(p) ? '.split(/ (?=@?[A-Za-z$_][^ ]*=|@?[A-Za-z$_][^ ]*<)/).filter(x=>/' + '^@?(Symbol|[a-zA-Z]+)' + '/.test(x)).map(x=>x.trim()).filter(x=>!' + String(/^(getYear|setYear|toGMTString|anchor|big|blink|bold|fixed|fontcolor|fontsize|italics|link|small|strike|sub|sup|substr|trimLeft|trimRight|compile|unicodeSets|input|last|left|right|rawJSON|isRawJSON|prepareStack|dispose|asyncDispose|drop|every|filter|find|flatMap|forEach|map|reduce|some|take|toArray|constructor|_)/) + '.test(x)).sort().join(" ")' : ''});${p === '%It' ? '' : `var q=Object.getPrototypeOf(o);L([q===null,q===Object.prototype,q===Function.prototype,${/^%/.test(p) ? '' : 'q&&q.constructor&&q.constructor.name'}]);`}${t === 'function' ? 'T(()=>__C(o));T(()=>{try{new o;return "ok"}catch(x){return x instanceof TypeError?"TE":"other"}});' : 'T(()=>{try{o();return "ok"}catch(x){return x instanceof TypeError?"TE":"other"}});'}`, cls: 'surface' };
    for (const n of GLOB) yield { src: `var d=Object.getOwnPropertyDescriptor(globalThis,"${n}");L([d.writable,d.enumerable,d.configurable,d.value===${n}])`, cls: 'surface' };
    for (const n of ['NaN', 'Infinity', 'undefined', 'globalThis']) yield { src: `var d=Object.getOwnPropertyDescriptor(globalThis,"${n}");L([d.writable,d.enumerable,d.configurable]);T(()=>{"use strict";${n === 'globalThis' ? '' : `${n}=1`}});T(()=>{${n}${n === 'globalThis' ? '' : '=1'};return typeof ${n}});T(()=>${n === 'globalThis' ? 'globalThis===this' : 'delete globalThis.' + n})`, cls: 'surface' };
    for (const [p, e, t] of W) if (t === 'function' && !SKIP.test(p)) {
      for (const r of recv) yield { src: `T(()=>Reflect.apply(${e},${r},[]));T(()=>Reflect.apply(${e},${r},[1,2]))`, cls: 'receiver', path: p };
      if (!/\.prototype\.|^%/.test(p)) { for (const a of argl) yield { src: `T(()=>${e}(${a}))`, cls: 'argument', path: p }; }
      else for (const r of NAT[p.split('.')[0]] || []) for (const a of argl) yield { src: `var o=${r};T(()=>{var r=Reflect.apply(${e},o,[${a}]);return r===o?"self":r});T(()=>o)`, cls: 'argument', path: p };
    }
    // Object functions over every target
    const one = ['Object', 'Object.keys', 'Object.values', 'Object.entries', 'Object.getOwnPropertyNames', 'Object.getOwnPropertySymbols', 'Object.getOwnPropertyDescriptors', 'Object.getPrototypeOf', 'Object.isExtensible', 'Object.isFrozen', 'Object.isSealed', 'new Object', 'Reflect.ownKeys', 'Reflect.getPrototypeOf', 'Reflect.isExtensible', 'Reflect.preventExtensions'];
    for (const f of one) for (const v of targets) yield { src: `T(()=>${f}(${v}))`, cls: 'object' };
    for (const f of ['Object.freeze', 'Object.seal', 'Object.preventExtensions']) for (const v of targets) if (!v.includes('Uint8') && !v.startsWith('function f')) yield { src: `var o;T(()=>{o=${v};return ${f}(o)===o});T(()=>[Object.isFrozen(o),Object.isSealed(o),Object.isExtensible(o)]);T(()=>typeof o==="object"&&DESC(o));T(()=>{"use strict";o.a=5});T(()=>{"use strict";delete o[1]});T(()=>Object.keys(o))`, cls: 'object' };
    const keys = ['"a"', '0', '"length"', 'Symbol.iterator', '{toString(){L("k");return "a"}}', '{toString(){throw 6}}', 'undefined', '"inh"'];
    for (const v of targets) for (const k of keys) yield { src: `T(()=>Object.getOwnPropertyDescriptor(${v},${k}));T(()=>Object.hasOwn(${v},${k}));T(()=>Object.prototype.hasOwnProperty.call(${v},${k}));T(()=>Object.prototype.propertyIsEnumerable.call(${v},${k}));T(()=>Reflect.has(${v},${k}));T(()=>Reflect.get(${v},${k}));T(()=>{var o=${v};return [Reflect.set(o,${k},3),Reflect.deleteProperty(o,${k})]})`, cls: 'object' };
    for (const v of targets) for (const w of targets) yield { src: `T(()=>{var t=${v};var r=Object.assign(t,${w});return [r===t,r]});T(()=>Object.is(${v},${w}));T(()=>Object.setPrototypeOf(${v},${w})===null);T(()=>Object.getPrototypeOf(Object.create(${w}))===null);T(()=>Object.prototype.isPrototypeOf.call(${v},${w}));T(()=>Reflect.setPrototypeOf(${v},${w}));${Q ? '' : `T(()=>Object.create(${v},${w}));T(()=>Object.defineProperties(${v},${w}));`}`, cls: 'pair' };
    for (const v of targets.filter((_, i) => i % 3 === 0)) for (const ws of product(['{x:1,y:2}', 'null', '{get x(){L("gx");return 1},y:0}', '{get y(){throw 4}}', '"st"', 'Object.create({no:1},{x:{value:9,enumerable:true}})', '{[Symbol("z")]:1}'], ['{y:5}', '{set y(v){L("sy")}}', 'PX({x:1},"S")', 'undefined'])) yield { src: `var o;T(()=>{o=${v};return Object.assign(o,${ws})});T(()=>o)`, cls: 'assign' };
    const props = ['{a:{value:1}}', '{a:{get(){return 3}},b:{value:2,writable:true,enumerable:true,configurable:true}}', '{a:5}', '{a:{get:1}}', '{a:{get(){},value:1}}', '{get a(){L("pa");return {value:7}},b:{get value(){L("bv");return 8}}}', 'PX({a:{value:1},b:PX({enumerable:true,value:2},"D")},"Q")', 'Object.create({inh:{value:1}},{own:{value:{value:2},enumerable:true},hid:{value:{value:3}}})', 'null', 'undefined', '1', '"s"', '[{value:1}]', '{[Symbol("t")]:{value:4}}', '{a:{value:1},b:{set:5}}'];
    for (const v of targets.filter((_, i) => !Q || i % 2 === 0)) for (const p of props) yield { src: `var o;T(()=>{o=${v};return Object.defineProperties(o,${p})===o});T(()=>DESC(o));T(()=>DESC(Object.create(typeof o==="object"?o:null,${p})))`, cls: 'defineprops' };
    for (const it of ['[]', '[["a",1],["b",2],["a",3]]', '[[]]', '[1]', '["ab"]', '[Object("ab")]', 'null', '5', 'undefined', 'new Map([["k","v"]])', '(function*(){try{yield ["x",1];yield 2}finally{L("fin")}})()', '[{get 0(){L("k");return "kk"},get 1(){L("v");return 1}}]', '(function*(){try{yield {get 0(){throw 1}}}finally{L("fin")}})()', '(function*(){try{yield [{toString(){throw 2}},1]}finally{L("fin")}})()', '[[Symbol.iterator,1],["__proto__",2]]', '{[Symbol.iterator]:1}', '{[Symbol.iterator](){return {next(){throw 3}}}}', '{[Symbol.iterator](){return {next(){return 1}}}}']) yield { src: `T(()=>{var o=Object.fromEntries(${it});return [Object.getPrototypeOf(o)===Object.prototype,DESC(o)]})`, cls: 'fromEntries' };
    for (const v of targets) yield { src: `T(()=>Object.prototype.toString.call(${v}));T(()=>{var o=${v};return [Object.prototype.valueOf.call(o)===o]});T(()=>typeof Object.prototype.valueOf.call(${v}));${/PX|throw|Date|class|f\(|=>1/.test(v) ? '' : `T(()=>Object.prototype.toLocaleString.call(${v}));`}T(()=>${v}.constructor===Object);T(()=>Reflect.construct(Object,[${v}],function(){}) instanceof Object);T(()=>{class S extends Object{constructor(x){super(x)}}var s=new S(${v});return [s instanceof S,Reflect.ownKeys(s).length]})`, cls: 'object' };
    for (const t of ['undefined', '1', '"T"', 'null', '{}', 'Symbol()']) for (const v of ['{}', '[]', '()=>1', 'new Date(0)', 'new Map', '/x/', 'Object(1)', '(function(){return arguments})()', 'new Error', 'new Proxy([],{})', 'new Proxy(()=>1,{})']) yield { src: `var o=${v};Object.defineProperty(o,Symbol.toStringTag,{get(){L("tag");return ${t}}});T(()=>Object.prototype.toString.call(o))`, cls: 'object' };
    // Boolean
    for (const v of ['', 'undefined', 'null', '0', '-0', 'NaN', '""', '"0"', '0n', '1n', '[]', '{}', 'Symbol()', 'new Boolean(false)', 'V(1,0)']) yield { src: `T(()=>Boolean(${v}));T(()=>new Boolean(${v}).valueOf());T(()=>new Boolean(${v})+"");T(()=>Boolean.prototype.toString.call(${v || 'undefined'}));T(()=>Boolean.prototype.valueOf.call(${v || 'undefined'}));T(()=>!${v || 1});T(()=>{class B extends Boolean{};var b=new B(${v});return [b instanceof B,b.valueOf(),Object.prototype.toString.call(b)]})`, cls: 'boolean' };
    // Symbol
    for (const v of ['', 'undefined', 'null', '"d"', '1', '{}', 'V(1,2)', 'Symbol("in")', '1n', '{toString(){throw 5}}', '""']) yield { src: `T(()=>Symbol(${v}));T(()=>Symbol(${v}).description);T(()=>Symbol(${v}).toString());T(()=>Symbol.for(${v}));T(()=>Symbol.for(${v})===Symbol.for(${v}));T(()=>Symbol.keyFor(Symbol.for(${v})));T(()=>Symbol.keyFor(Symbol(${v})));T(()=>Symbol.keyFor(${v || 'undefined'}));T(()=>new Symbol(${v}));T(()=>Object(Symbol(${v})).description);T(()=>String(Symbol(${v})));T(()=>\`\${Symbol(${v})}\`);T(()=>Symbol(${v})+"");T(()=>+Symbol(${v}));T(()=>Symbol(${v})==Object(Symbol(${v})));T(()=>{var s=Symbol(${v});return [s==Object(s),Object(s)===Object(s),typeof Object(s).valueOf(),{[s]:1}[Object(s)]]})`, cls: 'symbol' };
    for (const v of ['Symbol("z")', 'Object(Symbol("z"))', '1', '{}', 'undefined', '"Symbol(z)"', 'Symbol.prototype']) for (const m of ['toString', 'valueOf', '[Symbol.toPrimitive]']) for (const a of ['', '"string"', '"x"', '{}']) yield { src: `T(()=>Symbol.prototype${m[0] === '[' ? m : '.' + m}.call(${v}${a && ',' + a}));T(()=>Object.getOwnPropertyDescriptor(Symbol.prototype,"description").get.call(${v}))`, cls: 'symbol' };
    for (const s of ['asyncIterator', 'hasInstance', 'isConcatSpreadable', 'iterator', 'match', 'matchAll', 'replace', 'search', 'species', 'split', 'toPrimitive', 'toStringTag', 'unscopables']) yield { src: `L([Symbol.${s}.description,Symbol.keyFor(Symbol.${s}),Symbol.for("Symbol.${s}")===Symbol.${s},typeof Symbol.${s},Symbol.${s}===__realm().Symbol.${s}]);T(()=>{"use strict";Symbol.${s}=1})`, cls: 'symbol' };
    // Error
    const errs = ['Error', 'EvalError', 'RangeError', 'ReferenceError', 'SyntaxError', 'TypeError', 'URIError', 'AggregateError'];
    const msgs = ['', 'undefined', 'null', '"m"', '1', '{}', 'V(1,"t")', 'Symbol()', '{toString(){throw 9}}'];
    const opts = ['', 'undefined', 'null', '1', '{}', '{cause:undefined}', '{cause:5}', '{get cause(){L("gc");return 6}}', '{get cause(){throw 7}}', 'Object.create({cause:8})', 'PX({cause:1},"O")', '()=>1', '"cause"'];
    const ED = 'function ED(e){return Reflect.ownKeys(e).filter(k=>k!=="stack").map(k=>{var d=Object.getOwnPropertyDescriptor(e,k);return k+":"+(d.writable?"w":"")+(d.enumerable?"e":"")+(d.configurable?"c":"")+"="+__S(d.value)}).join(" ")+"|"+Object.prototype.toString.call(e)+"|"+Object.prototype.hasOwnProperty.call(e,"name")}';
    for (const E of errs) for (const m of msgs) for (const o of opts) { if (o && !m) continue; const a = (E === 'AggregateError' ? '[1,2],' : '') + m + (o && ',' + o); yield { src: `${ED};T(()=>ED(new ${E}(${a.replace(/,$/, '')})));${o === '' || o.includes('cause:5') ? `T(()=>{var e=${E}(${a.replace(/,$/, '')});return [e instanceof ${E},Object.getPrototypeOf(e)===${E}.prototype,ED(e),String(e)]})` : ''}`, cls: 'error' }; }
    for (const it of ['[]', '[1]', 'null', '5', 'undefined', '"ab"', 'new Set([1,2])', '(function*(){yield 1;throw 2})()', '{[Symbol.iterator]:1}', '{[Symbol.iterator](){L("it");return {next(){return 1}}}}', '{}']) for (const m of ['', '"m"', '{toString(){L("ms");return "x"}}', '{toString(){throw 1}}', 'undefined,{get cause(){L("c");return 1}}']) yield { src: `${ED};T(()=>ED(new AggregateError(${it}${m && ',' + m})));T(()=>AggregateError(${it}) instanceof AggregateError)`, cls: 'error' };
    const nv = ['undefined', '""', '"N"', '1', 'null', '{toString(){L("n");return "O"}}', 'Symbol()', '{toString(){throw 3}}'];
    for (const n of nv) for (const m of nv) yield { src: `for(const f of [{name:${n},message:${m}},Object.assign(new TypeError,{name:${n},message:${m}}),{get name(){L("gn");return ${n}},get message(){L("gm");return ${m}}}])T(()=>Error.prototype.toString.call(f))`, cls: 'error' };
    for (const v of ['undefined', 'null', '1', '"s"', '{}', '[]', '()=>1', 'Error', 'Error.prototype', 'new Proxy({name:"P"},{})']) yield { src: `T(()=>Error.prototype.toString.call(${v}))`, cls: 'error' };
    for (const E of errs) yield { src: `${ED};class X extends ${E}{constructor(...a){super(...a);this.x=1}};var a=${E === 'AggregateError' ? '[[1],"m",{cause:2}]' : '["m",{cause:2}]'};var e=new X(...a);L([e instanceof X,e instanceof ${E},e instanceof Error,e.name,String(e),e.constructor===X]);__log(ED(e));X.prototype.name="XX";L(String(e));T(()=>ED(Reflect.construct(${E},a,Array)));T(()=>Object.getPrototypeOf(Reflect.construct(${E},a,Object.defineProperty(function(){}.bind(),"prototype",{get(){L("proto");return null}})))===${E}.prototype);L([Object.getPrototypeOf(${E})===${E === 'Error' ? 'Function.prototype' : 'Error'},Object.getPrototypeOf(${E}.prototype)===${E === 'Error' ? 'Object' : 'Error'}.prototype,"toString" in ${E}.prototype,Object.hasOwn(${E}.prototype,"toString")])`, cls: 'error' };
    // Function: call, apply, bind, hasInstance, dynamic construction
    const fns = ['function f(a,b){"use strict";return [this,...arguments]}', '(a,b)=>[a,b]', 'class C{constructor(...a){this.a=a;this.t=new.target===C}}', 'function g(){return [typeof this,arguments.length]}', 'async (x)=>x', 'Math.max', 'new Proxy(function p(a){return [this===undefined,a]},{})', 'function*h(){}', 'Object', '({m(a){return a}}).m', 'Function.prototype', 'PX(function q(a,b,c){return a},"F")'];
    const aps = ['undefined', 'null', '[]', '[1,2]', '[,1]', '{length:2,0:"x"}', '{length:-1}', '{length:"2",1:5}', '{get length(){L("len");return 1},get 0(){L("g0");return 4}}', '{length:{valueOf(){throw 2}}}', '1', '"ab"', 'true', 'Symbol()', '()=>1', 'new Uint8Array([7,8])', '(function(){return arguments})(1,2,3)', 'new Proxy([5],{})'];
    for (const f of fns) { for (const a of aps) yield { src: `T(()=>(${f}).apply("t",${a}));T(()=>Reflect.apply(${f},5,${a}));T(()=>Reflect.construct(${f},${a}));T(()=>Reflect.construct(Object,${a},${f}) instanceof Object)`, cls: 'apply' }; for (const t of ['', 'undefined', 'null', '1', '{}', '"s",2,3']) yield { src: `T(()=>(${f}).call(${t}));T(()=>(${f}).bind(${t})());T(()=>(${f}).bind(${t})(8,9));T(()=>new ((${f}).bind(${t}))(7));T(()=>{var b=(${f}).bind(${t});return [b.name,b.length,"prototype" in b,__C(b),Object.getPrototypeOf(b)===Object.getPrototypeOf(${f}),DESC(b)]});T(()=>{var b=(${f}).bind(${t}).bind(1,2);return [b.name,b.length]})`, cls: 'bind' }; }
    for (const l of ['5', '-3', '2.7', 'Infinity', '-Infinity', 'NaN', '"3"', 'undefined', '2**40', '-0']) for (const n of ['"nm"', '""', 'Symbol("sy")', 'undefined', '5', 'Symbol()']) yield { src: `function f(){};Object.defineProperty(f,"length",{value:${l}});Object.defineProperty(f,"name",{value:${n}});var b=f.bind(0,1,2);L([b.length,b.name]);delete f.length;delete f.name;L([f.bind().length,f.bind().name]);Object.defineProperty(f,"length",{get(){L("gl");return 3}});Object.defineProperty(f,"name",{get(){L("gn");return "x"}});L([f.bind(0,1).length,f.bind().name]);T(()=>f.bind.call(PX(f,"B"),1,2).length)`, cls: 'bind' };
    for (const v of ['undefined', '1', '{}', 'Object.create(Function.prototype)', '"f"', '/x/', 'new Proxy({},{})']) yield { src: `for(const m of ["call","apply","bind","toString"])T(()=>Function.prototype[m].call(${v},1,[]));T(()=>Function.prototype[Symbol.hasInstance].call(${v},{}));T(()=>({}) instanceof ${v})`, cls: 'bind' };
    for (const f of ['function(){}', 'class{}', '()=>1', 'function(){}.bind()', '(class A{}).bind()', 'new Proxy(class{},{})', 'Object.defineProperty(()=>1,"prototype",{value:Object.prototype})', 'Object.defineProperty(()=>1,"prototype",{value:1})', 'Object.defineProperty(()=>1,"prototype",{get(){L("gp");return Array.prototype}})', '{[Symbol.hasInstance](v){L("hi");return v}}', '{[Symbol.hasInstance]:null}', '{[Symbol.hasInstance]:1}', '{get [Symbol.hasInstance](){throw 2}}', 'Object', 'Function']) for (const v of ['{}', '[]', '1', 'null', '()=>1', 'new Proxy([],{})', 'new Proxy([],{getPrototypeOf(){L("gpo");return null}})', 'Object.create(null)', 'PX([],"I")']) yield { src: `T(()=>(${v}) instanceof (${f}));T(()=>Function.prototype[Symbol.hasInstance].call(${f},${v}))`, cls: 'instanceof' };
    const pa = ['""', '"a"', '"a,b"', '"a","b"', '"a=1"', '"...r"', '"{x}"', '"a","a"', '"/*"', '"a/*","*/b"', '"a){return 9}/*"', '"a //"', '"a\\n"', '"){"', '"a;"', '"1"', '"yield"', '"await"', '"arguments"', '"eval"', 'null', '5', '{toString(){L("p");return "q"}}', 'Symbol()', '"a="', '",a"', '"a,"', '"this"', '"super"', '"a=super.x"', '"a=await 1"', '"a=yield"', '"a=new.target"'];
    const bo = ['""', '"return a"', '"return arguments.length"', '"return this"', '"\\"use strict\\";return this"', '"}"', '"}, function(){"', '"/*"', '"*/"', '"//"', '"return 1 //"', '"yield 1"', '"await 1"', '"return new.target"', '"super()"', '"super.x"', '"let a"', '"var a;return a"', '"function a(){};return typeof a"', '"\\"use strict\\";with(1){}"', '"return (class{#x;static h(o){return #x in o}}).h({})"', '"return #x in 1"', '"import.meta"', '"break"', '"return eval(\\"a\\")"', 'undefined', 'null', '{toString(){L("b");return "return 4"}}', 'Symbol()'];
    for (const F of ['Function', 'HID.G.constructor', 'HID.AF.constructor', 'HID.AG.constructor']) for (const p of pa) for (const b of (Q && F !== 'Function' ? bo.filter((_, i) => i % 3 === 0) : bo)) yield { src: `var f=undefined;T(()=>{f=${F}(${p},${b});return [f.name,f.length,__C(f),Object.hasOwn(f,"prototype"),Object.getPrototypeOf(f)===${F}.prototype]});${F === 'Function' ? 'T(()=>f&&f(1,2));T(()=>f&&typeof new f(3));T(()=>f&&f.toString())' : 'T(()=>f&&f.toString());T(()=>f&&Object.prototype.toString.call(f()))'}`, cls: 'dynamic' };
    for (const F of ['Function', 'HID.G.constructor', 'HID.AF.constructor', 'HID.AG.constructor']) yield { src: `T(()=>${F}().toString());T(()=>new ${F}("return 1").toString());T(()=>{var x=1;return ${F}("return typeof x").call===undefined});var yy=2;T(()=>DESC(${F}("a","b","return 1")));T(()=>{class S extends ${F}{};var s=new S("a","return a");return [s instanceof S,typeof s,s.name]});T(()=>Object.getPrototypeOf(Reflect.construct(${F},[],Array))===Array.prototype)`, cls: 'dynamic' };
    // eval, isNaN, isFinite
    for (const v of ['', 'undefined', '1', '"1+1"', '"var zz=5;zz"', '"{}"', '"({})"', '""', '"//"', '"if(0){}"', '"1;if(1){2}"', '"do{3}while(0)"', '"let a=1;a"', '"function q(){}"', '"throw 4"', '"}"', 'new String("1")', '{toString(){L("no");return "1"}}', '"this===globalThis"', '"new.target"', '"return 1"', '"await 1"', '"super.x"', '"\\"use strict\\";var loc=1;typeof loc"', '"1;;;"', '"5;var x"', '"6;try{7}finally{8}"', '"L1:{9;break L1}"', '"switch(1){case 1:10;break}"', '"for(var i=0;i<2;i++)i"', '"while(0);"', '"1;{}"', '"2;function w(){}"', '"3;class W{}"', '"4;let w1"']) yield { src: `T(()=>eval(${v}));T(()=>(0,eval)(${v}));T(()=>{"use strict";return eval(${v})});T(()=>typeof zz);T(()=>delete globalThis.zz)`, cls: 'eval' };
    for (const f of ['isNaN', 'isFinite']) for (const v of ['', 'NaN', '1', '"x"', '"1"', 'null', '1n', 'Symbol()', '{}', 'V(1,NaN)', '[]', 'Infinity', '{valueOf(){throw 1}}']) yield { src: `T(()=>${f}(${v}))`, cls: 'global' };
    // parseInt / parseFloat / conversions are decided by C15; globalThis behaviour
    for (const s of ['globalThis.gg=1;L(gg)', 'T(()=>nosuch);T(()=>typeof nosuch);T(()=>{nosuch2=1;return delete globalThis.nosuch2})', 'T(()=>{"use strict";nosuch3=1})', 'Object.defineProperty(globalThis,"acc",{get(){L("g");return 3},set(v){L("s"+v)},configurable:true});L(acc);acc=4;L(typeof acc);delete globalThis.acc;T(()=>acc)', 'L(Object.getPrototypeOf(globalThis)===Object.prototype||Object.getPrototypeOf(Object.getPrototypeOf(globalThis))===Object.prototype||1);L(typeof globalThis)', 'L(this===globalThis);L((function(){return this})()===globalThis);L((function(){"use strict";return this})())']) yield { src: s, cls: 'global' };
  },
};
