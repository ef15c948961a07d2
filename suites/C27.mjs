// Realms: which realm's intrinsics, globals and errors are used when code, functions and objects of two realms meet.
import { P0, product } from '../lib/prelude.mjs';
import { GLOB, HID, walk } from './C34.mjs';
const J = JSON.stringify;
const HS = `var HID={${Object.entries(HID).map(([k, v]) => k + ':' + v)}};`;
const PRE = P0 + HS + String.raw`
var B=__realm();B.eval(${J(HS)});B.__log=__log;
var OPS=new Map([[Object.prototype,"A"],[B.Object.prototype,"B"]]);
function RE(v){if(v===null||typeof v!=="object"&&typeof v!=="function")return "p";var n=0;for(var q=v;q!==null&&n++<9;q=Reflect.getPrototypeOf(q))if(OPS.has(q))return OPS.get(q);return "0"}
function PR(v){var q=Reflect.getPrototypeOf(v),g=[globalThis,B];if(q===null)return "null";for(var i=0;i<2;i++){var r=g[i];for(var n of ${J(GLOB)}){if(typeof r[n]==="function"&&r[n].prototype===q)return "AB"[i]+"."+n}for(var n of ${J(Object.keys(HID))}){if(r.HID[n]===q)return "AB"[i]+".%"+n;if(r.HID[n]&&r.HID[n].prototype===q)return "AB"[i]+".%"+n+".p"}}return "?"+RE(v)}
function D(v,d){if(v===null||typeof v!=="object"&&typeof v!=="function")return typeof v;if(v===globalThis)return "gA";if(v===B)return "gB";for(var e=0;e<2;e++){var g=[globalThis,B][e];for(var n of ${J(GLOB)})if(g[n]===v)return "="+"AB"[e]+"."+n;else if(typeof g[n]==="function"&&g[n].prototype===v)return "="+"AB"[e]+"."+n+".prototype"}
var s;try{s=PR(v)}catch(x){s="R!"+RE(x)}if(d!==0&&typeof v==="object"){try{var ks=Reflect.ownKeys(v).slice(0,5);for(var k of ks){var q=Reflect.getOwnPropertyDescriptor(v,k);if(k===Symbol.iterator&&Object.prototype.toString.call(v)==="[object Arguments]")continue;if(q&&"value" in q&&(typeof q.value==="object"||typeof q.value==="function")&&q.value!==null)s+="."+String(typeof k==="symbol"?"@":k)+":"+D(q.value,0)}}catch(x){}}return s}
function X(f){try{__log(D(f()))}catch(e){try{__log("!"+(e!==null&&typeof e==="object"?PR(e):typeof e))}catch(x){__log("!?")}}}
function E2(s){return B.eval(s)}
function px(t,n){return new Proxy(t,{get(o,k,r){__log(n+"."+String(typeof k==="symbol"?k.description:k));return Reflect.get(o,k,r)}})}
`;
const ctors = { Object: '', Function: '"return 1"', Array: '1,2', String: '"s"', Number: '1', Boolean: 'true', Date: '0', RegExp: '"x","g"', Map: '', Set: '', WeakMap: '', WeakSet: '', WeakRef: '{}', FinalizationRegistry: '()=>1', Promise: '()=>1', ArrayBuffer: '8', SharedArrayBuffer: '8', DataView: 'new ArrayBuffer(8)', Int8Array: '4', Uint8ClampedArray: '[1,2]', Float64Array: 'new Uint8Array(2)', BigInt64Array: 'new ArrayBuffer(8)', Uint32Array: '{length:1}', Error: '"m"', TypeError: '"m",{cause:1}', AggregateError: '[1],"m"', SyntaxError: '', 'HID.G.constructor': '"yield 1"', 'HID.AF.constructor': '"await 1"', 'HID.AG.constructor': '"yield 1"', Proxy: '{},{}', Symbol: '', BigInt: '1', 'HID.TA': '', };
const SK = /Math\.random$|Date\.now$|toLocale|localeCompare|Atomics\.wait$|Function\.prototype\.toString$|^%It|(^|\.)(get |set )?(constructor)$|Symbol\.species|__(proto|define|lookup)|^eval$|Error\.stackTraceLimit|%RS|\.stack/;
const recvs = ['undefined', '{}', '[1,[2]]', '"ab"', '5', 'Symbol("s")', '9n', 'new Date(0)', '/b/g', 'new Map([[1,2]])', 'new Set([1])', 'new WeakMap', 'new Uint8Array(2)', 'new ArrayBuffer(8)', 'new DataView(new ArrayBuffer(8))', 'Promise.resolve(1)', '()=>1', 'function f(){}', 'class{}', '(function*(){yield 1})()', '(async function*(){yield 1})()', '[1][Symbol.iterator]()', 'new Error("x")', 'new WeakRef({})', 'Object("s")', 'new SharedArrayBuffer(8)'];
const args = ['', '1,2', '[1],()=>1', '()=>1,{}', '"a","b"', '{}', 'Symbol.iterator'];
export default {
  id: 'C27', title: 'Realms', reset: 100, prelude: PRE, async: true,
  rule: 'one case = one built-in function of one realm applied to a receiver and arguments of either realm, one constructor with one new.target form, or one cross-realm program; every result is described by the realm its prototypes belong to',
  bounds: { quick: 'all built-in functions of both realms x receivers of both realms (natural ones) x 3 argument lists; all constructors x all new.target forms; all programs', thorough: 'all receivers and argument lists' },
  * gen(tier) {
    const Q = tier === 'quick', W = walk();
    const realm = (r, s) => r === 'A' ? `(${s})` : `E2(${J('(' + s + ')')})`;
    // every function, with the realm of function, receiver and argument varied
    for (const [p, e, t] of W) if (t === 'function' && !SK.test(p)) {
      let rs = recvs;
      if (Q) { const h = p.split('.')[0].replace('%', ''); const nat = { Array: 2, String: 3, Number: 4, Symbol: 5, BigInt: 6, Date: 7, RegExp: 8, Map: 9, Set: 10, WeakMap: 11, TA: 12, ArrayBuffer: 13, DataView: 14, Promise: 15, Function: 17, G: 19, AG: 20, AI: 21, Error: 22, WeakRef: 23, SharedArrayBuffer: 25 }[h]; rs = [recvs[0], recvs[1], ...(nat === undefined ? [recvs[2]] : [recvs[nat]])]; }
      for (const r of rs) for (const a of Q ? args.slice(0, 3) : args) if (!/sort/i.test(p) || (r !== 'Object("s")' && a !== '()=>1,{}')) yield { src: `for(const f of[${realm('A', e)},${realm('B', e)}])for(const o of[${r === 'undefined' ? 'undefined' : realm('A', r) + ',' + realm('B', r)}])for(const a of[[${a}],E2(${J('[' + a + ']')})])X(()=>Reflect.apply(f,o,a))`, cls: 'function', path: p };
    }
    // constructors x new.target
    const nts = (c) => [`${c}`, `B.${c}`, `function(){}`, `E2("(function(){})")`, ...['undefined', 'null', '1', '"s"', 'Symbol()', 'true', '1n'].flatMap(v => [`((n)=>{n.prototype=${v};return n})(E2("(function(){})"))`]), `((n)=>{n.prototype={};return n})(E2("(function(){})"))`, `((n)=>{n.prototype=null;return n})(function(){})`,
      `((n)=>{n.prototype=null;return n})(E2("(function(){})")).bind()`, `Function.prototype.bind.call(((n)=>{n.prototype=null;return n})(E2("(function(){})")))`, `B.Function.prototype.bind.call(((n)=>{n.prototype=null;return n})(function(){}))`, `new Proxy(((n)=>{n.prototype=null;return n})(E2("(function(){})")),{})`, `new B.Proxy(((n)=>{n.prototype=null;return n})(function(){}),{})`, `new Proxy(new B.Proxy(function(){}.bind(),{}),{})`, `new Proxy(E2("(class{})"),{get(t,k,r){return k==="prototype"?undefined:Reflect.get(t,k,r)}})`, `((p)=>new Proxy(E2("(class{})"),{get(t,k,r){if(k==="prototype")p.revoke();return undefined}}))({revoke(){}})`, `(()=>{var p=B.Proxy.revocable(function(){},{});p.revoke();return p.proxy})()`, `(()=>{var p;p=Proxy.revocable(E2("(function(){})"),{get(t,k){if(k==="prototype")p.revoke();return undefined}});return p.proxy})()`, `E2("(class extends Object{})")`, `E2("(class{static prototype_=1})")`, `E2("(()=>1)")`, `E2("({m(){}}).m")`, `((n)=>{Object.defineProperty(n,"prototype",{get(){throw new B.RangeError}});return n})(E2("(function(){}).bind()"))`];
    for (const [c, a] of Object.entries(ctors)) { for (const nt of nts(c)) { yield { src: `X(()=>Reflect.construct(${c},[${a}],${nt}))`, cls: 'new.target' }; yield { src: `X(()=>Reflect.construct(B.${c},[${a}],${nt}))`, cls: 'new.target' }; }
      for (const k of ['new B.' + c + `(${a})`, `B.${c}(${a})`, `new (class extends B.${c}{})(${a})`, `new (class extends B.${c}{constructor(){return {}}})(${a})`, `new (class extends B.${c}{constructor(){}})(${a})`, `new (E2("(C=>class extends C{})")(${c}))(${a})`, `new (E2("(C=>class extends C{constructor(){return 1}})")(${c}))(${a})`, `B.Reflect.construct(${c},[${a}])`, `B.Reflect.construct(${c},E2("[]"),B.${c})`, `Object.getPrototypeOf(B.${c})`, `B.${c}.call(${c}.prototype)`]) yield { src: `X(()=>${k})`, cls: 'construct' }; }
    // functions created in B by every route, called from A
    const fk = ['function(){BODY}', '()=>{BODY}', 'class{constructor(){BODY}}', 'class{static m(){BODY}}.m', '({m(){BODY}}).m', '({get g(){BODY}})', 'function*(){BODY}', 'async function(){BODY}', 'async()=>{BODY}', 'async function*(){BODY}', 'function(){"use strict";BODY}', 'new Function(BODYS)', 'new (Object.getPrototypeOf(function*(){}).constructor)(BODYS)', 'new (Object.getPrototypeOf(async function(){}).constructor)(BODYS)', 'function(){return eval(BODYS2)}', 'function(){return (0,eval)(BODYS2)}', 'function(){var f=()=>{BODY};return f()}', 'class{static #p(){BODY};static m(){return this.#p()}}.m', 'function(a=(()=>{BODY})()){return a}', 'class{static x=(()=>{BODY})()}', 'class{static{BODY2}}'];
    const bodies = ['return {}', 'return []', 'return ()=>1', 'return function(){}', 'return class{}', 'return /x/', 'return `t`', 'return (x=>x)`a`', 'return this', 'return function(){return this}()', 'return globalThis', 'return Object', 'return new Array', 'null.x', 'undeclared', 'undeclared=1;return typeof globalThis.undeclared', 'const c=1;c=2', '1()', 'new 1', 'Symbol()+1', '1n+1', '({}) instanceof 1', '"x" in 1', 'throw new Error', 'return arguments', 'return Object.getOwnPropertyDescriptor(function(){"use strict";return arguments}(),"callee").get', 'return (5).constructor', 'return "s".constructor', 'return Object(1)', 'return [..."ab"]', 'return {...[1]}', 'var{...r}={a:1};return r', 'var[...r]=[1];return r', 'return (function*(){})()', 'return (async()=>1)()', 'return (async function*(){})()', 'return Symbol.for("z").description', 'x;let x', 'return [][Symbol.iterator]()', 'for(var q of 5);', 'return import("nosuch")', 'return new Proxy({},{})', 'return JSON.parse("{}")', 'return eval("({})")', 'return eval("1+")', 'return RegExp("(")', 'return new Function("(")', 'return decodeURI("%")', 'return [].at.call(null)', 'return "".at.call(null)', 'return Array(-1)', 'return Object.defineProperty(1)', 'return "a".repeat(-1)', 'class Q extends null{};return new Q', 'class Q extends 1{}', 'return super_', 'with_:{return {}}', 'return Promise.resolve()', 'return Promise.resolve.call(1)', 'return new Date', 'return typeof globalThis.__onlyA', 'var o={set s(v){"use strict";Object.freeze([]).x=1}};o.s=1', '"use strict";Object.freeze({a:1}).a=2', 'delete Object.freeze({a:1}).a;"use strict"'];
    for (const [f, b] of product(fk, bodies)) { const s = f.replace('BODYS2', J(/^return /.test(b) ? b.slice(7) : b)).replace('BODYS', J(b)).replace('BODY2', b.replace(/return /g, 'void ')).replace('BODY', b); if (Q && (fk.indexOf(f) + bodies.indexOf(b)) % 2) continue; yield { src: `globalThis.__onlyA=1;var f;X(()=>f=E2(${J('(' + s + ')')}));for(const k of[()=>f(),()=>f.call(1),()=>f.call(undefined),()=>f.call("s"),()=>new f,()=>Reflect.construct(f,[],Object),()=>f.g,()=>f.prototype,()=>Object.getPrototypeOf(f),()=>f().next()])X(k)`, cls: 'created' }; }
    // species and friends
    const sp = ['map(x=>x)', 'filter(x=>1)', 'slice()', 'splice(0,1)', 'concat(1)', 'flat()', 'flatMap(x=>x)', 'subarray(0)', 'toSorted()', 'toReversed()', 'with(0,1)', 'toSpliced(0,1)'];
    const so = ['[1]', 'B.Array.of(1)', 'new B.Uint8Array(1)', 'Object.setPrototypeOf([1],null)', '(()=>{var a=B.Array.of(1);a.constructor=B.Array;return a})()', '(()=>{var a=[1];a.constructor=B.Array;return a})()', '(()=>{var a=B.Array.of(1);a.constructor=Array;return a})()', '(()=>{var a=[1];a.constructor=px(B.Array,"c");return a})()', '(()=>{var a=[1];a.constructor=E2("(class extends Array{})");return a})()', '(()=>{var a=[1];a.constructor=E2("({[Symbol.species]:Array})");return a})()', '(()=>{var a=[1];a.constructor=new Proxy(B.Array,{});return a})()', '(()=>{var a=[1];a.constructor=B.Array.bind();return a})()', '(()=>{var a=[1];a.constructor=(()=>{var p=B.Proxy.revocable(function(){},{});p.revoke();return p.proxy})();return a})()', '(()=>{var a=new Uint8Array(1);a.constructor=B.Uint8Array;return a})()', '(()=>{var a=new Uint8Array(1);a.constructor=B.Int16Array;return a})()', 'new Proxy(B.Array.of(1),{})', 'new B.Proxy([1],{})'];
    for (const o of so) for (const m of sp) for (const P of ['Array.prototype', 'B.Array.prototype', 'HID.TA.prototype', 'B.HID.TA.prototype']) { const n = m.split('(')[0]; yield { src: `X(()=>${P}.${n}.call(${o}${m.slice(n.length + 1) === ')' ? '' : ',' + m.slice(n.length + 1, -1)}))`, cls: 'species' }; }
    for (const s of ['new ArrayBuffer(8)', 'new B.ArrayBuffer(8)', '(()=>{var b=new ArrayBuffer(8);b.constructor=B.ArrayBuffer;return b})()', 'new SharedArrayBuffer(8)', 'new B.SharedArrayBuffer(8)']) for (const P of ['', 'B.']) for (const K of ['ArrayBuffer', 'SharedArrayBuffer']) yield { src: `X(()=>${P}${K}.prototype.slice.call(${s},1))`, cls: 'species' };
    for (const s of ['/a/g', 'E2("/a/g")', '(()=>{var r=/a/g;r.constructor=B.RegExp;return r})()', '(()=>{var r=/a/g;Object.defineProperty(r,"constructor",{value:undefined});return r})()']) for (const k of ['Symbol.split', 'Symbol.matchAll', 'Symbol.match', 'Symbol.replace', '"exec"', '"test"', '"toString"']) for (const P of ['', 'B.']) yield { src: `X(()=>${P}RegExp.prototype[${k}].call(${s},"ba","x"));X(()=>[...${P}RegExp.prototype[${k}].call(${s},"ba","x")])`, cls: 'species' };
    // Promise machinery
    for (const P of ['Promise', 'B.Promise']) for (const C of ['Promise', 'B.Promise', 'class extends B.Promise{}', 'Object', 'undefined']) for (const m of ['resolve', 'reject', 'all', 'race', 'any', 'allSettled']) for (const v of ['[]', '[1]', 'B.Promise.resolve(1)', 'Promise.resolve(1)', '1', 'E2("[Promise.resolve(1)]")']) yield { src: `var p;X(()=>p=${P}.${m}.call(${C},${v}));if(p&&p.then)p.then(v=>__log(D(v)),e=>__log("!"+D(e)))`, cls: 'promise' };
    for (const x of ['Promise.resolve(1)', 'B.Promise.resolve(1)', '(()=>{var p=B.Promise.resolve(1);p.constructor=Promise;return p})()', '(()=>{var p=Promise.resolve(1);p.constructor=B.Promise;return p})()', 'B.Promise.reject(1)', 'E2("({then(r){r(1)}})")', 'E2("(async()=>{null.x})()")', 'E2("(async()=>[])()")']) for (const y of ['then(()=>1,()=>2)', 'catch(()=>1)', 'finally(()=>1)']) { yield { src: `for(const P of[Promise,B.Promise])X(()=>P.prototype.${y.split('(')[0]}.call(${x},${y.slice(y.indexOf('(') + 1, -1)}))`, cls: 'promise' }; yield { src: `(async()=>{try{var v=await ${x};__log(D(v))}catch(e){__log("!"+D(e))}})();${x}.then(v=>__log(D(v)),e=>__log("!"+D(e)));B.p_=${x};E2("(async()=>{try{__log(typeof await p_)}catch(e){__log(\\"c\\"+typeof e)}})()")`, cls: 'promise' }; }
    // proxies, accessors, well known objects
    for (const s of ['X(()=>new Proxy({},{}))', 'X(()=>B.Reflect.ownKeys(new Proxy({},{ownKeys(){return E2("[]")}})))', 'X(()=>Reflect.apply(new B.Proxy(function(){},{apply(t,h,a){return a}}),1,[1]))', 'X(()=>Reflect.construct(new B.Proxy(function(){},{construct(t,a){return a}}),[1]))', 'X(()=>new B.Proxy(function(){},{apply(t,h,a){return a}})(1))', 'X(()=>new Proxy(B.Function.prototype,{apply(t,h,a){return a}})(1))', 'X(()=>new B.Proxy(function(){},{construct(){return 1}}) instanceof Object);X(()=>new (new B.Proxy(function(){},{construct(){return 1}})))', 'X(()=>Object.getOwnPropertyDescriptor(new B.Proxy({a:1},{}),"a"))', 'X(()=>B.Object.getOwnPropertyDescriptor(new Proxy({a:1},{getOwnPropertyDescriptor(t,k){return Reflect.getOwnPropertyDescriptor(t,k)}}),"a"))', 'X(()=>{new Proxy({},{defineProperty(t,k,d){__log(D(d));return Reflect.defineProperty(t,k,d)}}).x=1})', 'X(()=>{B.Object.defineProperty(new Proxy({},{defineProperty(t,k,d){__log(D(d));return true}}),"x",{value:1,configurable:true})})', 'X(()=>{var p=B.Proxy.revocable({},{});p.revoke();p.proxy.x})', 'X(()=>{var p=B.Proxy.revocable({},{});p.revoke();B.Reflect.get(p.proxy,"x")})', 'X(()=>{var p=Proxy.revocable(()=>1,{});p.revoke();E2("(f=>f())")(p.proxy)})', 'X(()=>{var p=Proxy.revocable(()=>1,{});p.revoke();E2("(f=>new f)")(p.proxy)})', 'X(()=>E2("(f=>{f.x=1})")(Object.freeze({})))', 'X(()=>E2("(f=>{\\"use strict\\";f.x=1})")(Object.freeze({})))', 'X(()=>{"use strict";E2("Object.freeze({})").x=1})', 'X(()=>E2("(class{})")())', 'X(()=>E2("(class extends Object{})").call({}))', 'X(()=>1)', 'X(()=>new (E2("(class extends Object{constructor(){return 1}})")))', 'X(()=>new (E2("(class extends Object{constructor(){this.x}})")))', 'X(()=>new (E2("(class extends Object{constructor(){super();super()}})")))',
      'X(()=>{class C extends E2("(class{constructor(){return 1}})"){};return new C})', 'X(()=>{class C extends E2("(function(){return this})"){};return new C})', 'X(()=>{class C extends E2("Object"){};return new C})', 'X(()=>{class C extends E2("null"){};return new C})', 'X(()=>new B.Array(-1))', 'X(()=>new B.Map(1))', 'X(()=>B.Symbol.prototype.toString.call(1))', 'X(()=>new B.Symbol)', 'X(()=>B.Symbol.for("q")===Symbol.for("q"));__log(B.Symbol.for("q")===Symbol.for("q"),Symbol.keyFor(B.Symbol.for("k2")),B.Symbol.iterator===Symbol.iterator,B.Symbol.asyncIterator===Symbol.asyncIterator,B.Symbol===Symbol,B.Symbol("a")===B.Symbol("a"))', '__log(B.Object===Object,B.eval===eval,B.parseInt===parseInt,B.undefined===undefined,B.globalThis===globalThis,B.Array.isArray([]),Array.isArray(B.Array()),B.NaN!==B.NaN)', 'B.zz=1;__log(typeof zz,typeof B.zz,E2("typeof zz"));delete B.zz', 'var va=1;__log(E2("typeof va"),typeof B.va)', 'E2("let lx_=1");__log(typeof lx_,E2("typeof lx_"),typeof B.lx_)', 'E2("var vb_=1");__log(typeof vb_,typeof B.vb_);E2("function fb_(){return vb_}");__log(typeof fb_,B.fb_());X(()=>B.fb_)', 'Object.prototype.pol=1;__log(E2("typeof ({}).pol"));delete Object.prototype.pol', 'B.Array.prototype.pol=1;__log(typeof [].pol,E2("typeof [].pol"));delete B.Array.prototype.pol', 'B.String.prototype.pol=function(){return typeof this};__log(typeof "s".pol,E2("\\"s\\".pol()"),E2("(s=>s.pol())")("q"));delete B.String.prototype.pol', 'Object.defineProperty(B.Number.prototype,"gp",{get(){"use strict";return typeof this},configurable:true});__log(E2("(n=>n.gp)")(5),(5).gp);Object.defineProperty(B.Number.prototype,"gp",{get(){return this},configurable:true});X(()=>E2("(n=>n.gp)")(5));delete B.Number.prototype.gp', 'X(()=>E2("(function(){return this})").call(5));X(()=>E2("(function(){return this})").call(null));X(()=>E2("(function(){return this})").call("s"));X(()=>E2("(function(){\\"use strict\\";return this})").call(null));X(()=>E2("(function(){return this})").call(1n));X(()=>E2("(function(){return this})").call(Symbol()))',
      'X(()=>B.eval("this"));X(()=>(0,B.eval)("({})"));X(()=>{var l=1;return B.eval("typeof l")==="number"?{}:1});X(()=>{var eval=B.eval;var l=1;return eval("typeof l")==="number"?{}:1})', 'X(()=>B.Function("return this")());X(()=>new B.Function("a","return [a]")(1));X(()=>B.Function("return typeof __S")()==="function"?{}:1)', 'X(()=>B.Object(1));X(()=>B.Object("s"));X(()=>B.Object.prototype.valueOf.call(1));X(()=>B.Object.prototype.valueOf.call(null))', 'X(()=>E2("(a=>[...a])")([1]));X(()=>E2("(a=>{var[...r]=a;return r})")([1]));X(()=>E2("(a=>({...a}))")([1]));X(()=>E2("((...a)=>a)")(1));X(()=>E2("(function(){return arguments})")(1));X(()=>E2("(f=>f`a`)")(s=>s));X(()=>E2("(f=>f`a`)")(s=>s.raw))', 'X(()=>[][Symbol.iterator].call(B.Array.of(1)).next());X(()=>B.Array.prototype.values.call([1]).next());X(()=>B.HID.AI.next.call([1].values()));X(()=>HID.G.prototype.next.call(E2("(function*(){yield 1})()")));X(()=>B.HID.G.prototype.next.call((function*(){yield 1})()));X(()=>B.HID.G.prototype.return.call((function*(){yield 1})(),2));X(()=>B.HID.MI.next.call(new Map([[1,2]]).entries()));X(()=>B.HID.MI.next.call(new Map([[1,2]]).entries()).value)',
      'X(()=>{var g=E2("(function*(){try{yield []}finally{null.x}})()");__log(D(g.next().value));return HID.G.prototype.return.call(g,1)})', 'X(()=>E2("(function*(g){yield*g})")(5).next())', 'X(()=>{var g=E2("(function*(g){yield*g})")({[Symbol.iterator](){return {next(){return 1}}}});return g.next()})', 'var g=E2("(function*(){yield 1})");g.prototype=null;X(()=>g());X(()=>new g);g=E2("(async function*(){yield 1})");g.prototype=1;X(()=>g())', 'X(()=>E2("(function(){\\"use strict\\";return Object.getOwnPropertyDescriptor(arguments,\\"callee\\").get})")());__log(E2("(function(){\\"use strict\\";return Object.getOwnPropertyDescriptor(arguments,\\"callee\\").get})")()===function(){"use strict";return Object.getOwnPropertyDescriptor(arguments,"callee").get}())', 'X(()=>Object.getOwnPropertyDescriptor(B.Function.prototype,"caller").get.call(1));__log(Object.getOwnPropertyDescriptor(B.Function.prototype,"caller").get===Object.getOwnPropertyDescriptor(Function.prototype,"caller").get)', 'X(()=>JSON.parse("[{}]",B.Object));X(()=>B.JSON.parse("[{}]"));X(()=>B.JSON.stringify(1n));X(()=>B.JSON.parse("{"));__log(JSON.stringify({a:new B.Number(1),b:new B.String("s"),c:B.Array.of(1)}))', 'X(()=>B.Array.from([1]));X(()=>B.Array.from.call(Array,[1]));X(()=>B.Array.of.call(Object,1));X(()=>Array.from(B.Array.of(1)));X(()=>B.Object.entries({a:1}));X(()=>B.Object.entries({a:1})[0]);X(()=>B.Object.create(null));X(()=>B.Object.create({}));X(()=>B.Object.getOwnPropertyDescriptors({a:1}));X(()=>B.Object.getOwnPropertyDescriptors({a:1}).a);X(()=>B.Object.fromEntries([]));X(()=>B.Object.keys({}));X(()=>B.Reflect.ownKeys({}));X(()=>B.Reflect.getOwnPropertyDescriptor({a:1},"a"))', 'X(()=>B.Function.prototype.bind.call(function(){}));X(()=>B.Function.prototype.bind.call(class extends Array{}));X(()=>new (B.Function.prototype.bind.call(Array)));X(()=>Function.prototype.bind.call(B.Array));X(()=>new (Function.prototype.bind.call(B.Array)))', 'class C extends B.Array{};X(()=>new C(1,2).map(x=>x));X(()=>C.from([1]));X(()=>new C instanceof B.Array?{}:1);X(()=>new C().concat([1]))', 'X(()=>Object.prototype.__proto__);X(()=>Object.getPrototypeOf(B.Object.prototype)===null?{}:1)', 'for(const n of ["Object","Function","Array","Error","Promise","Map"]){X(()=>Object.getPrototypeOf(B[n]));X(()=>B[n].prototype.constructor);X(()=>Object.getPrototypeOf(B[n].prototype))}', 'for(const n of Reflect.ownKeys(HID))X(()=>Reflect.getPrototypeOf(B.HID[n])===null?null:RE(B.HID[n]))',
      'X(()=>{try{E2("throw new Error")}catch(e){return e}});X(()=>{try{E2("throw {}")}catch(e){return e}});X(()=>{try{E2("null.x")}catch(e){return e}});X(()=>{try{E2("(")}catch(e){return e}});X(()=>E2("f=>f()")(()=>null.x));X(()=>E2("f=>{try{f()}catch(e){return e}}")(()=>null.x));X(()=>E2("f=>{try{f()}finally{}}")(()=>null.x))', 'var C2=__realm();X(()=>C2.Object);__log(C2.Array===B.Array,C2.Array===Array,RE(C2.Array.of(1)),C2.eval("[] instanceof Array"),B.Array.isArray(C2.Array()))', 'var a=B.Array.of(3,1,2);a.sort(E2("(x,y)=>x-y"));__log(a.join());X(()=>a.sort(1));X(()=>B.Array.prototype.sort.call([2,1],1));X(()=>B.Array.prototype.reduce.call([],(a,b)=>a));X(()=>B.Array.prototype.map.call([1],1))', 'var u=new B.Uint8Array([1,2]);__log(ArrayBuffer.isView(u),new Uint8Array(u).join(),new Uint16Array(u.buffer).length);X(()=>new Uint8Array(u));X(()=>new Uint8Array(u).buffer);X(()=>new B.Uint8Array(new Uint8Array(2)).buffer);X(()=>new Uint8Array(u.buffer).buffer)', 'X(()=>B.Date.prototype.getTime.call({}));X(()=>B.Date.prototype.toISOString.call(new Date(NaN)));X(()=>B.Number.prototype.toString.call(1,99));X(()=>B.BigInt(1.5));X(()=>B.String.raw());X(()=>B.Map.prototype.get.call({}));X(()=>B.WeakMap.prototype.set.call(new WeakMap,1,1))', 'X(()=>"".replace.call("a",B.Object));X(()=>"a".matchAll(E2("/a/")));X(()=>"a".replaceAll(E2("/a/"),""));X(()=>"a".match("("));X(()=>B.String.prototype.match.call("a","("));X(()=>B.String.prototype.match.call("a","a"));X(()=>B.String.prototype.split.call("a,b",","));X(()=>B.String.prototype.matchAll.call("a","a"));X(()=>B.String.prototype.matchAll.call("a","a").next())'])
      yield { src: s, cls: 'program' };
    // cross-realm private names, brand checks, instanceof, iteration
    for (const s of ['var mk="(class{#p=1;static g(o){return o.#p};static h(o){return #p in o}})";var Ca=(0,eval)(mk),Cb=E2(mk);X(()=>Ca.g(new Cb));__log(Ca.h(new Cb),Cb.h(new Cb),Cb.h(new Ca));X(()=>Cb.g(new Ca));X(()=>Cb.g(1))', 'X(()=>{for(const x of E2("[[]]"))return x});X(()=>{for(const x of E2("new Map([[1,[]]])"))return x});X(()=>{for(const x in E2("({a:1})"))return x});X(()=>Object.assign({},E2("({a:{}})")));X(()=>({...E2("({a:{}})")}));X(()=>new Map(E2("[[1,2]]")).entries().next());X(()=>new B.Map([[1,2]]).entries().next().value);X(()=>new B.Set([1]).entries().next().value)', 'var ws=new B.WeakSet,o={};ws.add(o);__log(ws.has(o),WeakSet.prototype.has.call(ws,o));X(()=>WeakSet.prototype.add.call(ws,{}));X(()=>new B.WeakRef(o).deref())', '__log([] instanceof B.Array,B.Array.of() instanceof Array,E2("(f=>f instanceof Function)")(()=>1),B.Function.prototype[Symbol.hasInstance].call(Array,[]))'])
      yield { src: s, cls: 'program' };
  },
};
