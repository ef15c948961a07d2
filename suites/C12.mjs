// Proxy traps: arguments, use of results, invariants, missing traps, revocation, nesting.
import { P0, product, seqs, seqsUpTo } from '../lib/prelude.mjs';
const B = ['true', 'false'];
const tdesc = [null]; for (const [v, w, e, c] of product(['1', 'undefined', 'NaN', 'O1'], B, B, B)) if (v === '1' || (w === 'false' && e === 'true')) tdesc.push(`{value:${v},writable:${w},enumerable:${e},configurable:${c}}`);
for (const [g, s, e, c] of product(['g1', 'undefined'], ['s1', 'undefined'], B, B)) if (e === 'true') tdesc.push(`{get:${g},set:${s},enumerable:${e},configurable:${c}}`);
const rdesc = ['undefined', 'null', '5', '"s"', '{}', '[]', 'O1', '{get:5}', '{get:g1,value:1}', '{get:undefined,writable:true}', 'px0'];
for (const [v, w, e, c] of product(['', 'value:1', 'value:2', 'value:NaN'], ['', 'writable:true', 'writable:false'], ['enumerable:true', 'enumerable:false', ''], ['configurable:true', 'configurable:false'])) rdesc.push('{' + [v, w, e, c].filter(x => x).join() + '}');
for (const [g, s, e, c] of product(['get:g1', 'get:undefined', ''], ['set:s1', 'set:undefined', ''], ['enumerable:true'], ['configurable:true', 'configurable:false'])) if (g || s) rdesc.push('{' + [g, s, e, c].filter(x => x).join() + '}');
const truthy = ['true', 'false', '1', '0', '""', '"x"', 'undefined', 'null', '{}', 'NaN'];
const targets = ['{}', '[7,8]', 'function f(a,b){"use strict";L("f"+arguments.length);return new.target?{nt:new.target===PX}:a}', '()=>1', 'class{constructor(a){this.a=a}}', 'async function(){}', 'Object.freeze({p:1})', 'new Map', 'new Date(5)', '/x/g', 'new String("ab")', 'new Uint8Array(2)', 'Object.create(null)', 'new Proxy({},{})', 'new Proxy([],{})', 'new Proxy(function(){"use strict"},{})', 'Symbol', 'function*(){}', 'Promise.resolve(1)', '(function(){return arguments})(1,2)', 'Object(1n)', '{p:1,__proto__:{q:2}}', 'class extends Array{}', 'parseInt', 'Object(Symbol())', 'globalThis'];
// operations that reach one or several traps
const ops = ['PX.p', 'PX["p"]', 'PX[Y]', 'PX[1]', 'PX.p=1', 'PX[1]=2', '(()=>{"use strict";PX.p=1})()', 'delete PX.p', '(()=>{"use strict";return delete PX.p})()', '"p" in PX', 'Y in PX', 'typeof PX', 'PX()', 'PX(1,2)', 'new PX', 'new PX(1,2)', 'PX.call(5,6)', 'PX.apply(5,[6,7])', 'PX.bind(1)(2)', 'PX`t`', 'PX instanceof Object', 'Object instanceof PX', 'PX instanceof PX', '({}) instanceof PX', 'Object.getPrototypeOf(PX)===Object.getPrototypeOf(TG)', 'Object.setPrototypeOf(PX,null)===PX', 'Reflect.setPrototypeOf(PX,{})', 'PX.__proto__=null', 'PX.__proto__===Object.getPrototypeOf(TG)', 'Object.isExtensible(PX)', 'Object.preventExtensions(PX)===PX', 'Reflect.preventExtensions(PX)', 'Object.freeze(PX)===PX', 'Object.seal(PX)===PX', 'Object.isFrozen(PX)', 'Object.isSealed(PX)', 'Object.getOwnPropertyDescriptor(PX,"p")', 'Object.getOwnPropertyDescriptors(PX)', 'Object.defineProperty(PX,"p",{value:3})===PX', 'Reflect.defineProperty(PX,"p",{get(){},configurable:true})', 'Reflect.defineProperty(PX,"p",{})', 'Object.defineProperties(PX,{a:{value:1},b:{get(){}}})===PX', 'Object.keys(PX)', 'Object.values(PX)', 'Object.entries(PX)', 'Object.getOwnPropertyNames(PX)', 'Object.getOwnPropertySymbols(PX)', 'Reflect.ownKeys(PX).length', 'Object.assign({},PX)', 'Object.assign(PX,{p:1,[Y]:2})===PX', '({...PX})', '(({p,...r})=>[p,r])(PX)', 'JSON.stringify(PX)', 'JSON.stringify({a:PX})', 'Object.prototype.toString.call(PX)', 'String(PX).length>0', '+PX', 'PX==PX', 'PX===TG', 'Array.isArray(PX)', '[].concat(PX)', '[...PX]', 'Array.from(PX)', 'Array.prototype.slice.call(PX)', 'Array.prototype.push.call(PX,9)', 'Array.prototype.pop.call(PX)', 'PX.hasOwnProperty("p")', 'Object.hasOwn(PX,"p")', 'PX.propertyIsEnumerable("p")', 'class X extends PX{}', 'new class extends PX{}', 'Reflect.get(PX,"p",5)', 'Reflect.set(PX,"p",1,{})', 'Reflect.set({},"p",1,PX)', 'Reflect.set(PX,"p",1,5)', 'Reflect.has(PX,"p")', 'Reflect.deleteProperty(PX,"p")', 'Reflect.apply(PX,1,[2])', 'Reflect.construct(PX,[1])', 'Reflect.construct(PX,[1],Object)', 'Reflect.construct(Object,[1],PX)', 'Object.create(PX).p', 'Object.create(PX).p=1', '"p" in Object.create(PX)', '(()=>{var o={__proto__:PX,m(){return super.p}};return o.m()})()', '(()=>{var o={__proto__:PX,m(){super.p=4}};o.m();return o})()', 'Object.create(PX)[1]=5', 'PX.p++', 'PX.p+=1', 'PX.p??=1', 'PX?.p', 'PX.m?.()', '(QX=new Proxy(PX,{})).p', '(QX=new Proxy(PX,{})).p=1', 'Object.keys(QX=new Proxy(PX,{}))', 'Object.groupBy', 'new Map([[PX,1]]).get(PX)', 'new WeakMap([[PX,1]]).has(PX)', 'PX[Symbol.toPrimitive]', '`${PX}`.length>0', 'PX.length', 'PX.length=1', 'isNaN(PX)', 'Map.prototype.get.call(PX,1)', 'Date.prototype.getTime.call(PX)', 'RegExp.prototype.exec.call(PX,"x")', 'PX.then', 'Object.isPrototypeOf.call(PX,Object.create(PX))', 'PX.constructor', 'eval("PX.p")', 'Function.prototype.toString.call(PX).length>0', 'ArrayBuffer.isView(PX)', 'Symbol.prototype.valueOf.call(PX)'];
const hand = ['{}', '{get:undefined,has:null}', 'LH()', '{get get(){throw "gg"},get has(){throw "gh"},get set(){throw "gs"},get ownKeys(){throw "go"},get apply(){throw "ga"},get construct(){throw "gc"}}', '{get:5,set:5,has:5,deleteProperty:5,ownKeys:5,getOwnPropertyDescriptor:5,defineProperty:5,getPrototypeOf:5,setPrototypeOf:5,isExtensible:5,preventExtensions:5,apply:5,construct:5}', '{get(){throw "t1"},set(){throw "t2"},has(){throw "t3"},deleteProperty(){throw "t4"},ownKeys(){throw "t5"},getOwnPropertyDescriptor(){throw "t6"},defineProperty(){throw "t7"},getPrototypeOf(){throw "t8"},setPrototypeOf(){throw "t9"},isExtensible(){throw "t10"},preventExtensions(){throw "t11"},apply(){throw "t12"},construct(){throw "t13"}}', 'new Proxy({},{get(t,k){L("h"+String(k))}})', 'new Proxy(LH(),{get(t,k){L("H"+String(k));return t[k]}})', 'Object.create(LH())', 'REV', '{get(t,k,r){L(r===PX);return Reflect.get(t,k,t)},set(t,k,v,r){L(r===PX);return Reflect.set(t,k,v,t)}}', '{get(){},set(){},has(){},deleteProperty(){},ownKeys(){},getOwnPropertyDescriptor(){},defineProperty(){},getPrototypeOf(){},setPrototypeOf(){},isExtensible(){},preventExtensions(){},apply(){},construct(){}}', '{get(){return 1},set(){return 1},has(){return 1},deleteProperty(){return 1},ownKeys(){return ["p",Y]},getOwnPropertyDescriptor(){return{value:1,configurable:true,enumerable:true}},defineProperty(){return 1},getPrototypeOf(){return null},setPrototypeOf(){return 1},isExtensible(){return 1},preventExtensions(){return 1},apply(){return 1},construct(){return {}}}'];
const okres = ['[]', '["p"]', '["q"]', '["p","p"]', '["p","q"]', '["q","p"]', '["p","q","r"]', '[Y]', '["p",Y]', '[1]', '["p",undefined]', '[null]', '{}', '{length:1,0:"p"}', '{length:2,0:"p",1:"q"}', '{get length(){L("gl");return 1},get 0(){L("g0");return "p"}}', '5', 'undefined', 'null', '"p"', '[,]', '["p",{}]', '[Object("p")]', 'new Proxy(["p"],{})', '(function(){return arguments})("p","q")', '{length:{valueOf(){L("lv");return 1}},0:"p"}', '["p",1n]', '[true]', '{length:-1}', '{length:"2",0:"p",1:"q"}', '["p",,"q"]', 'new String("p")', '["length"]', '[Y,"p",Symbol.iterator]', '(()=>{throw "ok"})()'];
const oktg = ['{}', '{p:1}', '{p:1,q:2}', 'NC({p:1})', 'NC({p:1},"q")', 'PE({})', 'PE({p:1})', 'PE({p:1,q:2})', 'PE(NC({p:1}))', 'PE(NC({q:2},"p"))', 'Object.freeze({p:1,q:2})', '{[Y]:1,p:1}', 'PE({[Y]:1,p:1})', '[1]', 'function(){}', 'PE([])', 'Object.freeze({p:1,q:2,[Y]:3})'];
const protoV = ['null', 'P1', 'P2', 'undefined', '5', '"s"', 'Y', 'TG', 'PX', 'Object.prototype', 'f0'];
export default {
  id: 'C12', level: 'exploration', reset: 60, variants: ['plain'],
  rule: 'one case = one proxy operation with one target state and all trap results of one shape, or one operation through one handler and target; all distinct; non-trivial: every case',
  prelude: P0 + String.raw`
var Y=Symbol("Y"),O1={},QX,PX,TG,P1={n:1},P2={n:2},px0=new Proxy({value:1,configurable:true},{}),REV;function g1(){return 1} function s1(v){} function f0(){}
(function(){var r=Proxy.revocable({},{});r.revoke();REV=r.proxy})();
function PE(o){Object.preventExtensions(o);return o} function NC(o,k){for(var q of k?[k]:Reflect.ownKeys(o))Object.defineProperty(o,q,{value:o[q],configurable:false});return o}
var TRAPS=["get","set","has","deleteProperty","ownKeys","getOwnPropertyDescriptor","defineProperty","getPrototypeOf","setPrototypeOf","isExtensible","preventExtensions","apply","construct"];
function W(x){return x===PX?"PX":x===QX?"QX":x===TG?"TG":typeof x==="function"?(x===g1?"g1":x===s1?"s1":"fn"):x===P1?"P1":x===P2?"P2":x===Object.prototype?"OP":x===globalThis?"G":Array.isArray(x)?"["+x.map(W)+"]":Object(x)===x?"{"+Reflect.ownKeys(x).slice(0,8).map(k=>String(k)+":"+("value" in (Object.getOwnPropertyDescriptor(x,k)||{})?W(x[k]):"acc"))+"}":__S(x)}
function LH(){var h={};for(let n of TRAPS)h[n]=function(){__log(n+(this===h)+Array.prototype.map.call(arguments,W).join("|"));return Reflect[n].apply(null,arguments)};return h}
function MK(d,ext){var t={};if(d)Object.defineProperty(t,"p",d);if(!ext)Object.preventExtensions(t);return t}
function D1(d){if(!d)return "-";var r="";if("value" in d)r+="v"+W(d.value)+(d.writable?"w":"");else r+="g"+W(d.get)+"s"+W(d.set);return r+(d.enumerable?"e":"")+(d.configurable?"c":"")}
// run f on every result of the trap
function ALL(mk,h,rs,f){var out=[];for(var i=0;i<rs.length;i++){TG=mk();PX=new Proxy(TG,h(rs[i]));var r;try{r=f();r=typeof r==="string"?r:W(r)}catch(e){r=__E(e)}out.push(r)}__log(out.join(" "))}
var RD=[${rdesc.join()}],TR=[${truthy.join()}],TD=[${tdesc.map(x => x || 'null').join()}],GV=[1,2,undefined,NaN,null,O1,-0,0,"1"];
var BT=["get","set","has"].map(n=>Reflect[n]);
`,
  bounds: {
    quick: `${tdesc.length} target property states x extensible x ${rdesc.length} descriptors / ${truthy.length} results for every trap; traps that change the target; ${targets.length} targets x ${hand.length} handlers x ${ops.length} operations; ownKeys ${okres.length} results x ${oktg.length} targets x 5 consumers; nested and revoked proxies`,
    thorough: 'same space plus two-level proxies over every trap result and every pair of operations on logging handlers'
  },
  *gen(tier) {
    const th = tier === 'thorough';
    for (let i = 0; i < tdesc.length; i++) for (const x of [1, 0]) {
      const mk = `()=>MK(TD[${i}],${x})`;
      for (const k of ['"p"', '"q"', 'Y']) {
        yield { src: `ALL(${mk},r=>({getOwnPropertyDescriptor(t,k){return r}}),RD,()=>D1(Object.getOwnPropertyDescriptor(PX,${k})))` };
        for (const f of [`Reflect.defineProperty(PX,${k},{value:1})`, `Reflect.defineProperty(PX,${k},{value:2,configurable:false})`, `Reflect.defineProperty(PX,${k},{writable:false,configurable:false})`, `Reflect.defineProperty(PX,${k},{get:g1,configurable:false})`, `Reflect.defineProperty(PX,${k},{get:g1,set:s1})`, `Reflect.defineProperty(PX,${k},{enumerable:true})`, `Reflect.defineProperty(PX,${k},{enumerable:false,configurable:false})`, `Reflect.defineProperty(PX,${k},{})`, `Reflect.defineProperty(PX,${k},{configurable:true})`, `Object.defineProperty(PX,${k},{value:1,writable:true,enumerable:true,configurable:true})===PX`, `Reflect.set({},${k},1,PX)`, `(()=>{class A extends function(){return PX}{[${k}]=1};new A;return 1})()`]) for (const g of ['', 'getOwnPropertyDescriptor(t,k){return Reflect.getOwnPropertyDescriptor(t,k)},']) yield { src: `ALL(${mk},r=>({${g}defineProperty(t,k,d){L(D1(d)+Reflect.ownKeys(d));return r}}),TR,()=>${f})` };
        for (const f of [`${k} in PX`, `Reflect.has(PX,${k})`, `(${k} in Object.create(PX))`, `!(${k} in PX)`]) yield { src: `ALL(${mk},r=>({has(t,k){return r}}),TR,()=>${f})` };
        for (const f of [`PX[${k}]`, `Reflect.get(PX,${k},5)`, `Object.create(PX)[${k}]`]) yield { src: `ALL(${mk},r=>({get(t,k,rc){L(rc===PX);return r}}),GV,()=>${f})` };
        for (const v of ['1', '2', 'NaN', 'undefined', 'O1']) for (const f of [`Reflect.set(PX,${k},${v})`, `(PX[${k}]=${v})`, `(()=>{"use strict";PX[${k}]=${v};return 1})()`, `Reflect.set(Object.create(PX),${k},${v})`, `Reflect.set(PX,${k},${v},{})`]) yield { src: `ALL(${mk},r=>({set(t,k,v,rc){L(W(rc)+W(v));return r}}),TR,()=>${f})` };
        for (const f of [`Reflect.deleteProperty(PX,${k})`, `delete PX[${k}]`, `(()=>{"use strict";return delete PX[${k}]})()`]) yield { src: `ALL(${mk},r=>({deleteProperty(t,k){return r}}),TR,()=>${f})` };
        // traps that change the target before they answer
        for (const mu of ['Object.freeze(t)', 'Object.preventExtensions(t)', 'delete t.p', 't.p=2', 'Reflect.defineProperty(t,"p",{value:3,configurable:false})', 'Reflect.defineProperty(t,"q",{value:3,configurable:false})', 'Reflect.defineProperty(t,"p",{configurable:false})'])
          for (const [n, rs, f] of [['getOwnPropertyDescriptor', 'RD', `D1(Object.getOwnPropertyDescriptor(PX,${k}))`], ['defineProperty', 'TR', `Reflect.defineProperty(PX,${k},{value:1,configurable:false})`], ['defineProperty', 'TR', `Reflect.defineProperty(PX,${k},{value:3})`], ['has', 'TR', `Reflect.has(PX,${k})`], ['get', 'GV', `PX[${k}]`], ['set', 'TR', `Reflect.set(PX,${k},2)`], ['deleteProperty', 'TR', `Reflect.deleteProperty(PX,${k})`]]) yield { src: `ALL(${mk},r=>({${n}(t){${mu};return r}}),${rs},()=>${f})` };
        if (th) yield { src: `ALL(${mk},r=>new Proxy({getOwnPropertyDescriptor(t,k){return r}},{get(t,k,rc){L(k);return t[k]}}),RD,()=>{PX=new Proxy(PX,{});return D1(Object.getOwnPropertyDescriptor(PX,${k}))})` };
      }
      for (const f of ['Reflect.isExtensible(PX)', 'Object.isExtensible(PX)', 'Object.isFrozen(PX)', 'Object.isSealed(PX)']) yield { src: `ALL(${mk},r=>({isExtensible(t){return r}}),TR,()=>${f})` };
      for (const f of ['Reflect.preventExtensions(PX)', 'Object.preventExtensions(PX)===PX', 'Object.freeze(PX)===PX', 'Object.seal(PX)===PX']) for (const mu of ['', 'Object.preventExtensions(t);', 'Object.freeze(t);']) yield { src: `ALL(${mk},r=>({preventExtensions(t){${mu}return r}}),TR,()=>${f});L(DESC(TG))` };
    }
    // prototypes
    for (const tp of ['P1', 'P2', 'null', 'Object.prototype']) for (const x of [1, 0]) {
      const mk = `()=>{var t={__proto__:${tp}};if(!${x})Object.preventExtensions(t);return t}`;
      for (const f of ['Reflect.getPrototypeOf(PX)', 'Object.getPrototypeOf(PX)', 'PX.__proto__', 'P1.isPrototypeOf(PX)', 'P1.isPrototypeOf(Object.create(PX))', 'PX instanceof f0', 'PX instanceof Object', 'Object.prototype.__lookupGetter__.call(PX,"zz")', '(()=>{var r=[];for(var k in PX)r.push(k);return r})()']) for (const mu of ['', 'Object.preventExtensions(t);', 'Object.setPrototypeOf(t,P2);']) if (!(mu && /for\(/.test(f))) yield { src: `ALL(${mk},r=>({getPrototypeOf(t){${mu}return r}}),[${protoV.join()}],()=>${f})` };
      for (const pv of protoV.filter(p => !/PX|TG/.test(p))) for (const f of [`Reflect.setPrototypeOf(PX,${pv})`, `Object.setPrototypeOf(PX,${pv})===PX`, `(PX.__proto__=${pv},1)`]) for (const mu of ['', 'Reflect.setPrototypeOf(t,P2);', 'Object.preventExtensions(t);']) yield { src: `ALL(${mk},r=>({setPrototypeOf(t,p){L(W(p));${mu}return r}}),TR,()=>${f});L(W(Object.getPrototypeOf(TG)))` };
    }
    for (const r of okres) for (const t of oktg) for (const f of ['Reflect.ownKeys(PX).map(W).join()', 'Object.keys(PX)', 'Object.getOwnPropertyNames(PX)', 'Object.getOwnPropertySymbols(PX).length', '({...PX})', 'Object.entries(PX)', 'Object.assign({},PX)', 'Object.getOwnPropertyDescriptors(PX)', 'Object.freeze(PX)===PX', 'Object.isFrozen(PX)', 'Object.defineProperties({},PX)', 'JSON.stringify(PX)', '(({p,...r})=>r)(PX)', 'Object.fromEntries(Object.entries(PX))']) for (const g of ['', ',getOwnPropertyDescriptor(t,k){L(W(k));return Reflect.getOwnPropertyDescriptor(t,k)}']) yield { src: `TG=(${t});PX=new Proxy(TG,{ownKeys(t){return ${r}}${g}});T(()=>${f})` };
    for (const t of ['{}', '{p:1}', '{p:1,q:2}']) for (const mu of ['Object.preventExtensions(t)', 'delete t.p', 't.q=1', 'NC(t)', 'Object.freeze(t)']) for (const r of okres) yield { src: `TG=${t};PX=new Proxy(TG,{ownKeys(t){${mu};return ${r}}});T(()=>Reflect.ownKeys(PX).map(W))` };
    // apply and construct
    for (const t of targets.filter(t => /=>|function|class|parseInt|Symbol$|Proxy\(function/.test(t))) for (const h of ['apply(t,th,a){L(W(t)+W(th)+W(a)+Array.isArray(a));return RES}', 'construct(t,a,n){L(W(t)+W(a)+W(n));return RES}', 'apply:undefined,construct:null', 'apply(t,th,a){return Reflect.apply(t,th,a)},construct(t,a,n){return Reflect.construct(t,a,n)}', 'construct(t,a,n){return Reflect.construct(t,a,t)}', 'get(t,k,r){L("g"+String(k));return Reflect.get(t,k,r)}']) for (const rs of /RES/.test(h) ? ['1', 'undefined', 'O1', 'null', 'f0', 'PX', '(()=>{throw "RT"})()'] : ['0']) for (const c of ['PX(1,2)', 'new PX(1,2)', 'new PX', 'PX.call(5)', 'PX.apply(null,{length:2,0:1})', 'Reflect.construct(PX,[1],f0)', 'Reflect.construct(f0,[1],PX)', 'new class extends PX{}', 'new (class extends PX{constructor(){super(7);L(new.target===PX)}})', 'PX.bind(3,4)(5)', 'new (PX.bind(3,4))(5)', '[1].map(PX)', 'new Proxy(PX,{})(1)', 'new (new Proxy(PX,{}))(1)', 'typeof PX', 'Promise.resolve.call(PX,1)', 'Array.of.call(PX,1,2)', 'class X extends PX{static s=super.name}', 'PX?.(1)', 'Object(PX)===PX', 'PX.name', 'PX.prototype===TG.prototype', 'String.prototype.replace.call("ab","a",PX)', '({get p(){return 1},__proto__:PX}).p', 'Symbol.species in PX', 'Reflect.apply(PX,undefined,[PX])===PX', 'JSON.stringify({a:1},PX)', 'new Promise(PX) instanceof Promise', 'super_']) if (c !== 'super_' && !(/bind\(3,4\)\)\(5|prototype===/.test(c) && /get\(/.test(h) && 0)) yield { src: `TG=(${t});PX=new Proxy(TG,{${h.replace('RES', rs)}});T(()=>W(${c}))` };
    // everything through every handler
    for (const t of targets) for (const h of hand) for (const o of ops) { if (/globalThis/.test(t) && /freeze|seal|prevent|__proto__|setProto|keys|Keys|entries|values|Names|Symbols|Descriptors|\.\.\.|assign|stringify|String\(|`|isNaN|\+PX|PX\.p|\[1\]|\[Y\]|with|Object\.create|super|defineProp|delete/.test(o)) continue; if (/for in/.test(o) || o === 'Object.groupBy') continue; if (t === 'Math' && /freeze|seal|prevent|setProto|__proto__=|=1|=2|=5|define|push|pop|keys|Names|Symbols|ownKeys|Descr|\.\.\.|assign|\+\+|concat/.test(o)) continue; if (/^Symbol$/.test(t) && /keys|Keys|entries|values|\.\.\.|define|isFrozen|isSealed/.test(o)) continue; if (/^(Symbol|parseInt)$/.test(t) && /freeze|seal|prevent|setProto|__proto__=|=1|=2|=5|define|push|pop|Names|Symbols|ownKeys|Descr|assign|\+\+/.test(o)) continue; yield { src: `TG=(${t});PX=new Proxy(TG,${h});T(()=>{${/^(with|class)/.test(o) ? o + ';return 1' : `var r=${o};return Object(r)===r&&typeof r.then!=="function"?W(r):typeof r==="object"?1:r`}})` }; }
    // revocation, also from inside the operation
    for (const t of ['{}', '{p:1}', '[1]', 'function(){"use strict";return 1}', 'class{}']) for (const o of ops) { if (/isNaN|groupBy/.test(o)) continue;
      yield { src: `var R=Proxy.revocable(TG=(${t}),{});PX=R.proxy;R.revoke();R.revoke();T(()=>{${/^(with|class)/.test(o) ? o + ';return 1' : `return W(${o})`}})` };
      for (const n of ['get', 'set', 'has', 'deleteProperty', 'ownKeys', 'getOwnPropertyDescriptor', 'defineProperty', 'getPrototypeOf', 'isExtensible', 'apply', 'construct']) if (!/for\(|in PX|PX\./.test(o) || th || /^PX\.p$|PX\.p=1|"p" in/.test(o)) yield { src: `var R=Proxy.revocable(TG=(${t}),{${n}(){R.revoke();return Reflect.${n}.apply(null,arguments)}});PX=R.proxy;T(()=>{${/^(with|class)/.test(o) ? o + ';return 1' : `return W(${o})`}})` };
      yield { src: `var R=Proxy.revocable(TG=(${t}),{});PX=new Proxy(R.proxy,LH());R.revoke();T(()=>{${/^(with|class)/.test(o) ? o + ';return 1' : `return W(${o})`}})` };
    }
    for (const x of ['', '{}', '{},{}', '5,{}', '{},5', 'null,{}', '{},null', 'REV,{}', '{},REV', 'f0,{}', 'undefined,{}', 'Y,{}', '{},f0', '"s",{}', 'px0,px0']) for (const f of ['new Proxy', 'Proxy', 'Proxy.revocable', 'new Proxy.revocable', 'Proxy.revocable.call(5,', 'Reflect.construct(Proxy,[']) yield { src: `T(()=>{var r=${f}${f.endsWith('(') ? x + ')' : f.endsWith('[') ? x + '])' : `(${x})`};return [typeof r,Object.keys(r)]})` };
    yield { src: 'L(DESC(Proxy));L("prototype" in Proxy);var R=Proxy.revocable({},{});L(DESC(R));L(DESC(R.revoke));L(R.revoke.call(5));L(R.revoke());T(()=>new R.revoke)' };
    if (th) for (const t of ['{p:1}', '[1]', 'function(){"use strict";return {}}']) for (const a of ops) for (const b of ops) if (!/groupBy|isNaN/.test(a + b)) yield { src: `TG=(${t});PX=new Proxy(TG,LH());T(()=>{${/^(with|class)/.test(a) ? a : `(${a})`};});T(()=>{${/^(with|class)/.test(b) ? b + ';return 1' : `return W(${b})`}})` };
  }
};
