// JSON: the text grammar, the value built, reviver and replacer protocols, the text produced.
import { P0, product, seqsUpTo, seqs, pack } from '../lib/prelude.mjs';
const J = JSON.stringify;
const PRE = String.raw`
function P(s){try{__log(__S(JSON.parse(s),6))}catch(e){__log(e instanceof SyntaxError?"!S":__E(e))}}
function W(v,r,g){try{var s=JSON.stringify(v,r,g);__log(s===undefined?"undef":s)}catch(e){__log(__E(e))}}
function PX(t,n){return new Proxy(t,{get(o,k){__log(n+".get "+(typeof k==="symbol"?"@"+k.description:k));return Reflect.get(o,k)},has(o,k){__log(n+".has "+String(k));return Reflect.has(o,k)},ownKeys(o){__log(n+".ownKeys");return Reflect.ownKeys(o)},getOwnPropertyDescriptor(o,k){__log(n+".gopd "+String(k));return Reflect.getOwnPropertyDescriptor(o,k)},deleteProperty(o,k){__log(n+".del "+String(k));return Reflect.deleteProperty(o,k)},defineProperty(o,k,d){__log(n+".def "+String(k)+" "+JSON.stringify(Reflect.ownKeys(d))+" "+__S(d.value));return Reflect.defineProperty(o,k,d)},set(o,k,v){__log(n+".set "+String(k));return Reflect.set(o,k,v)}})}
`;
const tok = ['{', '}', '[', ']', ',', ':', '"a"', '1', 'null', ' '];
const numc = ['0', '1', '-', '+', '.', 'e', 'E'];
const frag = ['"', '\\', '"', 'u', '0', '0', 'n', 'D', '8'];
const values = ['undefined', 'null', 'true', 'false', '0', '-0', '1.5', '1e21', '-1e-7', 'NaN', 'Infinity', '""', '"a\\"b\\\\"', 'Symbol("s")', '()=>1', 'function(){}', '1n', 'Object(1n)', 'new Number(3)', 'new String("s")', 'new Boolean(false)', 'Object(Symbol())', '[]', '{}', '[undefined,()=>1,Symbol()]', '{a:undefined,b:()=>1,c:Symbol(),d:1}', '[,1,,]', '{a:{b:{c:[1,{d:[]}]}}}', 'new Date(0)', 'new Date(NaN)', '/x/g', 'new Map([[1,2]])', 'new Set([1])', 'new Error("m")', 'new Uint8Array([1,2])', 'new ArrayBuffer(4)', 'Object.create({inherited:1})', 'Object.create(null,{hid:{value:1},vis:{value:2,enumerable:true}})', '{b:1,a:2,2:3,1:4,[Symbol.iterator]:5}', '{get a(){L("get a");return 7}}', '{get a(){throw 5}}', '[{get a(){throw new RangeError}}]', '{toJSON(){L([this===undefined,[...arguments]]);return 9}}', '{toJSON:5}', '{toJSON:null,a:1}', '{toJSON(){return undefined}}', '{toJSON(){return {toJSON(){return 1},q:2}}}', '{toJSON(){return this},z:1}', '{get toJSON(){L("gt");return undefined}}', '{get toJSON(){throw 1}}', '[{toJSON(k){return k}},{toJSON(k){return typeof k}}]', '{k1:{toJSON(k){return "<"+k+">"}}}', '(()=>{var o={};o.o=o;return o})()', '(()=>{var a=[];a[0]=[a];return a})()', '(()=>{var s={x:1};return [s,s,{s}]})()', 'PX({a:1,b:{c:2}},"p")', 'PX([1,2],"q")', 'new Proxy([],{})', 'new Proxy(function(){},{})', '(()=>{var r=Proxy.revocable({},{});r.revoke();return r.proxy})()', '(()=>{var r=Proxy.revocable([],{});r.revoke();return r.proxy})()', 'arguments', 'Object.assign([1],{x:2})', '{length:2,0:1}', '[[],[[]],{},[{}]]', 'globalThis.JSON', 'new (class extends Array{})(3)', 'Object.assign(new Number(3),{valueOf(){L("vo");return 8},toString(){L("ts");return "t"}})', 'Object.assign(new String("s"),{valueOf(){L("vo");return 8},toString(){L("ts");return "t"}})', 'Object.assign(new Boolean(true),{valueOf(){L("vo");return false}})', 'Object.assign(()=>1,{toJSON(){return "fn"}})', '{__proto__:null,["__proto__"]:1}', '"\\ud800"', '"\\udc00\\ud800"', '"\\ud83d\\ude00"', '"\\u2028\\u0000\\u007f\\x7f\\x1f\\b\\f\\v"', '{"\\ud800":1,"\\n":2,"":3}', 'new Proxy({toJSON(){return 4}},{})', 'Object.assign(Object.create({toJSON(){return "p"}}),{a:1})'];
const replacers = ['undefined', 'null', '5', '"a"', '[]', '["a"]', '["b","a","b"]', '[1,"1",new Number(1),new String("b"),{},null,true,Symbol()]', '{}', 'Object(1)', 'PX(["a"],"r")', 'new Proxy(["d","a"],{})', '(k,v)=>v', '(k,v)=>k===""?v:undefined', 'function(k,v){L([k,typeof k,typeof v,this===globalThis,Object.keys(this).length]);return v}', '(k,v)=>typeof v==="number"&&k!=="n"?{n:1}:typeof v==="object"?v:1', '(k,v)=>k===""?{w:v}:k==="n"?undefined:typeof v==="number"?"N":v', '()=>undefined', '()=>{throw 7}', '(k,v)=>Array.isArray(v)?[1]:k===""||k==="0"?v:[2]', 'function(k,v){if(k==="a")delete this.b;return v}', 'new Proxy((k,v)=>v,{})', '(()=>{var a=["a"];a.length=3;return a})()', '["__proto__","toJSON","a","k1"]', 'class{}'];
const spaces = ['undefined', '0', '1', '2', '10', '11', '-1', '3.9', 'NaN', 'Infinity', '""', '"\\t"', '"ab"', '"01234567890123"', 'new Number(2)', 'new String("--")', 'true', '{}', 'null', '1n', 'Symbol()', '{valueOf(){L("v");return 3}}', 'Object.assign(new Number(1),{valueOf(){L("nv");return 4}})', 'Object.assign(new String("q"),{toString(){L("sv");return "zz"}})', '"\\ud800"'];
const texts = ['1', '[]', '{}', '[1,2,3]', '{"a":1,"b":2}', '{"a":[1,{"b":2}],"c":{"d":3}}', '[[1],[2,[3]]]', '{"2":1,"1":2,"b":3,"a":4}', '{"a":1,"a":2}', '"s"', 'null', '{"__proto__":1,"x":{"__proto__":{}}}', '[{"a":1},{"a":2}]', '{"length":3,"0":1}', '[null,[null]]', '{"":{"":1}}'];
const revivers = ['undefined', 'null', '1', '{}', '(k,v)=>v', '(k,v)=>undefined', '(k,v)=>k==="a"?undefined:v', '(k,v)=>k==="0"?undefined:v', '(k,v)=>typeof v==="number"?v+1:v', '(k,v)=>k===""?v:[k,v]', 'function(k,v){L([k,v,Array.isArray(this),Reflect.ownKeys(this).map(String)]);return v}', 'function(k,v){if(k==="a"&&!Array.isArray(this))delete this.b;return v}', 'function(k,v){if(k==="0")this[1]={x:{y:1}};return v}', 'function(k,v){if(k==="0"&&Array.isArray(this))this.length=1;L([k,v]);return v}', 'function(k,v){if(k==="0"&&Array.isArray(this))this.push(9);L([k,v]);return v}', 'function(k,v){if(k==="a")this.zz=1;L(k);return v}', 'function(k,v){if(k==="a")Object.freeze(this);return k===""?v:5}', 'function(k,v){if(k==="a")Object.defineProperty(this,"b",{configurable:false,value:8});return k==="b"?undefined:v}', 'function(k,v){if(k==="0")Object.defineProperty(this,"1",{configurable:false,writable:false,value:8});return k==="1"?3:v}', 'function(k,v){if(k==="a"&&typeof this==="object")this.b=PX({m:1,n:2},"p");L(k);return v}', 'function(k,v){if(k==="0"&&Array.isArray(this)&&this.length===3){this[1]=PX([7,8],"q")}return v}', 'function(k,v){if(k==="a")this.b=new Proxy({},{ownKeys(){throw 3}});return v}', 'function(k,v){if(k==="a")this.b=new Proxy([1],{deleteProperty(){throw 4},defineProperty(){throw 5}});return k==="0"?undefined:v}', 'function(k,v){if(k==="a")this.b=new Proxy([1],{defineProperty(){return false}});return k==="0"?4:v}', '()=>{throw 6}', '(k,v)=>k==="b"?(()=>{throw 6})():v', 'new Proxy((k,v)=>v,{})', 'function(k,v){if(k==="a"){this.b=1;return this}return k===""?1:v}', 'function(k,v){if(k==="b"){var r=Proxy.revocable([],{});r.revoke();this.c=r.proxy}return v}', 'function(k,v){return Array.isArray(v)?new Map:v}'];
const args = ['undefined', 'null', 'true', '5', '-0', '1n', 'Symbol()', '[]', '[5]', '{}', '{toString(){L("ts");return "[1]"}}', '{toString(){throw 8}}', 'new String("7")', '{valueOf(){return "3"},toString:undefined}'];
export default {
  id: 'C19', title: 'JSON', reset: 300, prelude: P0 + PRE,
  rule: 'one case = a group of JSON texts parsed, or one value under one replacer and indent, or one text under one reviver; all distinct; non-trivial when it produces at least one result',
  * gen(tier) {
    const Q = tier === 'quick';
    const grp = function* (it, cls, k = 40) { let b = []; for (const x of it) { b.push(J(x)); if (b.length === k) { yield { src: `for(const s of [${b}])P(s)`, cls }; b = []; } } if (b.length) yield { src: `for(const s of [${b}])P(s)`, cls }; };
    const dedup = function* (it) { const s = new Set(); for (const x of it) if (!s.has(x)) { s.add(x); yield x; } };
    yield* grp((function* () { for (const t of seqsUpTo(tok, Q ? 4 : 5)) yield t.join(''); })(), 'grammar');
    yield* grp((function* () { for (const t of seqsUpTo(numc, Q ? 4 : 6)) yield t.join(''); })(), 'number');
    yield* grp(dedup((function* () { for (const t of seqsUpTo(frag.slice(2).concat('\\'), Q ? 4 : 6)) yield '"' + t.join('') + '"'; })()), 'string');
    // every single character: raw in a string, escaped in a string, as white space around a value, as a whole text
    yield* grp((function* () { for (let c = 0; c < (Q ? 0x180 : 0x10000); c++) { const s = String.fromCharCode(c); yield '"' + s + '"'; yield '"\\' + s + '"'; yield s + '1'; yield '1' + s; yield '[1' + s + ',1]'; yield s; } for (const c of [0x1680, 0x2000, 0x200a, 0x200b, 0x2028, 0x2029, 0x202f, 0x205f, 0x3000, 0xfeff, 0xd800, 0xdc00]) { const s = String.fromCharCode(c); yield '"' + s + '"'; yield '"\\' + s + '"'; yield s + '1'; yield '1' + s; } })(), 'char');
    for (let c = 0; c < 65536; c += 512) yield { src: `for(var c=${c};c<${c + 512};c++){var h=c.toString(16).padStart(4,"0");var s=String.fromCharCode(c);var q=JSON.stringify(s);__log(q);if(JSON.parse(q)!==s||JSON.parse('"\\\\u'+h+'"')!==s||JSON.parse('"\\\\u'+h.toUpperCase()+'"')!==s)__log("bad "+h)}`, cls: 'codeunit' };
    for (const [a, b] of product(['61', 'd7ff', 'd800', 'dbff', 'dc00', 'dfff', 'e000', 'ffff', '0', '22', '5c'], ['61', 'd7ff', 'd800', 'dbff', 'dc00', 'dfff', 'e000', 'ffff', '0', '22', '5c'])) for (const c of ['', '61', 'dc00', 'd800']) yield { src: `var s=[${[a, b, c].filter(x => x).map(x => '0x' + x)}].map(c=>String.fromCharCode(c)).join("");W(s);W({[s]:s});__log(JSON.parse(JSON.stringify(s))===s)`, cls: 'surrogate' };
    yield* grp(['tru', 'truee', 'nul', 'nulll', 'fals', 'True', 'NULL', 'undefined', 'NaN', '-Infinity', 'Infinity', "'a'", '{a:1}', '{"a":1,}', '[1,]', '[,1]', '[1,,2]', '{,}', '{"a"}', '{"a":}', '{:1}', '//x\n1', '1//x', '/**/1', '1 2', '"a" "b"', '[1}', '{"a":1]', '01', '-01', '1.', '.1', '1e', '1e+', '0x1', '1_0', '1n', '+1', '- 1', '--1', '1e400', '-1e400', '1e-400', '-1e-400', '5e-324', '2e-324', '1.7976931348623157e308', '1.7976931348623159e308', '123456789012345678901234567890', '0.1000000000000000055511151231257827', '9007199254740993', '-0', '-0.0', '-0e5', '0e0', '0E+0', '0.0e-0', '"\\u12"', '"\\u123g"', '"\\U0041"', '"\\x41"', '"\\0"', '"\\v"', '"\\\'"', '"\\\n"', '"\t"', '"\\/"', '"a\\', '"', '"\\"', '', ' ', '\ufeff1', '1\u00a0', '\v1', '\f1', '\u20281', '1\u2029', '{"a":1}}', ']', '}', '[', '{', '[[', '[[]', '{"a"', '{"a":', '{"a":1', '{"a":1,', '[1', '[1,', '"\\ud83d\\ude00"', '"\\ud83d"', '"\ud83d"', '{"\\u0061":1,"a":2}', '{"__proto__":5}', '{"__proto__":{"x":1}}', '{"constructor":1,"toString":2}', 'true false', '[true,false,null]', '\r\n\t [ \n1\t, 2 ]\r', '(1)', '1;', '\\u0031', '"\\u{61}"', '{"a" :1 , "b": 2}', '{1:2}', '{null:1}', '{"0":1,"-0":2,"00":3,"1":4}', '[' + '['.repeat(100) + ']'.repeat(100) + ']', '{"a":'.repeat(80) + '1' + '}'.repeat(80)], 'shape', 8);
    // positions of syntax errors after a partial value never leave side effects
    for (const t of texts) yield* grp((function* () { for (let i = 0; i < t.length; i++) { yield t.slice(0, i); yield t.slice(0, i) + t.slice(i + 1); for (const x of [',', '"', ']', '}', ' ', '0', '\\']) yield t.slice(0, i) + x + t.slice(i); } })(), 'mutate', 20);
    for (const t of texts) for (const r of revivers) yield { src: `T(()=>JSON.parse(${J(t)},${r}))`, cls: 'reviver' };
    for (const a of args) yield { src: `T(()=>JSON.parse(${a}));T(()=>JSON.parse(${a},(k,v)=>[k,v]));T(()=>JSON.parse.call(null,${a}));T(()=>new JSON.parse(${a}))`, cls: 'arg' };
    // stringify: value x replacer x indent
    const fn = (v, r, s) => `(function(){W(${v === 'arguments' ? 'arguments' : '(' + v + ')'},${r},${s})})(1,2)`;
    for (const v of values) { for (const r of replacers) yield { src: fn(v, r, 'undefined'), cls: 'replacer' }; for (const s of spaces) yield { src: fn(v, 'undefined', s), cls: 'indent' }; }
    if (!Q) for (const [v, r, s] of product(values, replacers, spaces)) yield { src: fn(v, r, s), cls: 'combined' };
    else for (const [v, r, s] of product(values.filter((_, i) => i % 4 === 0), replacers.filter((_, i) => i % 3 === 1), ['1', '"ab"'])) yield { src: fn(v, r, s), cls: 'combined' };
    // prototype toJSON on primitives
    for (const [c, v] of [['Number', '1'], ['String', '"s"'], ['Boolean', 'true'], ['BigInt', '5n'], ['Symbol', 'Symbol()'], ['Array', '[1]'], ['Function', '()=>1'], ['Date', 'new Date(5)']]) for (const f of ['function(k){"use strict";L([k,typeof this]);return "J"}', 'function(k){L([k,typeof this]);return this}', 'function(){return undefined}', '5']) yield { src: `var d=Object.getOwnPropertyDescriptor(${c}.prototype,"toJSON");${c}.prototype.toJSON=${f};try{W(${v});W([${v}]);W({q:${v}})}finally{if(d)Object.defineProperty(${c}.prototype,"toJSON",d);else delete ${c}.prototype.toJSON}`, cls: 'proto' };
    for (const v of ['{valueOf(){return 5}}', 'new Date(0)', '{toISOString(){return "I"}}', '{toISOString(){return 7},valueOf(){return NaN}}', '{toISOString(){return 7},valueOf(){return 1}}', '{[Symbol.toPrimitive](h){L(h);return 1},toISOString(){return "P"}}', 'null', '1', '{toISOString:3}']) yield { src: `T(()=>Date.prototype.toJSON.call(${v}));T(()=>Date.prototype.toJSON.call(${v},"k"))`, cls: 'datejson' };
    // mutation of the value while it is being written
    for (const m of ['delete this.b', 'this.c=3', 'this.b={n:1}', 'Object.defineProperty(this,"b",{enumerable:false})', 'this.a=9', 'Object.setPrototypeOf(this,{toJSON(){return 1}})']) for (const w of ['get', 'json', 'rep']) yield { src: w === 'get' ? `var o={get a(){${m.replace('this.a=9', 'delete this.a')};return 1},b:2};W(o);L(Object.keys(o))` : w === 'json' ? `var h={a:{toJSON(){(function(){${m}}).call(h);return 1}},b:2};W(h);L(Object.keys(h))` : `W({a:1,b:2},function(k,v){if(k==="a"){${m}}return v})`, cls: 'mutation' };
    for (const m of ['this.length=1', 'this.push(4)', 'this[1]={x:1}', 'delete this[1]', 'this.length=0']) yield { src: `W([1,2,3],function(k,v){if(k==="0"){${m}}return v})`, cls: 'mutation' };
    // round trip over all small structures
    const leaf = ['1', 'null', '"a"', 'true'], tree = d => d === 0 ? leaf : [...leaf.slice(0, 2), '[]', '{}', ...tree(d - 1).flatMap(x => [`[${x}]`, `{"k":${x}}`]), ...tree(d - 1).slice(0, 8).flatMap(x => tree(d - 1).slice(0, 8).flatMap(y => [`[${x},${y}]`, `{"p":${x},"q":${y}}`]))];
    yield* pack((function* () { for (const t of tree(Q ? 2 : 3)) yield `var s=${J(t)};__log(JSON.stringify(JSON.parse(s))===s);W(JSON.parse(s),null,1)`; })(), 4, a => a.join('\n'), 'roundtrip');
    yield { src: `L(["parse","stringify",Symbol.toStringTag].map(k=>{var d=Object.getOwnPropertyDescriptor(JSON,k);return [d.writable,d.enumerable,d.configurable]}));L(DESC(JSON.parse));L(DESC(JSON.stringify));L([JSON.parse.length,JSON.stringify.length,__C(JSON.parse),__C(JSON.stringify),String(JSON)])`, cls: 'surface' };
  },
};
