// Functions and classes: calls, this, super, new.target, arguments objects, class elements, private members.
import { P0, product, seqs, seqsUpTo, permutations } from '../lib/prelude.mjs';
// class elements; K(x) logs and returns a key, V(x) logs and returns a value
const els = ['constructor(){L("ctor")}', 'm(){return 1}', '[K("m")](){return 2}', 'get a(){return L("ga")}', 'set a(v){L("sa")}', 'get [K("a")](){return 3}', 'static s(){return 4}', 'static [K("s")]=V(5)', 'f=V(6)', '[K("f")]=V(7)', 'static f=V(8)', '#p=V(9);gp(){return this.#p}', 'static #q=V(10);static gq(){return this.#q}', '#m(){return 11}get gm(){return this.#m}', 'static #sm(){return 12}static gsm=this.#sm()', 'static{L("blk");L(this===X0||typeof this)}', 'static{this.z=V(13)}', 'get #ac(){return 14}set #ac(v){L(v)}tac(){return this.#ac=this.#ac+1}', '*g(){yield 15}', 'async as(){}', 'static async*ag(){}', '"str"(){return 16}', '1(){return 17}', 'static 2=V(18)', 'f2=()=>this', 'static f2=()=>this', 'f3=super.toString', 'static name=V(19)', 'static name(){return 20}', 'static get name(){return 21}', 'static length=22', 'g1=V(this)', 'fn=function(){}', 'static cl=class{}', '["fn2"]=()=>{}', 'u', 'static su', '[K("u")]', 'static', 'static get', 'get', 'set=1', 'async', 'static async=2', 'accessor=3', "'constructor'(){L('sctor')}", "['constructor'](){return 23}", 'static prototype2(){}', '[K("prototype")](){}', '__proto__=5', 'static __proto__=null', 'get __proto__(){return 6}', ';'];
const herit = ['', 'extends B', 'extends null', 'extends V(Bx)', 'extends (L("h"),B)', 'extends undefined', 'extends 5', 'extends (()=>{})', 'extends (function*(){})', 'extends Array', 'extends B.bind()', 'extends PF', 'extends FP'];
// receivers for private operations
const pops = ['o.#x', 'o.#x=1', 'o.#x+=1', 'o.#x++', '--o.#x', 'o.#x()', 'o.#x`t`', '#x in o', 'o?.#x', 'o?.#x()', 'o?.a?.#x', 'o.#x??=2', 'o.#x&&=3', 'o.#x||=4', '[o.#x]=[5]', '({a:o.#x}={a:6})', 'for(o.#x of [7]);', 'for(o.#x in {k:1});', 'typeof o.#x', 'new o.#x', 'o.#x.y', 'o["#x"]', 'o.#x**=2', '({...o}).#x', '[...[o.#x]]', '!(#x in o)', '#x in o in {}', '(o.#x)', '(o.#x)()', 'o.#x?.()', 'o.#x?.z', 'void o.#x', '`${o.#x}`', '(()=>o.#x)()', 'eval("o.#x")', 'eval("#x in o")', '(0,eval)("o.#x")', 'Function("o","return o.#x")(o)', 'class Z{static #x=50;static r(o){return o.#x}};Z.r(o)', 'class Z{#y;static r(o){return o.#x}};Z.r(o)', 'o.#x,o.#x'];
const pkinds = ['#x=V(1)', '#x=function(){return L(this===ME)}', '#x(){return L(this===ME)}', 'get #x(){return L("g")}', 'set #x(v){L(v)}', 'get #x(){return L(this===ME)}set #x(v){L(v)}', 'static #x=V(2)', 'static #x(){return L(this===C)}', 'static get #x(){return L("sg")}', 'static set #x(v){L(v)}', 'static get #x(){return L("sg")}static set #x(v){L(v)}', '#x', 'static #x', 'static async #x(){return 1}', '*#x(){yield 1}'];
const recv = ['ME=new C', 'C', 'new D', 'D', '{}', '5', 'null', 'undefined', '"s"', 'new Proxy(new C,{})', 'Object.create(new C)', 'Object.freeze(new C)', 'new (class extends C{#x=60;})', 'RO', 'C.prototype', 'class{static #x=1}', 'new (class{#x=2})', 'Symbol()', '1n', 'new Proxy({},{get(){L("trap")}})'];
// derived constructor bodies
const dst = ['super()', 'super(1)', 'L(this)', 'this.a=1', 'super.m()', 'super.p=5', 'return', 'return {r:1}', 'return 1', 'return this', 'return undefined', 'return null', 'L(new.target===D)', '(()=>super())()', 'try{super()}catch(e){L(e)}', 'try{L(this)}catch(e){L(e)}', 'eval("super()")', 'eval("this")', 'L((()=>this)())', 'if(q)super()', 'try{return}finally{super()}', 'try{return 1}finally{super()}', 'try{throw 1}catch{super()}', 'super(super())', 'super(...[1,2])', 'L(super.m)', 'super[K("m")]()', 'delete super.m', 'fs=()=>super()', 'ft=()=>this', 'Object.setPrototypeOf(D,null)', 'Object.setPrototypeOf(D,class{constructor(){L("alt")}})', '[...function*(){yield 1}()]', '({m(){return super.toString}}).m()', 'super()+L(this)', 'this.#p', 'var x=super()'];
// super property forms
const sup = ['super.p', 'super[K("p")]', 'super.p=V(1)', 'super[K("p")]=V(2)', 'super.p+=1', 'super.p++', 'super.m()', 'super[K("m")](1)', 'super.m`t`', 'super?.p', 'super.m?.()', 'super.un?.()', 'super.un()', 'delete super.p', 'super.g', 'super.g=V(3)', 'super.s=V(4)', 'super.ro=5', 'super.nw=6', '[super.p]=[7]', '({a:super.p}={a:8})', 'for(super.p of [9]);', 'typeof super.p', 'new super.C', 'super.p??=1', 'super.un??=V(10)', 'super.un&&=V(11)', '(()=>super.m())()', 'eval("super.m()")', 'eval("super.p=12")', '(0,eval)("super.p")', '({m(){return super.toString===Object.prototype.toString}}).m()', 'super["un"+1]', 'super[TK()]', 'super[K("p")]=TH()', 'super[K("p")]+=TH()', 'super[(Object.setPrototypeOf(HO,null),"p")]', '(Object.setPrototypeOf(HO,null),super.p)', 'super.p.q', 'super.m().x', 'super[0]', 'super.th', 'super.th=1', '(super.m)()', '(super.m,0)', 'super[Symbol.iterator]', 'super.constructor.name', 'super.p=super.p+1'];
const supctx = ['o={__proto__:PR,m(){return E}};HO=o;o.m()', 'o={__proto__:PR,get m(){return E}};HO=o;o.m', 'o={__proto__:PR,set m(v){E}};HO=o;o.m=1', 'o={__proto__:PR,*m(){return E}};HO=o;o.m().next().value', 'o={__proto__:PR,[K("m")](a=E){return a}};HO=o;o.m()', 'o={__proto__:PR,m(){return E}};HO=o;o.m.call(R2())', 'o={__proto__:PR,m(){return E}};HO=o;(0,o.m)()', 'o={__proto__:PR,m(){return E}};HO=o;o.m.call(5)', 'o={__proto__:PR,m(){"use strict";return E}};HO=o;o.m.call(5)', 'o={m(){return E},__proto__:PR};HO=o;o.m()', 'o={m(){return E}};HO=o;o.m()', 'o={__proto__:null,m(){return E}};HO=o;o.m()', 'class A extends PC{m2(){return E}}HO=A.prototype;o=new A;o.m2()', 'class A extends PC{static m2(){return E}}HO=A;o=A;A.m2()', 'class A extends PC{f=E}HO=A.prototype;o=new A;o.f', 'class A extends PC{static f=E}HO=A;o=A;A.f', 'class A extends PC{static{this.r=(E)}}HO=A;o=A;A.r', 'class A extends PC{constructor(){super();this.r=E}}HO=A.prototype;o=new A;o.r', 'class A{m2(){return E}}HO=A.prototype;o=new A;o.m2()', 'class A{static m2(){return E}}HO=A;o=A;o.m2()', 'class A extends null{static m2(){return E}}HO=A;o=A;o.m2()', 'o=Object.freeze({__proto__:PR,m(){return E}});HO=o;o.m()', 'o=new Proxy({__proto__:PR,m(){return E}},{get(t,k,r){L(k);return Reflect.get(t,k,r)},set(t,k,v,r){L("set "+String(k));return Reflect.set(t,k,v,r)},defineProperty(t,k,d){L("def "+String(k));return Reflect.defineProperty(t,k,d)},getOwnPropertyDescriptor(t,k){L("gopd "+String(k));return Reflect.getOwnPropertyDescriptor(t,k)}});HO={};o.m()', 'o={__proto__:PR,m(){return (()=>()=>E)()()}};HO=o;o.m()'];
// functions and call forms
const fkinds = ['function(){BODY}', '()=>{BODY}', 'function(){"use strict";BODY}', '()=>{"use strict";BODY}', 'class{static x(){BODY}}.x', '({x(){BODY}}).x', 'function*(){BODY}', 'async function(){BODY}', 'async()=>{BODY}', 'async function*(){BODY}', 'class{constructor(){BODY}}', 'class extends B{constructor(){super();BODY}}', 'function(){eval("BODY")}', '()=>eval("BODY")', 'function(){(()=>{BODY})()}', 'Function("BODY")', 'function(){BODY}.bind(7)', 'function(){BODY}.bind()', 'function(){BODY}.bind(null,1,2)', '(()=>{BODY}).bind(8)', 'class{constructor(){BODY}}.bind(9)', 'new Proxy(function(){BODY},{})', 'new Proxy(class{constructor(){BODY}},{})', 'Object.getOwnPropertyDescriptor({get x(){BODY}},"x").get', 'Object.getOwnPropertyDescriptor({set x(v){BODY}},"x").set', 'Object.getOwnPropertyDescriptor(class{static get x(){BODY}},"x").get'];
const fbody = ['L(this===globalThis?"G":typeof this);L(this)', 'L(new.target===undefined)', 'L(arguments.length)', 'return this', 'return {z:1}', 'return 5', 'L(arguments[0]);L(arguments[1])'];
const calls = ['F()', 'F(1)', '(0,F)(1)', 'F.call(3,4)', 'F.call()', 'F.call(null,1,2)', 'F.apply(5,[6])', 'F.apply("s")', 'F.apply(undefined,{length:2,0:7})', 'new F', 'new F(8)', 'Reflect.construct(F,[9])', 'Reflect.construct(F,[10],Array)', 'Reflect.construct(F,[],Object.assign(function(){},{prototype:{pp:1}}))', 'Reflect.construct(F,[],Object.assign(function(){},{prototype:null}))', 'Reflect.construct(F,[],()=>{})', 'Reflect.apply(F,{t:1},[11])', 'o={F};o.F(12)', 'o={F};o["F"]?.(13)', 'o={F};(o.F)(14)', 'o={F};(o.F,o.F)()', 'o={F};with(o)F(15)', 'F`x`', 'o={F};o.F`y`', '[16].map(F)', 'F(...[17,18])', 'new F(...[19,20])', 'F?.(21)', '[F][0](22)', 'new new Proxy(F,{})(23)', 'Function.prototype.call.call(F,24,25)', 'Reflect.apply(Function.prototype.call,F,[26])', 'F.bind(27,28)(29)', 'new (F.bind(30,31))(32)', 'F.bind(1).bind(2)()', 'typeof F', 'F.name', 'F.length', 'DESC(F)', 'F.prototype===undefined||DESC(F.prototype)', 'Object.getPrototypeOf(F)===Function.prototype', '({}) instanceof F', 'delete F.name&&DESC(F)', 'F.bind(1,2).length', 'F.bind().name', 'class Q extends F{};new Q', 'super_=1'];
// arguments objects
const aops = ['arguments[0]=K1', 'a=K1', 'delete arguments[0]', 'Object.defineProperty(arguments,"0",{value:K1})', 'Object.defineProperty(arguments,"0",{value:K1,writable:false})', 'Object.defineProperty(arguments,"0",{writable:false})', 'Object.defineProperty(arguments,"0",{configurable:false})', 'Object.defineProperty(arguments,"0",{get(){return K1}})', 'Object.defineProperty(arguments,"0",{set(v){L("set"+v)}})', 'Object.freeze(arguments)', 'Object.seal(arguments)', 'Object.preventExtensions(arguments)', 'arguments.length=K1', 'delete arguments.length', 'arguments[1]=K1', 'b=K1', 'arguments[2]=K1', 'eval("a=K1")', 'eval("arguments[0]=K1")', '(()=>{a=K1})()', '(()=>{arguments[0]=K1})()', 'var a=K1', '[a,b]=[b,a]', '[arguments[0],arguments[1]]=[b,a]', 'arguments[0]++', 'a++', 'Object.setPrototypeOf(arguments,null)', 'Reflect.set(arguments,"0",K1,{})', 'Reflect.set(arguments,"0",K1,arguments)', 'Reflect.set({},"0",K1,arguments)', 'arguments=K1', 'Array.prototype.push.call(arguments,K1)', 'Array.prototype.reverse.call(arguments)', 'Array.prototype.splice.call(arguments,0,1)', 'for(a of [K1]);', 'for(arguments[0] of [K1]);', 'L(Reflect.deleteProperty(arguments,"0"))'];
const asig = ['a,b', 'a,a', 'a,b=1', '...a', '{a},b', 'a', '', 'a,b,c', '[a],b', 'a,...b'];
// names and source text
const nameforms = ['F', '(F)', '((F))'];
const anon = ['function(){}', '()=>{}', 'class{}', 'function*(){}', 'async function(){}', 'async()=>{}', 'async function*(){}', 'class{static name=1}', 'class{static name(){}}', 'class{static{L(this.name)}}', 'class{static f=L(this.name)}', 'class extends B{}', 'function nm(){}', 'class nm{}', '(0,function(){})', 'q?function(){}:0', 'function(){}||0', 'x=>x', 'class{static get name(){return 5}}', 'class{static [K("name")]=6}'];
const nameslots = ['var v=F;N(v)', 'let v=F;N(v)', 'var v;v=F;N(v)', 'var v;(v)=F;N(v)', 'var v;v??=F;N(v)', 'var v;v||=F;N(v)', 'var v=1;v&&=F;N(v)', 'var v="";v+=F;0', 'N({p:F}.p)', 'N({[K("p")]:F}.p)', 'N({[Y]:F}[Y])', 'N({[Y0]:F}[Y0])', 'N({"s t":F}["s t"])', 'N({1:F}[1])', 'N({1.50:F}[1.5])', 'N({__proto__:F}.__proto__)', 'N({["__proto__"]:F}["__proto__"])', 'var {v=F}={};N(v)', 'var {p:v=F}={};N(v)', 'var [v=F]=[];N(v)', 'var v;({v=F}={});N(v)', 'var v;({p:v=F}={});N(v)', 'var v;[v=F]=[];N(v)', 'var o={};o.p=F;N(o.p)', 'var o={};[o.p=F]=[];N(o.p)', '((v=F)=>N(v))()', '(({v=F})=>N(v))({})', '(function(v=F){N(v)})()', 'class Z{f=F};N(new Z().f)', 'class Z{static f=F};N(Z.f)', 'class Z{#f=F;static g=new Z().#f};N(Z.g)', 'class Z{[K("f")]=F};N(new Z().f)', 'class Z{static [Y]=F};N(Z[Y])', 'N((F))', 'N([F][0])', 'for(var v=F;N(v),0;);', 'for(var [v=F] of [[]])N(v)', 'try{throw []}catch([v=F]){N(v)}', 'N(F)', '(v=>N(v))(F)', 'globalThis.gv=F;N(gv)', 'gw=F;N(gw)', 'N(eval("(F)"))', 'N((function(){return F})())', 'o={get:F};N(o.get)', 'o={async:F,static:F};N(o.async)', 'const o=class{static m=F};N(o.m)'];
const srcforms = ['function f(a,b){return a}', 'function /*1*/ f /*2*/ ( /*3*/ a /*4*/ ) /*5*/ { /*6*/ }', '( a , b ) => /*x*/ a', 'async  x  => x', 'x=>{ x }', '({ m ( a ) { } }).m', '({ get  m (){} },0)', 'Object.getOwnPropertyDescriptor({get  m ( ) { return 1 } },"m").get', 'Object.getOwnPropertyDescriptor({ set [ "m" ] (v){ } },"m").set', '({ async  * m (){ } }).m', '({ * [ "m" ] () { } }).m', '({ async m ( ) {}}).m', 'class  A { constructor ( ) { } }', 'class A extends  B { constructor(){super()} /**/ }', '(class { static  m ( ) { } }).m', '(class { static async * [ K("m") ] ( ) { } }).m', '(class { #p ( ) {} static g(){return new this().#p} }).g()', 'function * g ( ) { }', 'async  function  * g ( ) { }', 'Function("a","b","return a")', 'new Function("a,b","c","//x")', 'Function("/*","*/){")', 'Function()', 'Object.getPrototypeOf(function*(){}).constructor("a","yield a")', 'Object.getPrototypeOf(async function(){}).constructor("a","await a")', '({f:function ( ) { }}).f', '(function(){}).bind()+""=="function () { [native code] }"||/native code/.test((function(){}).bind())', '/\\[native code\\]/.test(Math.max)', '/\\[native code\\]/.test(new Proxy(function(){},{}))', '/\\[native code\\]/.test(class{}.bind())', '(function f(\n a\r\n,b){\u2028})', '(()=>({}))', 'async ( ) => { }', '({ "a b" ( ) { } })["a b"]', '({ 1 ( ) { } })[1]', '(class { get  x ( ) { return 1 } static z=Object.getOwnPropertyDescriptor(this.prototype,"x").get}).z', 'function f(){"use strict"}', '(class{f=()=>  1;static h=new this().f}).h', 'eval("(function /*e*/ (){})")', '(function(a=function  (){}){return a})()'];
const lits = ['1', '0', 'null', '""', 'true', 'false', 'undefined', '"s"', '1n', '0n', 'NaN', '-1', '!0', 'void 0', '[]', '`t`', '``', '(1)', '(0)', 'this'];
const refs = ['o.m', 'o["m"]', 'x', 'undecl', 'eval', 'f'];
const foldctx = ['(E)()', '(E)`t`', 'typeof(E)', 'delete(E)', 'new(E)', '(E)?.()', 'v=(E);v===o.m', 'v=E;v&&v.name', '(E).name', 'void(E)', 'with(o)(E)()', 'if(E)L("t");else L("e")', 'while(E){L("w");break}', 'do{}while(0&&(E))', 'for(;E;){L("f");break}', 'switch(E){case 1:L(1);break;case o.m:L("m");break;default:L("d")}', 'return E', 'throw E', '!(E)', '-(E)', '(E)+1', '[...[E]]', '(E)?L(1):L(2)', '(E)&&L(3)', '(E)||L(4)', '(E)??L(5)'];
// V8 leaves a mapped argument behind when a sealed element is made read-only
const v8a = (a, b) => /seal|configurable:false/.test(a) && /writable:false/.test(b);
// V8 gives a computed name precedence over the class's own static name
const v8n = (n, f) => /\[K\(|\[Y0?\]|\["__proto/.test(n) && /static (get )?name|static \[K\("name/.test(f) || /__proto__:F/.test(n) && /q\?/.test(f);
export default {
  id: 'C09', level: 'exploration', reset: 200, async: true, variants: ['plain'],
  rule: 'one case = one function kind and call form, class body, super form, private operation, arguments history or name slot; all distinct; non-trivial: all that the reference accepts as valid programs',
  trivial: (c, w) => w.startsWith('!SyntaxError'),
  prelude: P0 + String.raw`
function K(x){__log("k"+String(x));return x} function V(x){__log("v"+__S(x,1));return x}
var X0,o,v,q=0,Y=Symbol("Y"),Y0=Symbol(),ME,C,D,HO,fs,ft,RO,PF=function(){L("PF")},FP=Object.assign(()=>{},{});PF.prototype=null;
class B{constructor(...a){L("B"+a.length)}m(){return "Bm"}get a(){return "Ba"}set p(v){L("Bp");Object.defineProperty(this,"bp",{value:v,configurable:true,enumerable:true,writable:true})}static s(){return "Bs"}}
class B2{constructor(){L("B2");return {b2:1}}} class Bx extends B{static get prototype2(){return 1}} 
function N(f){L(typeof f==="function"?__S(f.name)+"/"+Object.getOwnPropertyNames(f).filter(k=>k!=='arguments'&&k!=='caller').join():f)}
function DA(o){if(o===null||typeof o!=="object")return o;return ["0","1","2","3","length","callee",Symbol.iterator].map(k=>{var d=Object.getOwnPropertyDescriptor(o,k);return d?(d.writable?'w':'')+(d.enumerable?'e':'')+(d.configurable?'c':'')+('value' in d?'='+__S(d.value,2):(d.get?'G':'')+(d.set?'S':'')):'-'}).join(" ")+Object.isExtensible(o)+Object.isFrozen(o)+(Object.getPrototypeOf(o)===null)}
function TK(){return{toString(){throw "tk"}}} function TH(){throw "th"}
function R2(){return{p:"r2p",un:0}}
function mkPR(){return {p:"pp",m(...a){L("m"+a.length);L(this===o);return "pm"},get g(){L(this===o);return "pg"},set g(v){L("sg"+v);L(this===o)},set s(v){L("ss"+v)},get th(){throw "gth"},set th(v){throw "sth"},C:function(){L(new.target!==undefined)},0:"zero"}}
var PR=mkPR();Object.defineProperty(PR,"ro",{value:1,writable:false});
class PC{static m(...a){L("sm");L(this===o);return "sm"}m(...a){L("m"+a.length);L(this===o);return "pm"}get g(){return "g"}set g(v){L("sg"+v)}};PC.p="sp";PC.prototype.p="pp";PC.C=class{};PC.prototype.C=class{};Object.defineProperty(PC,"ro",{value:1});Object.defineProperty(PC.prototype,"ro",{value:1});
`,
  bounds: {
    quick: `classes with every pair of ${els.length} elements and each element under ${herit.length} heritages; private operations x kinds x receivers; derived constructors with all pairs of ${dst.length} statements; super forms x contexts; function kinds x bodies x ${calls.length} call forms; arguments histories of depth 2; name slots; literal folding`,
    thorough: 'class element triples over a reduced set, constructor statement triples, arguments histories of depth 3'
  },
  *gen(tier) {
    const th = tier === 'thorough';
    const cls = (e, h = '') => ({ src: `X0=undefined;T(()=>{var X=class N1 ${h}{${e}};L(DESC(X));L(DESC(X.prototype));var i=new X;L(DESC(i));var t=["m","a","gm","f2","f3","tac","gp","u","g1"];for(var k of t)T(()=>typeof i[k]==="function"?(r=>r===i?"I":r)(i[k]()):i[k]);for(var k of ["s","gq","gsm","f2"])T(()=>typeof X[k]==="function"?(r=>r===X?"C":r)(X[k]()):X[k]);return Object.getPrototypeOf(X)===Function.prototype})` });
    for (const a of els) for (const h of herit) if (!(/K\(/.test(a) && /undef|5|=>|\*|FP|bind/.test(h))) yield cls(a, h);
    for (const a of els) for (const b of els) yield cls(a + ';' + b);
    for (const a of els) for (const b of els) yield cls(a + ';' + b, 'extends B');
    if (th) { for (const a of els) for (const b of els) for (const c of els) if (!(/et \[K\("a/.test(a) && /et a\(/.test(c))) yield cls([a, b, c].join(';')); }
    else { const sub = els.filter((_, i) => [1, 2, 3, 4, 6, 7, 8, 9, 10, 11, 13, 15, 17, 36, 46].includes(i)); for (const a of sub) for (const b of sub) for (const c of sub) yield cls([a, b, c].join(';'), 'extends B'); }
    // private members
    // (an update of a getter-only member: V8 throws before it calls the getter)
    for (const k of pkinds) for (const p of pops) for (const r of recv) { if (/get #x/.test(k) && !/set #x/.test(k) && /\+=|\+\+|--|\*\*=/.test(p)) continue; const stmt = /^for|^class/.test(p); yield { src: `T(()=>{RO=class extends class{constructor(o){return o}}{#z=1};C=class C{${k};static t(o){${stmt ? p : 'return ' + p}}};D=class extends C{};var o;if(${JSON.stringify(r)}==="RO")o=new RO({});else o=${r === 'RO' ? '0' : r};return C.t(o)})` }; }
    // one object with the private members of several classes; double initialisation; order
    for (const k of pkinds.filter(k => !/static/.test(k))) for (const k2 of pkinds.filter(k => !/static/.test(k))) {
      yield { src: `T(()=>{class R{constructor(o){return o}}class A extends R{${k};static t(o){return [#x in o,typeof o.#x]}}class Z extends R{${k2};static t(o){return [#x in o,typeof o.#x]}}var o={};L([A.t,Z.t].map(f=>{try{return f(o)}catch(e){return e}}));new A(o);T(()=>A.t(o));T(()=>Z.t(o));new Z(o);T(()=>A.t(o));T(()=>Z.t(o));L(Reflect.ownKeys(o));T(()=>new A(o));Object.freeze(o);T(()=>new Z(Object.freeze({})));return 1})` };
      yield { src: `T(()=>{class A{${k};i=class{${k2};static t(o){return #x in o}};static t(o){return [#x in o,o.i.t(o),o.i.t(new o.i)]}};return A.t(new A)})` };
    }
    // derived constructors
    const der = (l, h = 'B') => ({ src: `q=0;fs=ft=undefined;T(()=>{class D0 extends ${h}{#p=V("pf");f=V("ff");constructor(){${l.join(';')}}};D=D0;var i=new D0;L(i instanceof D0);T(()=>ft&&ft());T(()=>fs&&fs());return i})` });
    for (const a of dst) for (const h of ['B', 'B2', 'null', 'Array', 'Object', '(class extends B{})', 'PF', 'Function', 'Error', 'Map', 'Promise', 'Proxy', 'Symbol']) yield der([a, 'L(1)'], h);
    for (const a of dst) for (const b of dst) { yield der([a, b]); if (th) for (const c of dst) yield der([a, b, c]); else for (const c of ['super()', 'L(this)', 'return {z:2}']) yield der([a, b, c]); }
    for (const a of dst) for (const b of ['B', 'B2']) { yield { src: `q=1;fs=ft=undefined;T(()=>{class D0 extends ${b}{#p=V("pf");constructor(){${a};(()=>{${/^return|^var/.test(a) ? '0' : a};super(2)})();L(this)}};D=D0;return new D0})` }; }
    // super
    for (const c of supctx) for (const e of sup) { if (/^for/.test(e)) { if (!/m2?\(\)\{return E\}/.test(c)) continue; yield { src: `T(()=>{var HO,o;PR=mkPR();Object.defineProperty(PR,"ro",{value:1});${c.replace('return E', () => e)};return o})` }; continue; } yield { src: `PR=mkPR();Object.defineProperty(PR,"ro",{value:1});T(()=>eval(${JSON.stringify('"use strict";' + c.replace(/\bE\b/, () => e))}));T(()=>{${/use strict/.test(c) ? '' : ''}return o})`.replace('"use strict";', '').replace('\\"use strict\\";', /class/.test(c) ? '' : '') }; }
    // calls
    for (const f of fkinds) for (const b of fbody) for (const c of calls) yield { src: `T(()=>{var o,F=${f.replace('BODY', () => /eval\(|Function\(/.test(f) ? b.replace(/"/g, '\\"') : b)};${c.startsWith('o=') || /^class/.test(c) ? c.replace(/;(?=[^;]*$)/, ';return ') : 'return ' + c}})`.replace('return with', 'with') };
    // arguments
    const args = (sig, ops, st, call) => { let k = 50; return { src: `T(()=>(function(${sig}){${st ? '"use strict";' : ''}${ops.map(o => o.replace('K1', () => k++)).join(';')};return [typeof a==="undefined"?"-":a,typeof b==="undefined"?"-":b,DA(arguments)]})(${call}))` }; };
    for (const sig of asig) for (const st of [0, 1]) for (const call of ['', '1', '1,2', '1,2,3', '[1],[2]']) { yield args(sig, [], st, call); for (const a of aops) { yield args(sig, [a], st, call); } }
    for (const sig of th ? asig : ['a,b', 'a,a', 'a,b=1']) for (const st of [0, 1]) for (const a of aops) for (const b of aops) if (!v8a(a, b)) for (const call of ['1,2', '1']) yield args(sig, [a, b], st, call);
    if (th) for (const a of aops) for (const b of aops) for (const c of aops) if (!v8a(a, b) && !v8a(a, c) && !v8a(b, c)) yield args('a,b', [a, b, c], 0, '1,2');
    // chains of new, member access, calls and templates
    for (const n of ['', 'new ', 'new new ', 'new new new ', 'new (new ']) for (const h of ['W', '(W)', 'W0()', 'new.target', 'this.W', 'super.W']) for (const t of seqsUpTo(['(1)', '.V', '["V"]', '`t`', '?.V', '()', '?.(2)'], th ? 5 : 4, 0)) { const e = n + h + t.join('') + (n === 'new (new ' ? ')' : ''); yield { src: `T(()=>{var lg=[],mk=d=>{var f=function(a){lg.push(d,new.target?'n':'c',typeof a==='object'?'t':a);if(d<4){var g=mk(d+1);g.V=g;if(this)this.V=g;return g}};f.V=f;return f},W=mk(0);function W0(){return W}var r=({__proto__:{W},m(){try{return typeof eval(${JSON.stringify(e)})}catch(x){return x}}}).m.call({W});return [r,lg.join()]})` }; }
    // names, source text
    for (const n of nameslots) for (const f of anon) for (const w of nameforms) { if (/eval/.test(n) && /"/.test(f) || v8n(n, f)) continue; yield { src: `T(()=>{${n.replace(/\bF\b/, () => w.replace('F', () => f)).replace(/\bF\b/g, () => w.replace('F', () => f))}})` }; }
    for (const s of srcforms) yield { src: `T(()=>String(${/^(async\s+)?function|^class/.test(s) ? '(' + s + ')' : s.startsWith('Object') || s.startsWith('(') ? s : '(' + s + ')'}))` };
    for (const s of ['function', 'function*', 'async function', 'async function*']) for (const p of ['a', 'a,b=1', '{a},...b', 'a,b,c']) yield { src: `T(()=>DESC(${s} nm(${p}){}))` };
    // literals beside references
    for (const l of lits) for (const r of refs) for (const op of ['&&', '||', '??', ',', '?']) for (const c of foldctx) { const e = op === '?' ? [`${l}?${r}:0`, `${l}?0:${r}`] : [`${l}${op}${r}`, `${r}${op}${l}`]; for (const x of e) { const s = c.replace('E', () => x), st = /^(if|while|do|for|switch|return|throw|with)/.test(s); yield { src: `T(function(){var x=5,v,f=function(){return this===undefined||this===globalThis},o={m:function fm(){return L(this===o)}};${st ? s : 'return ' + s}})` }; } }
    for (const s of ['undefined', 'NaN', 'Infinity']) for (const d of [`var ${s}=5`, `let ${s}=6`, `function ${s}(){}`, `const ${s}=null`]) for (const e of [s, `typeof ${s}`, `${s}?1:2`, `${s}??3`, `[${s}]`, `({${s}}).${s}`, `void ${s}`, `${s}===void 0`, `(()=>${s})()`, `eval("${s}")`]) yield { src: `T(()=>{${d};return ${e}})` };
    for (const e of ['undefined=1;undefined', 'NaN=1;NaN', '(undefined)=2', 'undefined++', '[undefined]=[1]', 'delete undefined', '"use strict";undefined=1', 'with({undefined:7})undefined', '(undefined=>undefined)(8)', '({undefined})=>undefined', 'try{throw 9}catch(undefined){undefined}', 'var undefined;undefined', 'for(undefined of [1]);undefined']) yield { src: `T(()=>eval(${JSON.stringify(e)}));T(()=>(function(){return eval(${JSON.stringify(e)})})())` };
  }
};
