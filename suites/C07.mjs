// Promises and async functions: settlement, reaction order (against a ticking clock of microtasks) and async control flow.
import { P0, product, seqs, seqsUpTo } from '../lib/prelude.mjs';
import { exprs, stmts } from './C06.mjs';
// promise sources
const src = {
  res: 'Promise.resolve(1)', rej: 'Promise.reject("r")', ctor: 'new Promise(r=>r(2))', ctorj: 'new Promise((r,j)=>j("j"))', thr: 'new Promise(()=>{throw "x"})', thr2: 'new Promise(r=>{r(3);throw "x"})',
  twice: 'new Promise((r,j)=>{r(4);r(5);j(6)})', never: 'new Promise(()=>{})', resP: 'new Promise(r=>r(Promise.resolve(7)))', resJ: 'new Promise(r=>r(Promise.reject("k")))', resT: 'new Promise(r=>r(TH("s")))',
  late: 'new Promise(r=>Promise.resolve().then(()=>r("late")))', lateP: 'new Promise(r=>Promise.resolve().then(()=>r(Promise.resolve("lp"))))', latej: 'new Promise((r,j)=>Promise.resolve().then(()=>j("lj")))',
  self: '(()=>{var r,p=new Promise(f=>r=f);r(p);return p})()', af: '(async()=>8)()', afj: '(async()=>{throw "aj"})()', afP: '(async()=>Promise.resolve(9))()', afw: '(async()=>{await 1;return 10})()', sub: 'SP.resolve(11)', subj: 'new SP((r,j)=>j("sj"))',
  ...Object.fromEntries(['j', 'a', 'aj', 't', 'rt', 'rr', 'gt', 'nc', 'fn', 'pr', 'as', 'se'].map(k => ['th' + k, `Promise.resolve(TH("${k}"))`])),
  thenov: '(()=>{var p=Promise.resolve(12);p.then=function(a,b){L("ov");return Promise.prototype.then.call(this,a,b)};return p})()',
  ctorov: '(()=>{var p=Promise.resolve(13);p.constructor=SP;return p})()', ctorth: '(()=>{var p=Promise.resolve(14);Object.defineProperty(p,"constructor",{get(){L("gc");throw "gc"}});return p})()', ctorun: '(()=>{var p=Promise.resolve(15);p.constructor=undefined;return p})()',
  rawth: '({then(a){L("raw");a("rw")}})',
};
const ops = {
  th: '.then(P("a"))', th2: '.then(P("a"),P("b"))', tu: '.then(undefined,P("b"))', tn: '.then(1,2)', c: '.catch(P("c"))', f: '.finally(P("f"))', tt: '.then(X("a"),X("b"))', tp: '.then(v=>Promise.resolve(L(v)))', tj: '.then(v=>Promise.reject(L(v)),v=>Promise.reject("2"))',
  tT: '.then(v=>TH("s"),v=>TH("aj"))', tself: '', fx: '.finally(X("f"))', fj: '.finally(()=>Promise.reject("fj"))', fl: '.finally(()=>Promise.resolve().then(P("fl")))', fn: '.finally(0)', fT: '.finally(()=>TH("s"))', taf: '.then(async v=>{await 0;return v})', taf2: '.then(async v=>v,async e=>{throw e})',
  cl: '.then(v=>new Promise(r=>Promise.resolve().then(()=>r(v))))', sp: '.then(v=>SP.resolve(v))', ct: '.catch(X("c"))',
};
ops.tself = '.then(v=>{L(typeof Q);return Q})';
const consume = {
  then: (s, o) => `var Q=${s}${o};Q.then(P("ok"),P("err"))`,
  aw: (s, o) => `(async()=>{try{L(await ${s}${o})}catch(e){L("E");L(e)}finally{L("F")}})()`,
};
const elems = ['1', 'res', 'rej', 'late', 'latej', 'never', 'ths', 'thtwice', 'thboth', 'thboth2', 'tht', 'sub', 'rawth', 'resT', 'thgt'];
const elem = e => e === '1' ? '1' : e === 'ths' ? 'TH("as")' : e === 'thtwice' ? 'TH("tw")' : e === 'thboth' ? 'TH("bo")' : e === 'thboth2' ? 'TH("bo2")' : e === 'tht' ? 'TH("t")' : e === 'thgt' ? 'TH("gt")' : src[e];
const comb = ['all', 'race', 'allSettled', 'any'];
const numA = (s, v) => { let i = 0; return s.replace(/\bY\b/g, () => `(await A(${++i},"${v}"))`).replace(/\bIT\b/g, 'I7()'); };
const kinds = ['v', 'p', 'j', 's', 'a', 'J', 'w', 't'];
export default {
  id: 'C07', level: 'exploration', reset: 300, async: true, variants: ['plain'],
  rule: 'one case = one promise source with one chain of operations, one combinator with one element list, one async body with one assignment of awaited values, or one settlement history of two tasks; all distinct; non-trivial: all that the reference accepts as valid programs',
  trivial: (c, w) => w.startsWith('!SyntaxError'),
  prelude: P0 + String.raw`
var LN=0,L=function(v){if(LN++>150)throw 'runaway';__log(__S(v));return v},x,q,o,g,a,b,Q,SPN=0;
var EN=v=>v instanceof Error?v.name:String(v);
var P=t=>function(v){L(t);L(arguments.length);L(v);return t+EN(v)}, X=t=>function(v){L("X"+t);L(v);throw "T"+t};
class SP extends Promise{constructor(e){super(e);L("SP")} static get [Symbol.species](){L("sp");return SPN?Promise:SP}}
// the clock: one tick per microtask turn
function CK(n){var p=Promise.resolve();for(let i=0;i<n;i++)p=p.then(()=>{L("."+i)})}
function TH(k){var l=f=>Promise.resolve().then(f);
 if(k==="gt")return{get then(){L("gt");throw "gt"}}; if(k==="nc")return{then:1}; if(k==="fn"){var f=function(){};f.then=function(a){L("fn");a("F")};return f} if(k==="pr")return new Proxy({},{get(t,n){if(typeof n==="string"){L("g:"+n)}return n==="then"?(a=>a("PX")):undefined}});
 if(k==="se"){var s={then(a){L("se");a(s.n++<2?s:"se!")},n:0};return s}
 return{get then(){L("then");return function(a,b){L("call"+k);L(arguments.length);switch(k){case "s":L(a("s"));break;case "j":L(b("j"));break;case "a":l(()=>a("a"));break;case "aj":l(()=>b("aj"));break;case "as":l(()=>{a("as")});break;case "t":throw "t";case "rt":a("rt");throw "lost";case "rr":a("r1");b("r2");a("r3");break;case "tw":a("w1");a("w2");l(()=>a("w3"));break;case "bo":a("b1");b("b2");break;case "bo2":b("b3");a("b4");break;}}}}}
function A(i,k){switch(k){case "v":return i;case "p":return Promise.resolve(i);case "j":return Promise.reject("j"+i);case "s":return TH("s");case "a":return TH("a");case "J":return i===2?Promise.reject("j"+i):i;case "w":return new Promise(r=>Promise.resolve().then(()=>r(i)));case "t":return TH("t")}}
function f(){L(arguments.length);return typeof this==="object"&&this===o?7:function(){return 8}} function tag(s){L(s.raw.join());return arguments.length} function O(){L("O");return {set k(v){L("=k")},get k(){return 1},set 3(v){L("=3")},get 3(){return 1}}}
function self(){} function I7(){L("i7");return [7,8]}
function CAP(k){return function C(ex){L("cap");var rs=v=>{L("rs");L(v);if(k==="rsx")throw "rsx"},rj=v=>{L("rj");L(v);if(k==="rjx")throw "rjx"};
 if(k==="twice"){ex(rs,rj);try{ex(rs,rj)}catch(e){L(__E(e))}}else if(k==="undef"){ex(undefined,undefined);ex(rs,rj)}else if(k==="none"){}else if(k==="one"){ex(rs)}else if(k==="thr"){ex(rs,rj);throw "capx"}else if(k==="call"){ex(1,2)}else ex(rs,rj);
 this.cap=1}}
`,
  bounds: {
    quick: `${Object.keys(src).length} promise sources x chains of up to 2 of ${Object.keys(ops).length} operations, consumed by then and by await, against a microtask clock; combinators over all lists of up to 2 of ${elems.length} kinds of element (3 over a subset); custom capabilities; ${exprs.length}+${stmts.length} async bodies x ${kinds.length} kinds of awaited value; two async tasks with every settlement history up to depth 4`,
    thorough: 'chains of 3 operations, combinator lists of 3, nested async bodies, settlement histories up to depth 6'
  },
  *gen(tier) {
    const th = tier === 'thorough';
    const S = Object.values(src), Op = Object.values(ops);
    const pre = 'LN=SPN=x=0;';
    for (const s of S) for (const n of [0, 1]) for (const c of Object.values(consume)) yield { src: `LN=0;SPN=${n};${c(s, n ? '.then(P("z"))' : '')};CK(8)` };
    for (const s of S) for (let n = 1; n <= (th ? 3 : 2); n++) for (const os of seqs(Op, n)) {
      if (s === src.rawth && !os[0].startsWith('.then')) { }
      const b = os.join('');
      if (n < 3 || S.indexOf(s) % 3 === 0) yield { src: `${pre}T(()=>{${consume.then(s, b)}});CK(9)` };
      if (n < 3) yield { src: `${pre}${consume.aw(s, b)};CK(9)` };
    }
    // several reactions on one promise, added before and after settlement
    const acts = ['p.then(P("a"))', 'p.then(P("b"),P("c"))', 'p.catch(P("d"))', 'p.finally(P("e"))', 'r(1)', 'j(2)', 'r(p)', 'r(q)', 'r2(3)', 'j2(4)', 'q.then(P("f"),P("g"))', 'r(TH("a"))', '(async()=>{try{L(await p)}catch(e){L("w"+EN(e))}})()', 'queue()'];
    for (const as of seqs(acts, 3)) yield { src: `${pre}var r,j,p=new Promise((a,b)=>{r=a;j=b}),r2,j2;q=new Promise((a,b)=>{r2=a;j2=b});function queue(){Promise.resolve().then(()=>{L("q");${as[2]}})};${as.join(';')};CK(6)` };
    const acts4 = th ? acts : acts.filter((_, i) => [0, 2, 4, 7, 8, 10, 12].includes(i));
    for (const as of seqs(acts4, 4)) yield { src: `${pre}var r,j,p=new Promise((a,b)=>{r=a;j=b}),r2,j2;q=new Promise((a,b)=>{r2=a;j2=b});function queue(){Promise.resolve().then(()=>{L("q");${as[2]}})};${as.join(';')};CK(6)` };
    // settlement spread over ticks
    for (const as of seqs(['r(1)', 'j(2)', 'r(q)', 'r2(3)', 'j2(4)', ''], th ? 5 : 4)) yield { src: `${pre}var r,j,p=new Promise((a,b)=>{r=a;j=b}),r2,j2;q=new Promise((a,b)=>{r2=a;j2=b});(async()=>{try{L("A"+await p)}catch(e){L("Ae"+EN(e))}try{L("A"+await q)}catch(e){L("Ae"+EN(e))}})();(async()=>{try{L("B"+await q)}catch(e){L("Be"+EN(e))}finally{L("B"+await Promise.race([p,q]).catch(e=>e))}})();Promise.allSettled([p,q]).then(v=>L(v));var k=Promise.resolve();for(let f of [${as.map(a => `()=>{${a}}`)}])k=k.then(()=>{L(".");f()});` };
    // combinators
    for (const c of comb) for (const n of [0, 1, 2, 3]) for (const es of seqs(elems, n)) {
      if (!th && n === 3 && es.some(e => ['late', 'sub', 'rawth', 'resT', 'thgt', 'never', 'tht', 'res'].includes(e))) continue;
      yield { src: `${pre}Q=Promise.${c}([${es.map(elem)}]);Q.then(v=>{L("ok");L(v)},e=>{L("er");L(e);L(e&&e.errors)});CK(7)` };
    }
    for (const c of comb) for (const k of ['rsx', 'rjx', 'twice', 'undef', 'none', 'one', 'thr', 'call', 'ok']) for (const es of seqsUpTo(['1', 'rej', 'thboth', 'late', 'thtwice'], 2)) for (const R of ['Promise.resolve', 'v=>Promise.resolve(v)', 'v=>({then(a,b){L("T");a(v);b(v)}})', 'function(v){L(this===C);return {get then(){L("gt");return v===1?()=>{}:undefined}}}', '1', 'v=>null', 'v=>{throw "Rx"}']) if (!(k === "rjx" && c === "any" && es.length && es.every(e => e === "rej")))
      yield { src: `${pre}{let C=CAP("${k}");C.resolve=${R};T(()=>{var p=Promise.${c}.call(C,[${es.map(elem)}]);return p});CK(4)}` };
    for (const k of ['rsx', 'rjx', 'twice', 'undef', 'none', 'one', 'thr', 'call', 'ok']) for (const m of ['Promise.resolve.call(C,1)', 'Promise.reject.call(C,1)', 'Promise.resolve.call(C,Promise.resolve(2))', '(()=>{var p=Promise.resolve(3);p.constructor={[Symbol.species]:C};return p.then(P("a"),P("b"))})()', '(()=>{var p=Promise.reject(3);p.constructor={[Symbol.species]:C};return p.then(P("a"),X("b"))})()', '(()=>{var p=Promise.resolve(3);p.constructor={[Symbol.species]:C};return p.then(X("a"))})()', '(()=>{var p=Promise.resolve(3);p.constructor={[Symbol.species]:C};return p.finally(P("a"))})()', 'Promise.race.call(C,[])', 'new C(()=>{})']) if (!(k === 'rsx' && /species/.test(m)) && !(k === 'rjx' && /species/.test(m)))
      yield { src: `${pre}{let C=CAP("${k}");C.resolve=Promise.resolve;T(()=>${m});CK(4)}` };
    for (const c of [...comb, 'resolve', 'reject']) for (const t of ['undefined', 'null', '1', '{}', '()=>1', 'function(){}', 'Object', 'SP', 'Promise', 'class extends SP{}', 'class extends Promise{static resolve(v){L("sr");return super.resolve(v)}}', 'class extends Promise{then(a,b){L("st");return super.then(a,b)}}', 'class extends Promise{constructor(e){super(e);L("k")}}', 'Symbol']) for (const a of ['[]', '[1,Promise.reject(2)]', '[SP.resolve(1)]', '5', 'null', '"ab"', '{}', 'new Set([1])'])
      yield { src: `${pre}T(()=>{var p=Promise.${c}.call(${t},${a});Promise.resolve(p).then(P("ok"),P("er"));return p instanceof Promise});CK(5)` };
    for (const m of ['then', 'catch', 'finally']) for (const t of ['undefined', 'null', '1', '"s"', '{}', '{then(a,b){L([typeof a,typeof b]);return 5}}', 'Promise', 'Promise.prototype', 'SP.resolve(1)', 'Object.create(Promise.resolve(1))', '{constructor:1,then(){return 6}}', '{get constructor(){L("gc");return undefined},then(a,b){L([typeof a,typeof b,a.length,b.length,a.name]);return a(1)}}', '{constructor:SP,then(a,b){return b(1)}}']) for (const a of ['', 'P("a")', 'P("a"),P("b")', '1', 'null'])
      yield { src: `${pre}T(()=>{var p=Promise.prototype.${m}.call(${t}${a ? ',' + a : ''});Promise.resolve(p).then(P("ok"),P("er"));return p instanceof SP});CK(5)` };
    for (const e of ['new Promise', 'Promise(()=>{})', 'new Promise(1)', 'new Promise({})', 'Reflect.construct(Promise,[()=>{}],Object) instanceof Promise', 'new Promise(function(a,b){L([a.length,b.length,a.name,b.name,this===undefined||this===globalThis,typeof new.target,"prototype" in a]);try{new a}catch(e){L(e)}})', 'Promise.length', 'Promise.all.length', 'Promise[Symbol.species]===Promise', 'Object.prototype.toString.call(Promise.prototype)', 'DESC(Promise.prototype.then)', 'class P extends Promise{constructor(){}};new P', ...comb.map(c=>`Object.defineProperty(Array.prototype,"0",{set(v){L("set")},configurable:true});Promise.${c}([1,Promise.reject(2)]).then(v=>L(Array.isArray(v)&&Object.getOwnPropertyNames(v)),e=>L(e.errors?Object.getOwnPropertyNames(e.errors):e)).then(()=>{delete Array.prototype[0]});0`),'Promise.any([]).catch(e=>{L(Object.getOwnPropertyDescriptor(e,"errors"));L(e.constructor===AggregateError)})', '(e=>Object.getOwnPropertyNames(e).filter(k=>k!=="stack").map(k=>[k,Object.getOwnPropertyDescriptor(e,k)]))(new AggregateError([1,2],"m",{cause:3}))', 'new AggregateError(5)', 'new AggregateError("ab").errors', 'AggregateError.length', 'Object.getPrototypeOf(AggregateError)===Error', 'Object.getPrototypeOf(async function(){})===Function.prototype', 'new (async function(){})', '(async function(){}).prototype', '(async()=>{}).hasOwnProperty("prototype")', 'new (Object.getPrototypeOf(async function(){}).constructor)("a","b","return await a+b")(1,2).then(P("ok"))', 'Object.getPrototypeOf(async function(){}).constructor("await 1").name', '(async function n(a,b=1){}).length', '(async function n(){}).name', '(async x=>x).name', 'Object.prototype.toString.call(async()=>{})'])
      yield { src: `${pre}T(()=>eval(${JSON.stringify(e)}));CK(3)` };
    // async bodies
    const clean = e => e.replace(/\byield\b/g, 'Y').replace(/Y\*IT|Y\*G2\(\)/g, '[7]');
    const E = exprs.filter(e => !/yield|super_|async_/.test(e)).map(e => /^\{|^class|^function/.test(e) ? `L((${e}))` : `L(${e})`);
    const St = stmts.filter(e => !/yield/.test(e));
    const wrap = (b, k) => ({ src: `${pre}q=null;o={p:1,m(){L(arguments.length);return "m"}};(async function(){try{${numA(b, k)};return "R"}catch(e){L("catch");L(e);throw "re"}finally{L("fin")}}).call(o,1).then(P("ok"),P("er"));CK(7)` });
    const wrap2 = (b, k) => ({ src: `${pre}q=null;o={p:1,m(){L(arguments.length);return "m"}};(async()=>{${numA(b, k)}})().then(P("ok"),P("er"));CK(6)` });
    for (const b of [...E, ...St]) for (const k of kinds) { yield wrap(b, k); if (!/arguments|new\.target/.test(b)) yield wrap2(b, k); }
    const sub = exprs.filter((e, i) => !/yield|super_|async_/.test(e) && (th || i % 3 === 0));
    for (const e1 of exprs) if (/\bY\b/.test(e1) && !/yield|super_|async_/.test(e1)) for (const e2 of sub) for (const k of th ? kinds : ['p', 'J']) {
      const b = e1.replace(/\bY\b/, `(${e2})`); yield wrap(/^\{|^class|^function/.test(b) ? `L((${b}))` : `L(${b})`, k);
    }
    for (const s of St) if (/\bY\b/.test(s)) for (const e of sub) for (const k of th ? kinds : ['p', 'J']) yield wrap(s.replace(/\bY\b/, `(${e})`), k);
    for (const f of ['async function f(n)', 'f=async n=>', 'f=async function(n)', 'class C{static async f(n)', 'o={async f(n)']) for (const b of ['return n?F(n-1):5', 'if(n)return F(n-1);return 5', 'await 0;if(n)return F(n-1);return 5', 'if(n)return F(n-1);throw 1', 'if(n)return await F(n-1);return 5', 'try{if(n)return F(n-1);throw 2}catch(e){return L(e)}', 'if(n&&!n.raw)return F`${n}`;return 6', 'if(n)return (0,F(n-1));return 7', 'if(n)return F(n-1).then(P("t"));return 8', 'if(n)return eval("F(n-1)");return 9']) for (const n of [0, 1, 2, 3])
      yield { src: `${pre}{let F=v=>{v=+(typeof v==="number"?v:0);return ${/class/.test(f) ? 'C.f' : /o=/.test(f) ? 'o.f' : 'f'}(v)};var f,o;${/class|o=/.test(f) ? `${f}{${b.replace(/F\(/g, 'this.f(')}}}` : `${f}{${b.replace(/F([(\x60])/g, 'f$1')}}`};F(${n}).then(P("ok"),P("er"));CK(14)}` };
    // parameters, returns, two tasks
    for (const p of ['a=X("d")()', '{a}', '[a]', 'a=L(1),b=a', '...[a]', 'a,b=()=>a', '{a=TH("s")}={}', 'a=await_'])
      for (const b of ['return a', 'await 0;return a', 'throw a', 'return await a', 'return TH("a")', 'return Promise.reject(1)', 'try{return await Promise.reject(2)}catch(e){return e}', 'try{return Promise.reject(2)}catch(e){return e}', 'try{return await 1}finally{await 2;L("f")}', 'try{throw 1}finally{return await 2}', 'for(;;){try{return 1}finally{await 0;break}}', 'return arguments.length'])
        for (const f of [`async function(${p}){${b}}`, `async(${p})=>{${b}}`, `({async m(${p}){${b}}}).m`, `(class{static async m(${p}){${b}}}).m`]) for (const arg of ['', 'Promise.resolve(5)', '{a:TH("j")}', '[3]'])
          yield { src: `${pre}{let fn;T(()=>{fn=(${f});fn(${arg}).then(P("ok"),P("er"))});CK(6)}` };
    const steps = ['await 0', 'L(await p)', 'r(1)', 'L(await TH("a"))', 'try{await Promise.reject(1)}catch(e){L(e)}', 'return 2', 'L(await (async()=>{await 0;return 3})())', 'await Promise.all([p,0])', 'j(3)', 'for(var i=0;i<2;i++)await i'];
    for (const t1 of seqs(steps, 2)) for (const t2 of seqs(steps, th ? 3 : 2)) yield { src: `${pre}var r,j,p=new Promise((a,b)=>{r=a;j=b});(async()=>{L("A0");${t1.map((s, i) => s + `;L("A${i + 1}")`).join(';')}})().then(P("A"),P("Ae"));(async()=>{L("B0");${t2.map((s, i) => s + `;L("B${i + 1}")`).join(';')}})().then(P("B"),P("Be"));CK(5)` };
  }
};
