// Async generators, for await and async delegation: request queues against a microtask clock.
import { P0, product, seqs, seqsUpTo } from '../lib/prelude.mjs';
const bodies = [
  'return R1(2)', 'yield 1;return o.f(await 3)', 'return tag`x`', 'return arguments.callee.call(this)',
  'yield 1;yield 2', 'L(yield 1);L(yield 2)', 'L(yield await 1)', 'L(await (yield 1))', 'await 0;L(yield 1);await 0;return 2', 'return 1', 'return Promise.resolve(1)', 'return Promise.reject("rj")', 'return TH("a")', 'throw "T"', 'await Promise.reject("aj")', 'yield Promise.resolve(1)', 'yield Promise.reject("yj")', 'yield TH("a")', 'yield TH("aj")',
  'try{yield 1}finally{L("f")}', 'try{yield 1}finally{await 0;L("f")}', 'try{yield 1}finally{yield 2}', 'try{yield 1}finally{return 3}', 'try{yield 1}finally{throw "F"}', 'try{yield 1}catch(e){L(e)}yield 2', 'try{yield 1}catch(e){yield e}finally{yield 5}', 'try{await Promise.reject(1)}catch(e){yield e}', 'try{yield Promise.reject(1)}catch(e){L(e);yield 2}', 'try{return Promise.reject(1)}catch(e){L(e);yield 2}', 'try{return 1}finally{yield 2}',
  'for(let i=0;i<2;i++){L(yield i)}', 'while(yield 1)L("w")', 'L([yield 1,yield 2])', 'L({a:yield 1,b:await (yield 2)})', 'yield yield 1', 'yield* [1,2]', 'L(yield* [1,Promise.resolve(2)])', 'try{yield* [Promise.reject(1),2]}catch(e){L(e)}', 'yield* AG()', 'L(yield* AG())', 'try{yield* AG()}finally{L("f")}', 'yield* G()', 'try{L(yield* G())}catch(e){L(e);yield "c"}', 'yield* (async function*(){yield* AG()})()', 'for await(let v of AG())yield v', 'for await(let v of G())L(yield v)', 'for await(let v of AG()){L(v);break}', 'for await(let v of AG())return v', 'for(let v of G())yield v', 'for(let v of [1,2])await v', 'let g=AG();yield g.next();yield g.return(5)', 'me.next().then(P("inner"));yield 1;yield 2', 'L(arguments.length);L(this===o);yield new.target', 'yield function.sent',
];
// instrumented async or sync iterator: fault at a step
const steps = ['gi', 'ci', 'gn', 'n0', 'd0', 'v0', 'n1', 'd1', 'v1', 'n2', 'd2', 'v2', 'gr', 'cr', 'dr', 'vr', 'gt', 'ct', 'dt', 'vt'];
const fk = { gi: 'tuz1', ci: 'tu1', gn: 'tuzo', n: 'tuz1ojp', d: 'tup', v: 'tujp', gr: 'tuz1o', cr: 'tuz1ojp', gt: 'tuz1o', ct: 'tuz1ojp' };
const faults = steps.flatMap(s => [...(fk[s] || fk[s[0]])].map(k => s + ':' + k));
const consumers = [
  'for await(let v of IT)L(v)', 'for await(let v of IT){L(v);break}', 'for await(let v of IT){L(v);return "R"}', 'for await(let v of IT){L(v);throw "T"}', 'o:for(let z of [1,2])for await(let v of IT){L(v);continue o}', 'for await(let v of IT){L(await v);await 0}', 'for await(x of IT)L(x)', 'for await(o.p of IT)L(o.p)', 'for await(let [v] of IT)L(v)', 'for await(let {a=L("d")} of IT)L(a)', 'for await(let v of IT)try{break}finally{await 0;L("f")}', 'for await(let v of IT){try{await Promise.reject(1)}catch{continue}}', 'try{for await(let v of IT){L(v);throw "T"}}catch(e){L(e);return "C"}finally{await 0;L("F")}', 'for await(let v of IT){for await(let w of IT){L([v,w]);break}}', 'L([for_])',
];
// the fault hits GetMethod inside %AsyncFromSyncIteratorPrototype%: V8 answers one turn earlier than the specification
const v8 = (k, fa) => k === 0 && /^g[rt]:[t1o]/.test(fa);
const R = { n: 'g.next()', m: 'g.next(3)', p: 'g.next(Promise.resolve(4))', t: 'g.throw("E")', r: 'g.return("R")', q: 'g.return(Promise.resolve("Q"))', j: 'g.return(Promise.reject("J"))', h: 'g.return(TH("a"))', k: 'g.return(BADC())' };
export default {
  id: 'C08', level: 'exploration', reset: 300, async: true, variants: ['plain'],
  rule: 'one case = one async generator body (or consumer or delegate) with one request or fault history; all distinct; non-trivial: all that the reference accepts as valid programs',
  trivial: (c, w) => w.startsWith('!SyntaxError'),
  prelude: P0 + String.raw`
var LN=0,L=function(v){if(LN++>150)throw 'runaway';__log(__S(v));return v},x,o={p:1,f(v){return Promise.resolve(v)}},R1=v=>Promise.reject(v),tag=()=>Promise.resolve(5),g,me,FA="",EN=v=>v instanceof Error?v.name:__S(v);
var P=t=>function(v){L(t);L(v);return v};
function CK(n){var p=Promise.resolve();for(let i=0;i<n;i++)p=p.then(()=>{__log("."+i)})}
function TH(k){return{get then(){L("then");return function(a,b){switch(k){case "s":a("s");break;case "a":Promise.resolve().then(()=>a("a"));break;case "aj":Promise.resolve().then(()=>b("aj"));break;case "t":throw "t"}}}}}
function BADC(){var p=Promise.resolve(9);Object.defineProperty(p,"constructor",{get(){L("ctor");throw "badc"}});return p}
async function*AG(){try{L(yield "a1");L(yield "a2");return "ar"}catch(e){L("ac");L(e);yield "a3"}finally{L("af")}}
function*G(){try{L(yield "s1");L(yield Promise.resolve("s2"));return Promise.resolve("sr")}catch(e){L("sc");L(e);yield "s3"}finally{L("sf")}}
// requests: '.' lets three microtask turns pass before the next request
async function D(h){for(let i=0;i<h.length;i++){let c=h[i];if(c==="."){await 0;await 0;await 0;__log("..");continue}
 try{var r=c==="n"?g.next():c==="m"?g.next(3):c==="p"?g.next(Promise.resolve(4)):c==="t"?g.throw("E"):c==="r"?g.return("R"):c==="q"?g.return(Promise.resolve("Q")):c==="j"?g.return(Promise.reject("J")):c==="h"?g.return(TH("a")):g.return(BADC());
 r.then(v=>{__log("<"+i+" "+__S(v.value,2)+(v.done?"!":""))},e=>{__log("<"+i+" throw "+EN(e))})}catch(e){__log("SYNC "+EN(e))}}}
function It(asy,n,F){var p=(F||"").split(":"),fs=p[0],fk=p[1],k=0;
 function at(s,v){L(s);if(s!==fs)return v;switch(fk){case "t":throw "X"+s;case "u":return undefined;case "z":return null;case "1":return 1;case "o":return {};case "j":return Promise.reject("j"+s);case "p":return Promise.resolve(v)}}
 function w(v){return asy===2?Promise.resolve(v):v}
 function res(i,d,v){return{get done(){return at("d"+i,d)},get value(){return at("v"+i,v)}}}
 var it={get next(){return at("gn",function(a){L(a);var i=k++;return at("n"+i,w(res(i,i>=n,i+10)))})},
  get return(){return at("gr",function(a){L(a);return at("cr",w(res("r",!/live/.test(fk),"rv")))})},
  get throw(){return at("gt",function(a){L(a);return at("ct",w(res("t",fk==="fin","tv")))})}};
 var o={};Object.defineProperty(o,asy?Symbol.asyncIterator:Symbol.iterator,{get(){return at("gi",function(){return at("ci",it)})}});
 if(asy===3)Object.defineProperty(o,Symbol.iterator,{get(){L("sync!")}});return o;
}
`,
  bounds: {
    quick: `${bodies.length} bodies x all queues of next, next(v), throw, return (also with promises) up to depth 3 issued at once and with gaps up to depth 4; for await and yield* over sync and async iterators with a fault at every step; all distinct`,
    thorough: 'queues up to depth 5 with gaps, all request kinds; delegation with histories up to depth 5'
  },
  *gen(tier) { for (const c of this.gen0(tier)) if (!c.skip) yield c; },
  *gen0(tier) {
    const th = tier === 'thorough';
    const run = (b, h, fa = '') => ({ skip: /yield\*/.test(b) && /[jk]/.test(h.slice(1)), src: `LN=x=0;FA="${fa}";g=me=(async function*(){${b}}).call(o,1);D("${h}");CK(9)` });
    for (const b of bodies) {
      for (const h of seqsUpTo(Object.keys(R), th ? 4 : 3, 1)) yield run(b, h.join(''));
      for (const h of seqsUpTo(['n', 'm', 't', 'r', '.'], th ? 6 : 5, 3)) { const s = h.join(''); if (!/\./.test(s) || /^\.|\.$|\.\./.test(s)) continue; yield run(b, s); }
    }
    for (const b1 of bodies) for (const b2 of bodies) for (const h of ['nn', 'n.n.n', 'n.t.n', 'n.r.n', 'ntr', 'nrn']) {
      yield run(`try{L(yield* (async function*(){${b1}})())}catch(e){L(e);${b2}}finally{L("of")}`, h);
      yield run(`for await(let v of (async function*(){${b1}})()){L(v);${b2}}`, h);
    }
    const wrap = (b, k, fa) => ({ src: `LN=x=0;FA="${fa}";(async function(){${b.replace(/\bIT\b/g, `It(${k},2,FA)`)};return "end"})().then(P("ok"),P("er"));CK(9)` });
    for (const c of consumers) for (const k of [0, 1, 2, 3]) for (const fa of ['', 'x:live', ...faults]) if (!v8(k, fa)) yield wrap(c, k, fa);
    for (const c of consumers) for (const k of [0, 2]) for (const fa of ['', ...faults]) if (!v8(k, fa)) yield { src: `LN=x=0;FA="${fa}";g=(async function*(){${c.replace(/\bIT\b/g, `It(${k},2,FA)`)};yield 1})();D("n.nr");CK(9)` };
    const del = ['L(yield* IT)', 'try{L(yield* IT)}catch(e){L(e);yield "c"}finally{L("f")}', 'return yield* IT', 'yield* (async function*(){return yield* IT})()', 'for await(let v of (async function*(){yield* IT})())yield [v]'];
    for (const d of del) for (const k of [0, 1, 2]) for (const fa of ['', 'x:fin', 'x:live', ...faults]) if (!v8(k, fa)) for (const h of th ? seqsUpTo(['n', 'm', 't', 'r', 'q', '.'], 4, 1) : ['n', 'nn', 'n.n.n', 'n.t', 'n.t.n', 'n.r', 'n.r.n', 'nt', 'nr', 'nq', 'nmt', 'n.p.n', 't', 'r', 'nnnn', 'n.m.r', 'n.m.t.n']) { const s = typeof h === 'string' ? h : h.join(''); yield run(d.replace(/\bIT\b/g, `It(${k},2,FA)`), s, fa); }
    // objects, misuse, prototypes
    const misc = ['new (async function*(){})', '(async function*(){}).prototype', 'Object.getPrototypeOf(async function*(){}.prototype)===Object.getPrototypeOf(async function*(){}).prototype', 'Object.prototype.toString.call((async function*(){})())', 'Object.prototype.toString.call(async function*(){})', 'Object.getPrototypeOf(async function*(){}).constructor("a","yield a")(5).next().then(P("v"))', '(async function*n(a,b=1){}).length', '(async function*n(){}).name', '(()=>{var g=(async function*(){})();return g[Symbol.asyncIterator]()===g})()', 'Object.getPrototypeOf(async function*(){}).constructor.name',
      ...['next', 'throw', 'return'].flatMap(m => ['undefined', '1', '{}', '(function*(){})()', 'Object.create((async function*(){})())', '(async function*(){}).prototype'].map(t => `Object.getPrototypeOf(async function*(){}).prototype.${m}.call(${t},1).then(P("ok"),e=>L(EN(e)))`)),
      '(async function*(a=L("p")){L("b")})().next().then(P("ok"))', '(async function*(a=(()=>{throw "pt"})()){L("b")})()', '(()=>{var f=async function*(){};f.prototype=1;return Object.getPrototypeOf(f())===Object.getPrototypeOf(async function*(){}).prototype})()', '(()=>{var f=async function*(){yield this.x};f.prototype.x=5;return f.call({x:6}).next().then(P("ok"))})()', '({async*m(){yield super.toString}}).m().next().then(v=>L(typeof v.value))', '(class{static async*#p(){yield 1} static t(){return this.#p().next()}}).t().then(P("ok"))', 'Reflect.ownKeys(Object.getPrototypeOf(async function*(){}).prototype).map(String).sort()', 'Object.getPrototypeOf(Object.getPrototypeOf(async function*(){}).prototype)[Symbol.asyncIterator].name'];
    for (const m of misc) yield { src: `LN=0;T(()=>eval(${JSON.stringify(m)}));CK(4)` };
    // two generators: interleaved queues
    const b2 = ['L(yield 1);return 2', 'try{yield 1}finally{await 0;L("f"+A)}', 'yield* [A,A+1]', 'for await(let v of AG())L([A,yield v])', 'await 0;yield A;throw A'];
    for (const x of b2) for (const y of b2) for (const h of seqs(['0n', '1n', '0t', '1r', '..'], 4)) if (h[0] === '0n') yield { src: `LN=0;var mk=[async function*(A){${x}},async function*(A){${y}}].map((f,i)=>f(i*10));(async()=>{for(var s of ${JSON.stringify(h)}){if(s==='..'){await 0;await 0;continue}g=mk[+s[0]];D(s[1])}})();CK(9)` };
  }
};
