// Generators: every request history on bodies with yield in every position.
import { P0, product, seqs, seqsUpTo } from '../lib/prelude.mjs';
// expressions with holes Y (each becomes a yield with its own number)
export const exprs = ['Y', 'yield', 'yield*IT', '(Y)+Y', '[Y,L(1),Y]', 'f(L(1),Y,L(2),Y)', 'o.m(Y,Y)', 'o[Y]', 'o[Y]=Y', 'o[Y]+=Y', 'o.p=Y', 'o.p+=Y', 'x=Y', 'x+=Y', 'x??=Y', 'q&&=Y', 'x||=Y', 'Y&&Y', 'Y||Y', 'Y??Y', 'Y?Y:Y', '(Y,Y)', '`a${Y}b${Y}c`', 'tag`a${Y}b${Y}`', '{a:Y,[Y]:Y}', '{...Y,b:Y}', '{get [Y](){return 1}}', '[...Y]', '[0,...Y,Y]', 'f(...[Y,Y])', 'new f(Y,L(3),Y)', 'new (Y)', 'class extends (Y){}', 'class{[Y](){};static [Y]=5;static toString(){return "k"}}', 'typeof Y', 'void Y', '!Y', '-Y', 'delete o[Y]', 'Y in o', '"p" in Y', 'Y instanceof Object', 'Y?.p', 'o?.[Y]', 'o?.m?.(Y)', 'q?.[Y]', 'Y(1)', '(Y).p', '(Y)[Y]', 'yield Y', 'yield yield yield', 'f(yield*IT,Y)', '[yield*G2(),Y]', '[a,b=Y]=[1]', '[a=Y,b=Y]=[]', '[o[Y]]=[Y]', '{a=Y,b=Y}={}', '{[Y]:a,...b}={u:1}', '[...o[Y]]=[1,2]', '[[a=Y],b]=[[],Y]', '(()=>x)(Y)', 'eval("1")+Y', 'L(L(1)+L(2)*Y)', 'f.call(o,Y,...[Y],Y)', 'x++ + Y + x++', 'import.meta', 'new.target===Y', 'this===Y', 'arguments[0]=Y', 'function(a=1){return a}(Y)', 'Y==Y', 'Y<Y', 'Y**Y', 'o.p++ +Y', 'super_', 'async_', 'O()[Y]=Y', 'O()[Y]+=L(2)', '[Y,[Y,[Y]]]', '{a:{b:{c:Y}},d:Y}', 'f(Y)(Y)', 'f`${Y}`', 'x=[x,x=Y,x]', '(x=1,x)+(x=Y)+x'];
export const stmts = ['if(Y){L("t")}else{L("f")}', 'for(x=Y;x<Y;x+=Y)L(x)', 'for(let i=0;i<2;i++)L(Y)', 'for(let i=0,g=()=>i;i<2;i++){Y;L(g()+i)}', 'while(Y)L("w")', 'do L("d");while(Y)', 'for(var k in Y)L(k)', 'for(var k in {a:1,b:2})L(k+Y)', 'for(let v of IT)L([v,Y])', 'for(var v of [1,2])L(Y)', 'for(o[Y] of [1,2])L(o)', 'for([x=Y] of [[],[1]])L(x)', 'switch(Y){case Y:L("c1");case 2:L("c2");break;default:L("df")}', 'try{Y;Y}catch(e){L("c");L(e)}', 'try{Y}catch{Y}', 'try{Y}finally{L("f")}', 'try{Y}finally{Y}', 'try{Y}finally{L(Y);return Y}', 'try{Y}catch(e){L(e);Y}finally{L("f");Y}', 'try{Y}finally{throw Y}', 'l:try{Y}finally{break l}', 'for(;;){try{Y}finally{if(N++)break;continue}}', 'try{throw 1}catch(e){L(Y);L(e)}', 'try{throw Y}catch(e){L(e)}', 'try{try{Y}finally{L("i");Y}}finally{L("o")}', 'try{return Y}finally{Y}', 'try{return 8}finally{Y}', 'try{throw 9}finally{Y}', 'throw Y', 'return Y', 'return yield*IT', 'with(o)L(p+Y)', '{let z=Y;let h=()=>z;Y;L(h())}', 'l:{Y;break l}', 'let [z=Y]=IT;L(z)', 'let {z=Y,w=Y}={};L([z,w])', 'const {[Y]:z}=o;L(z)', 'for(let v of IT){if(Y)break;else continue}', 'for(let v of IT)for(let w of IT){L([v,w]);if(Y)break}', 'L(yield* G2())', 'try{yield* G2()}catch(e){L(e)}', 'try{yield* IT}finally{L("f")}', 'for(let v of G2())L([v,Y])', 'var fn=function*(){yield Y};L(1)'.replace('yield Y', 'yield 5'), 'self()', 'Y;self();Y', 'class C{static{L(x)};[Y]=1};L(Object.keys(new C))', 'Y;;Y', 'yield;yield', 'var u=yield;L(u)', 'x:for(;;){for(let v of IT){if(Y)break x;else continue x}}'];
const number = s => { let i = 0; return s.replace(/\bY\b/g, () => `(yield ${++i})`).replace(/\bIT\b/g, 'It(2,FA)'); };
const exprStmt = e => /^\{|^class|^function/.test(e) ? e.startsWith('{') && /\}=/.test(e) ? `L((${e}))` : `L((${e}))` : `L(${e})`;
// R = requests: n next(undefined) m next(value) t throw r return; x/y/z: other values
const reqs = { n: 'g.next()', m: 'g.next(3)', o: 'g.next(O1)', t: 'g.throw("E")', r: 'g.return("R")', R: 'g.return({done:false})' };
const hist = (b, h, fa = '', pre = '') => ({ src: `LN=N=x=0;q=null;FA="${fa}";o={p:1,m(){L(arguments.length);return "m"}};${pre};g=(function*(){${b}}).call(o,1);D(g,"${h}")` });
export default {
  id: 'C06', level: 'exploration', reset: 300, variants: ['plain'],
  rule: 'one case = one generator body (or delegate, or pair of generators) with one request history; all distinct; non-trivial: all that the reference accepts as valid programs',
  trivial: (c, w) => w.startsWith('!SyntaxError'),
  prelude: P0 + String.raw`
var N=0,LN=0,L=function(v){if(LN++>200)throw 'runaway';__log(__S(v));return v},x,q,o,g,a,b,FA="",O1={p:{m(){return 1}},a:1,valueOf(){return 3},toString(){return "p"}};
function D(g,h){for(var i=0;i<h.length;i++){try{var r=h[i]==="n"?g.next():h[i]==="m"?g.next(3):h[i]==="o"?g.next(O1):h[i]==="t"?g.throw("E"):h[i]==="r"?g.return("R"):g.return(O1);__log("<"+__S(r.value,2)+(r.done?"!":""))}catch(e){__log("<throw "+__S(e))}}}
function f(){L(arguments.length);return typeof this==="object"&&this===o?7:function(){return 8}} function tag(s){L(s.raw.join());return arguments.length} function K(v){return {toString(){L("K");return "k"}}} function O(){L("O");return {set k(v){L("=k")},get k(){return 1},set 3(v){L("=3")},get 3(){return 4}}}
function self(){try{g.next()}catch(e){L(__E(e))}try{g.throw(1)}catch(e){L(__E(e))}try{g.return(1)}catch(e){L(__E(e))}}
function*G2(){try{L(yield "i1");L(yield "i2");return "ret"}catch(e){L("ic");L(e);yield "i3"}finally{L("if")}}
function It(n,F){var p=(F||"").split(":"),fs=p[0],fk=p[1],k=0;
 function at(s,v){L(s);if(s!==fs)return v;switch(fk){case "t":throw "X"+s;case "u":return undefined;case "z":return null;case "1":return 1;case "o":return {};}}
 function res(i,d,v){return{get done(){return at("d"+i,d)},get value(){return at("v"+i,v)}}}
 var it={get next(){return at("gn",function(a){L(a);var i=k++;return at("n"+i,res(i,i>=n,i+10))})},
  get return(){return at("gr",function(a){L(a);return at("cr",res("r",!/live/.test(fk),"rv"))})},
  get throw(){return at("gt",function(a){L(a);return at("ct",res("t",fk==="fin","tv"))})}};
 return {get [Symbol.iterator](){return at("gi",function(){return at("ci",it)})}};
}
`,
  bounds: {
    quick: `${exprs.length} expression and ${stmts.length} statement bodies x all histories of next(), next(v), throw, return up to depth 4; expression pairs nested with histories up to depth 3 over next(v)/throw/return; yield* to an iterator with a fault at every step x histories up to depth 4; all interleavings of two generators up to depth 5`,
    thorough: 'histories to depth 6 and 5 requests kinds, all expression pairs with histories up to depth 4, all statement pairs, delegation chains of depth 3'
  },
  *gen(tier) {
    const th = tier === 'thorough';
    const all = [...exprs.map(exprStmt), ...stmts];
    for (const e of all) for (const h of seqsUpTo(['n', 'm', 't', 'r', ...(th ? ['o'] : [])], th ? 6 : 4, 1)) yield hist(number(e), h.join('') + 'n');
    for (const e of all) for (const h of seqsUpTo(['o', 'm', 'r'], 3, 1)) yield hist(number(e), h.join('') + 'on');
    // nesting: a yielding expression in the hole of another
    const sub = th ? exprs : exprs.filter((e, i) => i % 2 === 0 || i < 24);
    for (const e1 of exprs) if (/\bY\b/.test(e1)) for (const e2 of sub) { if (/^\{.*=\{|^\[.*\]=|^x[+?|]*=|^o\[Y\][+]?=|^o\.p[+]?=|^O\(|^q&&=|^class|^yield|^\(/.test(e2) && !th) { } const inner = `(${e2})`; const holes = e1.split(/\bY\b/).length - 1; for (let k = 0; k < (th ? holes : 1); k++) { let j = 0; const b = e1.replace(/\bY\b/g, m => j++ === k ? inner : m); for (const h of (th ? seqsUpTo(['m', 't', 'r'], 4, 2) : [['m', 'm', 'm'], ['m', 'm', 't', 'm'], ['m', 'm', 'r', 'm'], ['m', 't'], ['m', 'r'], ['o', 'o', 'o', 'o']])) yield hist(number(exprStmt(b)), h.join('')); } }
    for (const s of stmts) if (/\bY\b/.test(s)) for (const e of exprs) for (const h of (th ? seqsUpTo(['m', 't', 'r'], 4, 2) : [['m', 'm', 'm', 'm'], ['m', 'm', 't', 'm'], ['m', 'r', 'm']])) yield hist(number(s.replace(/\bY\b/, `(${e})`)), h.join(''));
    for (const s of stmts) for (const s2 of th ? stmts : stmts.filter(s => /try|for|return|throw/.test(s))) for (const h of (th ? seqsUpTo(['m', 't', 'r'], 4, 3) : [['m', 'm', 'm', 'm'], ['m', 'm', 'r', 'm'], ['m', 't', 'm', 'm'], ['m', 'r', 'm', 'm'], ['m', 'r', 't', 'm'], ['m', 'r', 'r', 'm']])) { yield hist(number(`try{${s};L("e1");${s2}}finally{L("F")}`), h.join('')); if (/try/.test(s)) yield hist(number(s.replace('{', () => '{' + s2 + ';')), h.join('')); }
    // delegation
    const kinds = { gi: 'tuz1', ci: 'tu1', gn: 'tuzo', n: 'tuz1o', d: 'tu1', v: 'tu', gr: 'tuz1o', cr: 'tuz1o', gt: 'tuz1o', ct: 'tuz1o' };
    const fs = ['', 'x:fin', 'x:live', ...['gi', 'ci', 'gn', 'n0', 'd0', 'v0', 'n1', 'd1', 'v1', 'n2', 'd2', 'v2', 'gr', 'cr', 'dr', 'vr', 'gt', 'ct', 'dt', 'vt'].flatMap(s => [...(kinds[s] || kinds[s[0]])].map(k => s + ':' + k))];
    for (const fa of fs) for (const b of ['L(yield* It(2,FA))', 'try{L(yield* It(2,FA))}catch(e){L(e);yield "c"}finally{L("f")}', 'return yield* It(2,FA)', 'yield* (function*(){return yield* It(2,FA)})()', 'for(let v of (function*(){yield* It(2,FA)})())yield [v]', 'yield* {[Symbol.iterator](){return (function*(){try{yield 1}finally{yield 2}})()}}', 'yield* "ab"', 'yield* [1,2]', 'L([...It(2,FA)])'])
      for (const h of seqsUpTo(['n', 'm', 't', 'r'], th ? 5 : 4, 1)) { if (!/FA/.test(b) && fa) continue; yield hist(b, h.join(''), fa); }
    const inner = ['yield 1;yield 2', 'try{yield 1}finally{yield 2}', 'try{yield 1}finally{return 3}', 'try{yield 1}catch(e){yield e}', 'return 5', 'throw 6', 'try{yield 1}finally{throw 7}'];
    for (const i1 of inner) for (const i2 of inner) for (const h of seqsUpTo(['n', 't', 'r'], th ? 6 : 5, 1)) { yield hist(`try{L(yield* (function*(){${i1};L(yield* (function*(){${i2}})());return "m"})())}catch(e){L(e);yield "oc"}finally{L("of")}`, h.join('')); }
    // two live generators, all interleavings; values on each one's stack
    const bodies2 = ['L([A,yield 1,A,yield 2,A])', 'for(let i=0;i<2;i++)L([i,yield i])', 'try{L(f(A,yield 1,yield 2))}finally{L("f"+A)}', 'yield* [A,A+1]', 'let [p=yield 1,q=yield 2]=[];L([A,p,q])', 'for(let v of (function*(){yield A;yield A})())L([v,yield v])'];
    for (const b1 of bodies2) for (const b2 of bodies2) for (const h of seqs(['0n', '1n', '0t', '1r', '0m'], th ? 5 : 4)) { if (!th && h[0] !== '0n') continue; yield { src: `o={};var mk=[function*(A){${b1}},function*(A){${b2}}].map((f,i)=>f(i*10));for(var s of ${JSON.stringify(h)})D(mk[+s[0]],s[1])` }; }
    // generator objects: prototype, methods, misuse
    const misc = ['(function*(){}).next', 'new (function*(){})', 'Reflect.ownKeys((function*(){}).prototype)', 'Object.getPrototypeOf(function*(){}.prototype)===Object.getPrototypeOf(function*(){}).prototype', '(function*(){}).call().next.call({})', '(function*(){})().next.call(function*(){})', '(function*(){})().return.call(1)', '(function*(){})().throw.call(1)', '[...function*(){yield this}.call(5)].length', '(function*f(){f=1})().next()', '(function*(){"use strict";yield this})().next()', 'Object.prototype.toString.call((function*(){})())', 'var F=function*(){};F.prototype=null;Object.getPrototypeOf(F())===Object.getPrototypeOf(function*(){}).prototype', 'var F=function*(){};F.prototype={z:1};F().z', 'var F=function*(){};F() instanceof F', 'DESC(function*foo(a,b){})', 'Reflect.ownKeys(Object.getPrototypeOf(function*(){})).map(k=>String(k)+JSON.stringify(Object.getOwnPropertyDescriptor(Object.getPrototypeOf(function*(){}),k))).sort().join()', 'Reflect.ownKeys(Object.getPrototypeOf(function*(){}).prototype).map(k=>String(k)+JSON.stringify(Object.getOwnPropertyDescriptor(Object.getPrototypeOf(function*(){}).prototype,k))).sort().join()', 'Reflect.ownKeys(Object.getPrototypeOf(function*(){}).constructor).map(k=>String(k)+JSON.stringify(Object.getOwnPropertyDescriptor(Object.getPrototypeOf(function*(){}).constructor,k))).sort().join()', 'Object.getPrototypeOf(function*(){}).constructor("a","yield a;return 2")(5).next()', 'var F=Object.getPrototypeOf(function*(){}).constructor;new F("yield 1")().next()', 'DESC((function*(){yield 1})().next())', '({*m(){yield 1}}).m().next()', 'new ({*m(){}}).m', 'class Z{*m(){yield super.toString()};static *s(){yield 1}};[new Z().m().next().value,Z.s().next()]', '({*[Symbol.iterator](){yield 1;yield 2}})[Symbol.iterator]().next()', '[...{*[Symbol.iterator](){yield 1;yield 2}}]', 'var G=(function*(a=L("init")){L("body")})();L("made");G.next()', 'var G=(function*(a){arguments[0]=9;yield a})(1);G.next()', '(function*({a}){})()', 'var z=(function*(){yield* z2})();var z2=z;z.next()', 'var z=(function*(){yield 1;yield* z})();z.next();z.next()', 'var z=(function*(){for(var v of z)yield v})();z.next()', '(function*(){return this})().next().value===globalThis', 'var G=(function*(){yield new.target})();G.next()', 'Object.getOwnPropertyNames((function*(a){})())', 'Object.getOwnPropertyNames((async function*(a,b){})())', 'var y=(function*(){var yield_=1;yield\n2})();[y.next(),y.next()]'];
    for (const m of misc) yield { src: `T(()=>eval(${JSON.stringify(m)}))` };
  }
};
