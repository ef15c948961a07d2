// Operators, conversions, evaluation order.
import { P0, seqsUpTo } from '../lib/prelude.mjs';
const bin = ['+', '-', '*', '/', '%', '**', '<', '>', '<=', '>=', '==', '!=', '===', '!==', '&', '|', '^', '<<', '>>', '>>>', 'instanceof', 'in', '&&', '||', '??', ','];
const asg = ['=', '+=', '-=', '*=', '/=', '%=', '**=', '<<=', '>>=', '>>>=', '&=', '|=', '^=', '&&=', '||=', '??='];
const un = ['-', '+', '!', '~', 'typeof', 'void'];
const prims = ['undefined', 'null', 'true', 'false', '0', '-0', '1', '-1', '2', '1.5', '-2.5', '0.1', 'NaN', 'Infinity', '-Infinity', '31', '32', '33', '2147483647', '2147483648', '-2147483648', '-2147483649', '4294967295', '4294967296', '9007199254740991', '9007199254740993', '1e21', '1e-7', '5e-324', '1.7976931348623157e308',
  '""', '"a"', '"b"', '"ab"', '"1"', '" 12 "', '"-0"', '"0x10"', '"1e3"', '"Infinity"', '"1n"', '"\\u00e9"', '"\\ud800"', '"length"', '"3."', '"1_0"', '"\\n"',
  '0n', '1n', '-1n', '2n', '-3n', '31n', '64n', '4294967296n', '9007199254740993n', '-18446744073709551616n', 'Symbol.iterator', 'Symbol("x")'];
const objs = ['[]', '[1]', '[1,2]', '["a"]', '[[]]', '[null]', '{}', '(()=>1)', 'function(){}', 'Object', 'Array', 'class{static toString(){return "C"}}', '/x/g', 'Object(1)', 'Object("1")', 'Object(1n)', 'Object(Symbol.iterator)', 'Object(false)', 'new Date(5)', 'new Date(NaN)', 'Object.create(null)', '{r:0}', 'new String("ab")',
  '{valueOf(){return 3}}', '{valueOf(){return "3"}}', '{valueOf(){return {}},toString(){return "7"}}', '{valueOf(){return 2n}}', '{toString(){return "7"}}', '{valueOf(){throw 1}}', '{valueOf(){return {}},toString(){return {}}}', '{valueOf:1,toString:2}',
  '{[Symbol.toPrimitive](h){return h}}', '{[Symbol.toPrimitive](h){return {}}}', '{[Symbol.toPrimitive]:1}', '{[Symbol.toPrimitive]:null,valueOf(){return 9}}', '{[Symbol.toPrimitive](h){throw new RangeError}}', '{[Symbol.toPrimitive]:undefined,toString:null,valueOf(){return 4}}', '{get valueOf(){throw new EvalError}}', '{valueOf(){return Symbol.iterator}}',
  '{[Symbol.hasInstance](v){return v}}', '{a:1}', '{get a(){return 1}}', 'new Proxy({a:1},{})', 'new Proxy(function(){},{})', 'Object.freeze({a:1})', '(()=>1).bind()', 'Array.from("ab")'];
const P = a => `(${a})`;
// conversion-hook operands that log which hook was called with which hint
const H = n => [`H("${n}",1)`, `H("${n}","s")`, `H("${n}",2n)`, `H("${n}",{})`, `H("${n}",undefined)`, `X("${n}")`, `V("${n}")`, `V("${n}",{})`];
export default {
  id: 'C01', level: 'exploration', reset: 400, variants: ['plain'],
  rule: 'one case = one expression over operator x operand values (or logging operands); all distinct; non-trivial: everything except cases whose reference outcome is a SyntaxError',
  prelude: P0 + String.raw`
function CH(d){var f=function(...a){L(this===undefined||this===globalThis?'g':typeof this);L(a.length);return d?CH(d-1):undefined};f.b=d?CH(d-1):null;Object.defineProperty(f,'a',{get(){L('ga'+d);return d?CH(d-1):undefined},configurable:true});return f}
function H(n, r) { return { [Symbol.toPrimitive](h) { __log(n + ':' + h); return r; } }; }
function X(n) { return { get [Symbol.toPrimitive]() { __log(n + ':throw'); throw new EvalError(n); } }; }
function V(n, r) { return { valueOf() { __log(n + ':v'); return r === undefined ? 1 : r; }, toString() { __log(n + ':s'); return n; } }; }
function K(n, k) { return { toString() { __log(n + ':key'); return k; } }; }
function O(n) { return { get p() { __log(n + '.p'); return 3; }, set p(v) { __log(n + '.p='); __log(v); }, q: 1, f() { __log(n + '.f'); return this === undefined ? 0 : typeof this; } }; }
function E(n, v) { __log(n); return v; }
`,
  // powers that are not exactly representable are implementation-approximated
  same: (c, g, w) => c.src.includes('**') && (() => { const a = g.split(';'), b = w.split(';'); return a.length === b.length && a.every((x, i) => x === b[i] || Math.abs(Number(x) - Number(b[i])) <= 1e-13 * Math.abs(Number(b[i]))); })(),
  trivial: (c, w) => w.startsWith('!SyntaxError'),
  bounds: {
    quick: `${bin.length} binary operators x ${prims.length + objs.length}^2 operand values (both orders); ${un.length} unary, ${asg.length} assignments, ++/-- x all values; all operators x 8x8 logging operands; conversions x all values; property forms`,
    thorough: 'as quick, plus triples of logging operands under all pairs of operators with both groupings, assignment targets x operators x values, and all operator pairs over a 14-value set'
  },
  *gen(tier) {
    const vals = [...prims, ...objs];
    for (const o of bin) for (const a of vals) for (const b of vals) { if (o === '**' && a === '31' && /31|32|33/.test(b)) continue; yield { src: `T(()=>(${P(a)} ${o} ${P(b)}))` }; }
    for (const o of un) for (const a of vals) yield { src: `T(()=>(${o} ${P(a)}))` };
    for (const o of asg) for (const a of vals) for (const b of (tier === 'thorough' ? vals : ['1', '"a"', '2n', 'undefined', 'null', '{valueOf(){return 3}}', 'new Date(5)', 'Symbol.iterator', '-0', 'NaN']))
      yield { src: `T(()=>{let x=${P(a)};let r=(x ${o} ${P(b)});L(r);return x})` };
    for (const a of vals) for (const f of ['++x', 'x++', '--x', 'x--']) { yield { src: `T(()=>{let x=${P(a)};let r=(${f});L(r);return x})` }; yield { src: `T(()=>{let o={x:${P(a)}};let r=(${f.replace('x', 'o.x')});L(r);return o.x})` }; yield { src: `T(()=>{let o=[${P(a)}],i=0;let r=(${f.replace('x', 'o[i]')});L(r);return o[0]})` }; }
    // conversions
    for (const a of vals) for (const f of ['Number(x)', 'String(x)', 'Boolean(x)', 'BigInt(x)', 'Object(x)===x', 'parseInt(x)', 'parseFloat(x)', '`${x}`', '`a${x}b${x}c`', 'x?1:2', 'if(x)L(1);else L(2)', 'while(x){L(1);break}', 'do{L(0);break}while(x)', 'for(;x;){L(1);break}', '[1,2,3][x]', '({a:1,1:2})[x]', '({[x]:1})', 'x.a', 'x?.a', 'x?.[0]', 'x?.()', 'x?.a.b', 'x.a?.b', 'delete x.a', 'delete x?.a', 'x()', 'new x', 'new x()', 'x`a`', 'x.f()', '"a" in x', 'x instanceof Object', 'Object instanceof x', '[...x]', 'Math.max(x,0)', 'x.length', 'x["length"]', 'x[Symbol.iterator]', 'x.__proto__===Object.getPrototypeOf(x)', 'x.constructor===Object(x).constructor', 'x.zz=1', '(x.zz=1,x.zz)', 'typeof x.toString', 'new Array(x)', '"abc".at(x)', '"abc".charAt(x)', '[1,2,3].at(x)', '!x', '!!x', '-x', '- -x', '~~x', 'x|0', 'x>>>0', 'x+""', '""+x', '1*x', '+x', 'isNaN(x)', 'isFinite(x)', 'Number.isInteger(x)', 'Symbol(x).description', 'x===x', 'x==x', 'Object.is(x,x)', '[x].includes(x)', '[x].indexOf(x)', '[x]==x', 'x!=[x]', 'throw x', 'void x', '(x,1)', 'x.x.x', 'x??1', 'x&&1', 'x||1', 'new Date(typeof x==="number"?x:0).getTime()', 'x=x', 'for(let k in x){L(k)}', 'switch(x){case NaN:L(0);break;case 0:L(1);break;case x:L(2)}', 'with_', '"use strict";x.zz=1', '"use strict";delete x.length'])
      yield { src: f === 'with_' ? `T(Function("x","with(x){return typeof toString}").bind(null,${P(a)}))` : /^"use strict"/.test(f) ? `T(()=>{"use strict";let x=${P(a)};return (${f.slice(13)})})` : /^(if|while|do|for|switch|throw)/.test(f) ? `T(()=>{let x=${P(a)};${f}})` : `T(()=>{let x=${P(a)};return (${f})})` };
    // evaluation order with logging operands
    for (const o of bin) for (const a of H('a')) for (const b of H('b')) yield { src: `T(()=>E("l",${a}) ${o} E("r",${b}))` };
    for (const o of asg) for (const b of [...H('b'), '5']) {
      yield { src: `T(()=>O("o").p ${o} E("r",${b}))` };
      yield { src: `T(()=>E("o",O("o"))[E("k","p")] ${o} E("r",${b}))` };
      yield { src: `T(()=>{var q=${H('q')[0]};q ${o} E("r",${b});return q})` };
      yield { src: `T(()=>E("o",null).p ${o} E("r",${b}))` };
      yield { src: `T(()=>E("o",undefined).p ${o} E("r",${b}))` };
      yield { src: `T(()=>{const c=${H('q')[0]};c ${o} E("r",${b});return c})` };
      yield { src: `T(()=>{"use strict";undef1 ${o} E("r",${b})})` };
      yield { src: `T(()=>{"use strict";Object.freeze({p:1}).p ${o} E("r",${b})})` };
      yield { src: `T(()=>{"use strict";return (5).p ${o} E("r",${b})})` };
    }
    for (const u of ['++', '--']) for (const t of ['O("o").p', 'E("o",O("o"))[E("k","p")]', 'E("o",null)[E("k","p")]', '({p:V("v")}).p', '({p:X("v")}).p', '({p:2n}).p', '[V("v")][0]']) { yield { src: `T(()=>${t}${u})` }; yield { src: `T(()=>${u}${t})` }; }
    for (const a of H('a')) for (const u of un) yield { src: `T(()=>${u} ${a})` };
    // calls, members, templates, optional chains
    const calls = ['E("f",f)(E("1",1),...E("2",[2,3]),E("3",4))', 'E("o",O("o")).f(E("1",1))', 'E("o",O("o"))[E("k",K("k","f"))](E("1",1))', 'E("n",null).f(E("1",1))', 'E("n",null)[E("k",K("k","f"))](E("1",1))', 'E("o",{}).f(E("1",1))', 'E("o",{f:1}).f(E("1",1))', 'new (E("f",f))(E("1",1))', 'new (E("f",1))(E("1",1))', 'new (E("f",()=>1))(E("1",1))', 'E("t",tag)`a${E("1",1)}b${E("2",2)}`', 'E("o",O("o")).f`a${E("1",1)}`', 'E("n",null)?.f(E("1",1))', 'E("n",null)?.[E("k","f")](E("1",1)).x.y', 'E("o",O("o"))?.f?.(E("1",1))', 'E("o",O("o")).g?.(E("1",1))', 'E("o",O("o"))?.["f"](E("1",1))', '(E("o",O("o"))?.f)()', '(E("n",null)?.f)()', 'delete E("o",O("o"))?.[E("k",K("k","q"))]', 'delete E("n",null)?.[E("k",K("k","q"))]', '`${E("1",V("v"))}${E("2",H("h","x"))}`', '[E("1",1),,...E("2","ab"),E("3",3)]', '({[E("k",K("k","a"))]:E("v",1),[E("k2",K("k2","b"))](){},get [E("k3",K("k3","c"))](){return 1},...E("s",{d:1,get e(){__log("e");return 2}})})', '(E("a",1),E("b",2))', 'E("c",true)?E("a",1):E("b",2)', 'E("c",0)?E("a",1):E("b",2)', 'E("a",K("k","p")) in E("o",O("o"))', 'E("a",K("k","p")) in E("o",1)', 'E("a",1) instanceof E("b",2)', 'E("a",O("o")) instanceof E("b",f)', 'E("a",1) instanceof E("b",{get [Symbol.hasInstance](){__log("hi");return x=>{__log("call");return 3}}})', 'E("a",{}) instanceof E("b",{get prototype(){__log("pr")}})', 'E("a",{}) instanceof E("b",Object.defineProperty(function(){},"prototype",{value:3}))', '1 instanceof Object.defineProperty(function(){},"prototype",{value:3})', 'typeof undef1', 'typeof E("o",O("o")).p', 'delete E("o",O("o")).p', 'delete E("o",null).p', 'E("o",O("o")).p=E("o2",O("o2")).p=E("v",1)', '[E("o",O("o"))[E("k",K("k","p"))]]=[E("v",1)]', 'E("a",0)||E("b",0)||E("c",1)', 'E("a",1)&&E("b",0)&&E("c",1)', 'E("a",null)??E("b",0)??E("c",1)', '(E("a",null)??E("b",0))||E("c",1)', 'E("a",2)**E("b",3)**E("c",2)', '(-E("b",3))**E("c",2)', 'E("a",1)+E("b",2)*E("c",3)', 'E("a",1)<E("b",2)==E("c",true)', 'E("a",3)>E("b",2)>E("c",1)', 'E("a",1)-E("b",2)-E("c",3)', 'E("a","1")+E("b",2)-E("c",3)', 'x=E("1",1)+ +E("2","2")', 'undef1.x', 'undef1()', 'undef1`x`', 'undef1=E("v",1),delete undef1', 'f.call(E("t",1),E("a",2))', 'super_', 'new.target', 'E("o",O("o")).f.g.h', 'this===undefined', 'import.meta'];
    for (const c of calls) for (const st of ['', '"use strict";']) yield { src: `T(()=>{${st} function f(...a){__log("call",a.length);return a} function tag(s,...a){__log(s.join("|"),s.raw.join("|"),a.join());return Object.isFrozen(s)} return ${c}})` };
    // optional chains: every suffix sequence from nullish and object bases
    { const sfx = ['.a', '?.a', '["b"]', '?.["u"]', '(1)', '?.(2)', '.u', '?.u', '?.[L("k")]', '.b`t`'];
      for (const t of seqsUpTo(sfx, tier === 'thorough' ? 5 : 3, 1)) { const ch = t.join(''); if (!/\?/.test(ch)) continue; yield { src: `for(let n of [undefined,null,CH(3),{},5]){T(()=>n${ch});T(()=>delete n${ch});T(()=>(n${ch})());T(()=>(n${ch}).a);T(()=>typeof n${ch});T(()=>n${ch}?.(n${ch}))}` }; } }
    if (tier === 'thorough') {
      const ops2 = ['+', '-', '*', '/', '%', '**', '<', '>=', '==', '===', '&', '|', '<<', '>>>', 'in', 'instanceof', '&&', '||', ','];
      const hs = n => [H(n)[0], H(n)[2], X2(n), V2(n)]; const X2 = n => `X("${n}")`, V2 = n => `V("${n}")`;
      for (const o of ops2) for (const p of ops2) for (const a of hs('a')) for (const b of hs('b')) for (const c of hs('c')) { yield { src: `T(()=>(E("1",${a}) ${o} E("2",${b})) ${p} E("3",${c}))` }; yield { src: `T(()=>E("1",${a}) ${o} (E("2",${b}) ${p} E("3",${c})))` }; }
      const small = ['0', '1', '-1', '2', '1.5', 'NaN', '"1"', '"a"', 'null', 'undefined', 'true', '[]', '3n', '{}'];
      for (const o of bin) for (const p of bin) for (const a of small) for (const b of small) for (const c of ['1', '"b"', '2n', 'undefined', '-3']) yield { src: `T(()=>${P(a)} ${o} ${P(b)} ${p} ${P(c)})` };
    }
  }
};
