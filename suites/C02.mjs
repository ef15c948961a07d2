// Abrupt completions: every nesting of control constructs around every kind of exit.
import { P0, product, seqs } from '../lib/prelude.mjs';
// each construct: body placed inside, d = nesting depth (unique label/variable names)
const W = {
  blk: (b, d) => `L${d}:{L("b${d}");${b};L("e${d}")}`,
  for: (b, d) => `L${d}:for(let i=0;L("t${d}"),i<2;L("u${d}"),i++){${b};L("e${d}"+i)}`,
  forv: (b, d) => `L${d}:for(var v${d}=0;v${d}<2;v${d}++){${b};L("e${d}"+v${d})}`,
  while: (b, d) => `var w${d}=0;L${d}:while(w${d}++<2){${b};L("e${d}")}`,
  do: (b, d) => `var q${d}=0;L${d}:do{${b};L("e${d}")}while(L("t${d}"),q${d}++<1)`,
  forof: (b, d) => `L${d}:for(const x of I("${d}",2)){${b};L("e${d}"+x)}`,
  forofx: (b, d) => `L${d}:for(const x of I("${d}",2,"R${d}")){${b};L("e${d}"+x)}`,
  forofp: (b, d) => `L${d}:for(const x of I("${d}",2,0,1)){${b};L("e${d}"+x)}`,
  arr: (b, d) => `L${d}:for(const x of [5,6]){${b};L("e${d}"+x)}`,
  gen: (b, d) => `L${d}:for(const x of G("${d}")){${b};L("e${d}"+x)}`,
  forin: (b, d) => `L${d}:for(const k in {a:1,b:2}){${b};L("e${d}"+k)}`,
  sw: (b, d) => `L${d}:switch(1){case 0:L("z");case 1:L("s${d}");${b};case 2:L("n${d}");break;default:L("d${d}")}`,
  swd: (b, d) => `L${d}:switch(9){case 0:L("z");default:L("d${d}");${b};case 2:L("n${d}")}L("x${d}")`,
  tryc: (b, d) => `L${d}:try{${b};L("e${d}")}catch(e){L("c${d}");L(e)}`,
  trycn: (b, d) => `L${d}:try{${b};L("e${d}")}catch{L("c${d}")}`,
  catchb: (b, d) => `L${d}:try{throw "t${d}"}catch(e){${b};L(e)}`,
  tryf: (b, d) => `L${d}:try{${b};L("e${d}")}finally{L("f${d}")}`,
  tryfb: (b, d) => `L${d}:try{${b};L("e${d}")}finally{L("f${d}");break}`,
  tryfc: (b, d) => `L${d}:try{${b};L("e${d}")}finally{L("f${d}");continue}`,
  tryfr: (b, d) => `L${d}:try{${b};L("e${d}")}finally{L("f${d}");return "fr${d}"}`,
  tryft: (b, d) => `L${d}:try{${b};L("e${d}")}finally{L("f${d}");throw "ft${d}"}`,
  finr: (b, d) => `L${d}:try{return "r${d}"}finally{${b};L("e${d}")}`,
  fint: (b, d) => `L${d}:try{throw "T${d}"}finally{${b};L("e${d}")}`,
  fint2: (b, d) => `L${d}:try{try{throw "T${d}"}finally{${b};L("e${d}")}}catch(e){L("C${d}");L(e)}`,
  finb: (b, d) => `L${d}:for(const x of I("${d}",2)){try{break}finally{${b};L("e${d}")}}`,
  finc: (b, d) => `L${d}:for(const x of I("${d}",2)){try{continue}finally{${b};L("e${d}")}}`,
  tcf: (b, d) => `L${d}:try{throw "T${d}"}catch(e){${b};L("e${d}")}finally{L("f${d}")}`,
  tcft: (b, d) => `L${d}:try{${b};L("e${d}")}catch(e){L(e);throw ["r",e]}finally{L("f${d}")}`,
  tcfr: (b, d) => `L${d}:try{${b};L("e${d}")}catch(e){L(e);return ["r",e]}finally{L("f${d}")}`,
  with: (b, d) => `L${d}:with({v:1}){${b};L("e${d}")}`,
  let: (b, d) => `L${d}:{let v=${d};const g=()=>v;${b};L(g())}`,
  ifs: (b, d) => `L${d}:if(n++){${b};L("e${d}")}else L("el${d}")`,
  fn: (b, d) => `L((function(){${b};return "fn${d}"})())`,
  arrow: (b, d) => `L([1,2].map(x=>{${b};return x}))`,
};
const names = Object.keys(W);
const acts = D => ['', 'break', 'continue', 'return "R"', 'throw "T"', ...Array.from({ length: D }, (_, i) => [`break L${i + 1}`, `continue L${i + 1}`]).flat()];
const actsC = D => acts(D).filter(Boolean).map(a => `if(n++%2){${a}}`);
const build = (ws, a) => { let b = a; for (let i = ws.length - 1; i >= 0; i--) b = W[ws[i]](b, i + 1); return b; };
export default {
  id: 'C02', level: 'exploration', reset: 400, async: true, variants: ['plain'],
  rule: 'one case = one nesting of constructs with one exit statement inside; all distinct; non-trivial: all that the reference accepts as valid programs',
  prelude: P0 + String.raw`
function I(n,k,rv,prim){var i=0;return{[Symbol.iterator](){return this},next(){L("n"+n);return i<k?{value:i++,done:false}:{value:9,done:true}},return(v){L("r"+n);if(rv)throw rv;return prim?1:{}}}}
function*G(n){try{L("g1"+n);yield 1;L("g2"+n);yield 2;L("g3"+n)}finally{L("gf"+n)}}
`,
  trivial: (c, w) => w.startsWith('!SyntaxError'),
  bounds: {
    quick: `${names.length} constructs nested to depth 2 with every exit, unconditional and at the second visit, in a function, plus depth 3 with unconditional exits; eval completion values of depth 2`,
    thorough: 'depth 3 with both forms of exit in function, generator and async function bodies and eval completion values, depth 4 over a 16-construct subset'
  },
  *gen(tier) {
    const th = tier === 'thorough';
    const wrap = b => ({ src: `var n=0;T(function(){${b};return "end"})` });
    const comp = b => ({ src: `var n=0;T(()=>eval(${JSON.stringify('"s";' + b)}))` });
    for (let D = 1; D <= 2; D++) for (const ws of seqs(names, D)) for (const a of [...acts(D), ...actsC(D)]) {
      const b = build(ws, a); yield wrap(b);
      yield { src: `var n=0;T(function(){${b}})` };
      yield { src: `var n=0;T(function(){var g=(function*(){${build(ws, 'yield 1;' + a)};return "end"})();var r=[],k=0;do{r.push(g.next());}while(k++<6);return r})` };
      yield { src: `var n=0;T(function(){var g=(function*(){${build(ws, 'yield 1;' + a)};return "end"})();var r=[];r.push(g.next());r.push(g.return(7));r.push(g.next());return r})` };
      yield { src: `var n=0;(async function(){${build(ws, 'await 1;' + a)};return "end"})().then(L,e=>{L("rej");L(e)})` };
      if (!/return/.test(a)) yield comp(b.replace(/L\("e(\d)"[^)]*\)/g, '"e$1"'));
    }
    for (const ws of seqs(names, 3)) for (const a of [...acts(3), ...(th ? actsC(3) : [])]) {
      const b = build(ws, a); yield wrap(b);
      if (th) {
        yield { src: `var n=0;T(function(){var g=(function*(){${build(ws, 'yield 1;' + a)};return "end"})();var r=[];r.push(g.next());r.push(g.throw("x"));r.push(g.next());return r})` };
        yield { src: `var n=0;(async function(){${build(ws, 'await 1;' + a)};return "end"})().then(L,e=>{L("rej");L(e)})` };
        if (!/return/.test(a)) yield comp(b.replace(/L\("e(\d)"[^)]*\)/g, '"e$1"'));
      }
    }
    if (th) {
      const sub = ['blk', 'for', 'forof', 'gen', 'sw', 'tryc', 'catchb', 'tryf', 'tryfc', 'fint2', 'finb', 'tcft', 'let', 'do'];
      for (const ws of seqs(sub, 4)) for (const a of acts(4)) yield wrap(build(ws, a));
    }
    // empty and value-carrying statements: completion values
    const st = ['1', ';', '{}', '{2}', 'var a=1', 'let z=1', 'function f(){}', 'class K{}', 'if(0)3', 'if(1)4', 'if(1);else 5', 'do 6;while(0)', 'while(0)7', 'for(;0;)8', 'for(var k in {a:1})9', 'for(var k of [1])10', 'for(var k of [])10', 'try{11}finally{12}', 'try{throw 1}catch{13}', 'try{throw 1}catch{}finally{14}', 'switch(1){case 1:15}', 'switch(1){case 1:15;break}', 'switch(1){}', 'l:{16;break l}', 'l:{break l}', 'do{17;break}while(1)', 'do{18;continue}while(0)', 'with({})19', 'with({});', 'debugger', 'l:20', 'do{21;l:{break}}while(1)', 'for(var i=0;i<2;i++){if(i)break;22}', 'for(var i=0;i<2;i++){23;if(i){24;continue}}', 'do{25;try{26;break}finally{27}}while(0)', 'do{25;try{break}finally{27}}while(0)', 'do{25;try{26}finally{27;break}}while(0)', 'do{25;try{26;continue}finally{}}while(0)', 'do{28;switch(1){case 1:29;break;case 2:30}}while(0)', 'do{31;switch(1){case 1:32;continue;case 2:33}}while(0)', 'var b=2', '"use strict"'];
    for (const a of st) for (const b of ['', ...st]) for (const c of ['', ...(th ? st : ['1', '{}', 'if(0)3'])]) yield { src: `T(()=>eval(${JSON.stringify([a, b, c].join(';\n'))}))` };
  }
};
