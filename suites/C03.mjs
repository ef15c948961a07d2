// Scopes and bindings: declaration kinds of one name at several levels x kinds of use.
import { P0, product, seqs } from '../lib/prelude.mjs';
const V = (k, d) => ({ none: '', var: `var x=${d};`, varn: 'var x;', let: `let x=${d};`, letn: 'let x;', const: `const x=${d};`, cls: `class x{static v=${d}};`, fn: `function x(){return ${d}};`, gen: `function*x(){};`, afn: `async function x(){};`, evar: `eval("var x=${d}");`, elet: `eval("let x=${d}");`, efn: `eval("function x(){return ${d}}");`, blkfn: `{function x(){return ${d}}};`, blkvar: `{var x=${d}};`, forvar: `for(var x=${d};0;);`, swfn: `switch(1){case 1:function x(){return ${d}}};`, dvar: `var [x]=[${d}];`, dlet: `let {x}={x:${d}};`, nfe: `(function x(){R();W()})();` }[k]);
const kinds = ['none', 'var', 'varn', 'let', 'letn', 'const', 'cls', 'fn', 'gen', 'afn', 'evar', 'elet', 'efn', 'blkfn', 'blkvar', 'forvar', 'swfn', 'dvar', 'dlet', 'nfe'];
const short = ['none', 'var', 'let', 'const', 'cls', 'fn', 'evar', 'efn', 'blkfn', 'varn'];
const read = 't(()=>x);', tof = 't(()=>typeof x);', wr = d => `t(()=>{x=${d};return x});`, del = 't(()=>delete x);', ev = 't(()=>eval("typeof x"));';
const uses = d => [read, wr(d), tof + del + tof, ev, `t(()=>{var f=()=>x;return f()});`, `t(()=>x++);` + tof];
// scopes that contain an inner part
const S = {
  fn: (b, d) => `(function(){${b}})();`,
  fnp: (b, d) => `(function(x){${b}})(${d}7);`,
  fnd: (b, d) => `(function(x=${d}8,y=()=>x){${b};t(y)})();`,
  fndv: (b, d) => `(function(y=()=>x,x=${d}8){${b};t(y)})();`,
  fnde: (b, d) => `(function(y=eval("var x=${d}6"),z=()=>x){${b};t(z)})();`,
  nfe: (b, d) => `(function x(){${b}})();`,
  arrow: (b, d) => `((x)=>{${b}})(${d}5);`,
  blk: (b, d) => `{${b}}`,
  catch: (b, d) => `try{throw ${d}4}catch(x){${b}}`,
  catchd: (b, d) => `try{throw {x:${d}4}}catch({x}){${b}}`,
  with: (b, d) => `with({x:${d}3}){${b}}`,
  withu: (b, d) => `with({x:${d}3,[Symbol.unscopables]:{x:true}}){${b}}`,
  forlet: (b, d) => `for(let x=${d}1,n_=0;n_++<3&&x<${d}3;x++){${b};if(typeof x!="number")break}`,
  forof: (b, d) => `for(const x of [${d}1,${d}2]){${b}}`,
  forin: (b, d) => `for(var x in {p${d}:1}){${b}}`,
  sw: (b, d) => `switch(0){case 1:let q;default:${b}}`,
  evald: (b, d) => `eval(${JSON.stringify(b)});`,
  evali: (b, d) => `(0,eval)(${JSON.stringify(b)});`,
  cls: (b, d) => `class x{static{${b}}};`,
  method: (b, d) => `({x(){${b}}}).x();`,
  gen: (b, d) => `[...(function*(){${b};yield 1})()];`,
  Fn: (b, d) => `Function(${JSON.stringify(b)})();`,
};
const SN = Object.keys(S);
// Annex B.3 (functions in sloppy blocks, var redeclaring a catch parameter) is optional and not implemented: such programs are left out.
const BLK = new Set(['blk', 'catch', 'catchd', 'with', 'withu', 'forlet', 'forof', 'forin', 'sw']);
const VARS = new Set(['var', 'varn', 'blkvar', 'forvar', 'dvar']);
const ok = (strict, scopes, k) => {
  let blk = false, cx = false, ce = false, fo = false;
  for (const s of scopes) {
    if (s === 'evali' || s === 'Fn') { strict = blk = cx = ce = fo = false; continue; }
    if (s === 'forin' && cx) return false;
    if (s === 'evald') { blk = false; if (cx) ce = true; continue; }
    if (BLK.has(s)) { blk = true; if (s === 'catch') cx = true; if (s === 'forof' || s === 'forlet' || s === 'catchd') fo = true; } else { blk = cx = ce = fo = false; if (s === 'cls') strict = true; }
  }
  if (k === 'fn' && blk && !strict) return false;
  if ((k === 'blkfn' || k === 'swfn') && !strict) return false;
  if (ce && (k === 'fn' || k === 'gen' || k === 'afn')) return false;
  if (fo && scopes.includes('cls') && (VARS.has(k) || k === 'nope')) return false; // V8 overlooks this early error in static blocks
  if (cx && (VARS.has(k) || (!strict && (k === 'evar' || k === 'efn')))) return false;
  return true;
};
const clean = (strict, parts) => parts.every(([sc, k]) => ok(strict, sc, k));
const pre = 'globalThis.t=function(f){try{var v=f();__log(typeof v=="function"?"F:"+v.name+":"+(v.v===undefined?"":v.v):String(v))}catch(e){__log("!"+(e&&e.name||e))}};globalThis.R=function(){};globalThis.W=function(){};';
const run = b => ({ src: `try{delete globalThis.x}catch(e){};try{(function(){${b}})()}catch(e){__log("!!"+e.name)}` });
// ---- model of a global environment record restricted to the name x (ECMA-262 9.1.1.4, 16.1.7, 19.2.1.3) ----
const SYN = 'SyntaxError', TYP = 'TypeError', REF = 'ReferenceError';
const obj = st => st.prop;
function setProp(st, v, strict) { // OrdinarySet on the global object
  const p = st.prop;
  if (!p) { if (!st.ext) return strict ? TYP : 0; st.prop = { v, w: true, e: true, c: true }; return 0; }
  if (p.g) return strict ? TYP : 0;
  if (!p.w) return strict ? TYP : 0;
  p.v = v; return 0;
}
function assign(st, v, strict) {
  if (st.lex) { if (!st.lex.init) return REF; if (st.lex.kind === 'const') return TYP; st.lex.v = v; return 0; }
  if (!st.prop && strict) return REF;
  return setProp(st, v, strict);
}
const canVar = st => !!st.prop || st.ext;
const canFn = st => { const p = st.prop; if (!p) return st.ext; if (p.c) return true; return !p.g && p.w && p.e; };
function mkVar(st, D) { if (!st.prop && st.ext) st.prop = { v: undefined, w: true, e: true, c: D }; st.varn = true; }
function mkFn(st, v, D) { const p = st.prop; if (!p || p.c) st.prop = { v, w: true, e: true, c: D }; else p.v = v; st.varn = true; }
const lexErr = st => (st.varn || st.lex || (st.prop && !st.prop.c)) ? SYN : 0;
const lexDecl = (kind, v, thr, init = true) => st => { const e = lexErr(st); if (e) return e; st.lex = { kind, init: !thr && init, v }; return thr || 0; };
const varDecl = (v, D) => st => { if (st.lex) return SYN; if (!canVar(st)) return TYP; mkVar(st, D); return v === undefined ? 0 : assign(st, v); };
const fnDecl = (v, D) => st => { if (st.lex) return SYN; if (!canFn(st)) return TYP; mkFn(st, v, D); return 0; };
const F = n => 'F' + n;
const define = d => st => { const p = st.prop; if (!p) { if (!st.ext) return TYP; st.prop = { v: undefined, w: false, e: false, c: false, ...d }; return 0; }
  if (!p.c) { if (d.c || ('e' in d && d.e !== p.e) || (d.g && !p.g) || (p.g && !d.g)) return TYP; if (!p.g) { if (!p.w && (d.w || ('v' in d && d.v !== p.v))) return TYP; } else if (d.g) return TYP; }
  if (d.g) st.prop = { g: true, e: p.e, c: p.c, ...d }; else st.prop = { v: undefined, w: false, ...(p.g ? { e: p.e, c: p.c } : p), ...d }; return 0; };
const gdel = st => { if (st.prop && !st.prop.c) return false; st.prop = null; return true; };
const d1 = f => { f.d = 1; return f; };
const GOPS = {
  'var x=1': d1(varDecl(1, false)), 'var x': d1(varDecl(undefined, false)), 'let x=2': d1(lexDecl('let', 2)), 'const x=3': lexDecl('const', 3), 'class x{}': lexDecl('let', 'F:x'),
  'function x(){return 4}': d1(fnDecl('F4', false)), 'x=5': d1(st => assign(st, 5)), '"use strict";x=14': st => assign(st, 14, true),
  'Object.defineProperty(globalThis,"x",{value:6,configurable:true})': define({ v: 6, c: true }), 'Object.defineProperty(globalThis,"x",{value:6})': d1(define({ v: 6 })),
  'Object.defineProperty(globalThis,"x",{get(){return 7},configurable:true})': define({ g: true, c: true, v: 7, w: undefined }), 'Object.defineProperty(globalThis,"x",{value:8,writable:true,enumerable:true})': define({ v: 8, w: true, e: true }),
  'globalThis.x=9': st => setProp(st, 9), 'delete globalThis.x': d1(st => { gdel(st); return 0; }), 'delete x': d1(st => { if (st.lex) return 0; if (!st.prop) return 0; if (gdel(st)) st.varn = false; return 0; }),
  '(0,eval)("var x=10")': varDecl(10, true), 'eval("var x")': varDecl(undefined, true), '(0,eval)("let x=11")': () => 0, '(0,eval)("function x(){}")': fnDecl('F', true), 'eval("throw 1;var x")': st => { if (st.lex) return SYN; if (!canVar(st)) return TYP; mkVar(st, true); return '1'; },
  'Object.preventExtensions(globalThis)': d1(st => { st.ext = false; return 0; }), 'throw 1;let x': lexDecl('let', undefined, '1'), 'let x=x': lexDecl('let', undefined, REF), 'let x': lexDecl('let', undefined), 'throw 1;var x': st => { const r = varDecl(undefined, false)(st); return r || '1'; },
  'throw 1;function x(){}': st => fnDecl('F', false)(st) || '1', 'let [x,x2]=[1,2]': st => { if (st.x2) return SYN; const e = lexErr(st); if (e) return e; st.lex = { kind: 'let', init: true, v: 1 }; st.x2 = true; return 0; }, '{let x=13}': () => 0,
  'x++': st => { if (st.lex) { if (!st.lex.init) return REF; const v = num(st.lex.v); if (st.lex.kind === 'const') return TYP; st.lex.v = v + 1; return 0; } if (!st.prop) return REF; return setProp(st, num(st.prop.v) + 1); },
  'var x;let x': () => 'P', 'var y1;function x(){};let x': () => 'P', 'let x;throw 2': st => { const e = lexErr(st); if (e) return e; st.lex = { kind: 'let', init: true, v: undefined }; return '2'; }
};
const num = v => typeof v === 'number' ? v : NaN;
const GCHK = 't(()=>x);t(()=>globalThis.x);t(()=>{var d=Object.getOwnPropertyDescriptor(globalThis,"x");return d?[d.writable,d.enumerable,d.configurable]:d});t(()=>typeof x);t(()=>{x=99;return x});t(()=>delete globalThis.x);t(()=>delete x);t(()=>Object.isExtensible(globalThis))';
const show = v => typeof v === 'string' ? 'F:x:' : String(v);
const typ = v => typeof v === 'string' ? 'function' : typeof v;
function glCheck(st0) {
  const st = structuredClone(st0); let o = '';
  const get = () => st.lex ? (st.lex.init ? show(st.lex.v) : '!' + REF) : st.prop ? show(st.prop.v) : '!' + REF;
  o += get() + ';'; o += (st.prop ? show(st.prop.v) : 'undefined') + ';';
  o += (st.prop ? [st.prop.g ? undefined : st.prop.w, st.prop.e, st.prop.c].join() : 'undefined') + ';';
  o += (st.lex ? (st.lex.init ? typ(st.lex.v) : '!' + REF) : st.prop ? typ(st.prop.v) : 'undefined') + ';';
  const r = assign(st, 99); o += (r ? '!' + r : get()) + ';';
  o += gdel(st) + ';';
  o += (st.lex ? false : st.prop ? gdel(st) : true) + ';';
  return o + st.ext + ';';
}
export default {
  id: 'C03', level: 'exploration', reset: 300, variants: ['plain', 'nocache'],
  rule: 'one case = one program declaring the name x at one to three levels and using it; all distinct; non-trivial: programs the reference accepts',
  prelude: P0 + pre,
  norm: s => s.replace(/^!!SyntaxError;$/, '!SyntaxError;'),
  trivial: (c, w) => w.startsWith('!SyntaxError'),
  bounds: {
    quick: `${kinds.length} declaration kinds x ${SN.length} scopes x 2 levels x uses before, after and inside; per-iteration closures; parameter scopes; two-script global declaration conflicts`,
    thorough: 'the same with three scope levels and strict mode everywhere'
  },
  *gen(tier) {
    const th = tier === 'thorough';
    // level-1 declaration, then a scope with an inner declaration, uses everywhere
    for (const st of ['', '"use strict";']) for (const o of kinds) for (const s of SN) for (const i of kinds) for (const pos of [0, 1]) {
      if (st && (s === 'with' || s === 'withu') || !clean(!!st, [[[], o], [[s], i]])) continue;
      const inner = pos ? `${V(i, 2)}${uses(9).slice(0, 4).join('')}` : `${uses(9).slice(0, 3).join('')}${V(i, 2)}${read}${tof}`;
      yield run(`${st}${pos ? V(o, 1) : ''}${read}${S[s](inner, 6)}${read}${pos ? '' : V(o, 1)}${read}`);
    }
    for (const o of kinds) for (const u of uses(9)) for (const v of uses(8)) for (const st of ['', '"use strict";']) { if (!ok(!!st, [], o)) continue; yield run(`${st}${u}${V(o, 1)}${v}${u}`); if (ok(!!st, ['blk'], o)) yield run(`${st}{${u}${V(o, 1)}${v}}${u}`); yield run(`${st}var f=()=>{${u}${v}};t(f);${V(o, 1)};f()`); yield run(`${st}t(()=>{var f=function(){${u}${v}};${V(o, 1)}f();return typeof x});${u}`); }
    // pairs of declarations in one scope (conflicts)
    for (const st of ['', '"use strict";']) for (const a of kinds) for (const b of kinds) {
      const on = sc => ok(!!st, sc, a) && ok(!!st, sc, b), blk = on(['blk']);
      if (on([])) { yield run(`${st}${V(a, 1)}${V(b, 2)}${read}${tof}`); yield run(`${st}(function(x){${V(a, 1)}${V(b, 2)}${read}})(5)`); yield run(`${st}(function(x=3){${V(a, 1)}${V(b, 2)}${read}})()`); }
      if (blk) { yield run(`${st}{${V(a, 1)}${V(b, 2)}${read}${tof}};${tof}`); yield run(`${st}{${V(a, 1)}{${V(b, 2)}${read}};${read}};${tof}`); yield run(`${st}switch(1){case 0:${V(a, 1)}case 1:${V(b, 2)}${read}${tof}};${tof}`); yield run(`${st}switch(1){case 1:${V(a, 1)}break;case 2:${V(b, 2)}};${tof}`); }
      if (on(['catch'])) yield run(`${st}try{throw 5}catch(x){${V(a, 1)}${V(b, 2)}${read}};${tof}`);
      if (on(['catchd'])) yield run(`${st}try{throw [5]}catch([x]){${V(a, 1)}${V(b, 2)}${read}};${tof}`);
    }
    // two-level nesting of scopes
    const inn = th ? kinds : short;
    for (const s1 of SN) for (const s2 of SN) for (const o of short) for (const i of inn) for (const st of s1 === 'with' || s2 === 'with' || s1 === 'withu' || s2 === 'withu' ? [''] : ['', '"use strict";']) if (clean(!!st, [[[], o], [[s1, s2], i]]) && (!st || ['fn', 'evar', 'efn', 'blkfn', 'cls'].includes(i))) yield run(`${st}${V(o, 1)}${S[s1](S[s2](`${tof}${V(i, 2)}${read}${wr(9)}`, 7) + read, 6)}${read}`);
    if (th) for (const s1 of SN) for (const s2 of SN) for (const s3 of SN) for (const i of ['none', 'var', 'let', 'fn', 'evar', 'efn']) for (const o of ['none', 'let', 'var']) if (clean(false, [[[], o], [[s1, s2, s3], i]])) yield run(`${V(o, 1)}${S[s1](S[s2](S[s3](`${tof}${V(i, 2)}${read}${wr(9)}`, 8) + tof, 7) + read, 6)}${read}`);
    // captured variables: which invocation's / iteration's binding
    const caps = ['fs.push(()=>x)', 'fs.push(()=>x++,()=>x)', 'fs.push(()=>eval("x"))', 'fs.push(()=>(x=x+10),()=>x)', 'x++;fs.push(()=>x)', 'fs.push(()=>x);x++', 'fs.push(function(){return x})', 'fs.push({get g(){return x}}.__lookupGetter__("g"))'];
    const loops = ['for(let x=0;x<3;x++){@}', 'for(let x=0,y=(fs.push(()=>x),1);x<2;x++){@}', 'for(let x=0;fs.push(()=>x),x<2;x++){@}', 'for(let x=0;x<2;fs.push(()=>x),x++){@}', 'for(var x=0;x<3;x++){@}', 'for(let x of [1,2,3]){@}', 'for(const x of [1,2]){@}', 'for(let x in {1:1,2:2}){@}', 'for(let [x] of [[1],[2]]){@}', 'for(let x=0;x<3;x++){let y=x;{let x=y;@}}', 'for(let x=0;x<3;x++){if(x==1)continue;@}', 'for(let x=0;x<5;x++){if(x==2)break;@}', 'for(let x=0;x<2;x++)for(let y=x;y<2;y++){@;fs.push(()=>y)}', 'for(let x=0;x<2;x++){(function(){@})()}', 'for(let x=0;x<3;){x++;@}', 'for(let x=0;x<2;x++){try{@}finally{}}', 'for(let x=0;x<2;x++){eval("@")}', 'for(let x=0;x<2;x++){with({}){@}}', 'for(let x=0;x<3;x++)switch(x){case 1:@}', '(function f(x){if(x>2)return;@;f(x+1)})(0)', '(function f(x){if(x>2)return 0;@;return f(x+1)})(0)', '(function f(x){"use strict";if(x>2)return 0;@;return f(x+1)})(0)', '(function f(x){if(x>2)return 0;let y=x;fs.push(()=>y);return f(x+1)})(0)', '(function f(n){if(n>2)return 0;let x=n;{@}return f(n+1)})(0)', '(function f(n){if(n>2)return 0;var x=n*2;@;return f(n+1)})(0)', '(function f(n,g){let x=n;if(n>3)return g();return f(n+1,n==1?()=>{@;return x}:g)})(0)', '[1,2].forEach(x=>{@})', 'for(let x=0;x<2;x++){fs.push(function*(){yield x}().next)}', 'var x=0;do{let x=fs.length;@}while(x++<2)', 'l:for(let x=0;x<3;x++){for(;;){@;continue l}}', '(function(x){arguments[0]=7;@})(1)', '(function(x,y=()=>x){var x;x=5;@;fs.push(y)})(1)', '(function(x,y=()=>x){var x=5;@;fs.push(y)})(1)', '(function(x,y=()=>{x=9}){var x;y();@})(1)', '(function(x,y=()=>{x=9}){y();@})(1)', 'class x{static m(){return 1}};fs.push(()=>x.m())', 'let x=1;{@};x=2', 'try{throw 3}catch(x){@}', 'try{throw 3}catch(x){{let x=4;@}@}'];
    for (const l of loops) for (const c of caps) for (const st of ['', '"use strict";']) yield run(`${st}var fs=[];${l.replaceAll('@', c)};__log(fs.map(f=>{try{var r=f();return typeof r=="object"?"o":r}catch(e){return e.name}}).join());__log(fs.map(f=>{try{var r=f();return typeof r=="object"?"o":r}catch(e){return e.name}}).join())`);
    // temporal dead zone and initialisation order
    const tdz = ['let x=x', 'let x=(()=>x)()', 'const x=typeof x', 'let x=eval("x")', 'class x extends x{}', 'class x{[x]=1}', 'class x{static a=x.name}', 'class x{static{t(()=>x.name)}}', 'let [x=x]=[]', 'let {x=y,y}={}', 'let {[x]:x}={}', 'let [y=x,x]=[]', 'let y=x,x=1', 'for(let x of x);', 'for(let x of [x]);', 'for(const x in {a:x});', 'for(let x=x;;)break;', 'for(let [x=x] of [[]]);', '(function(x=x){})()', '(function(x=y,y){})()', '(function(y,x=y){t(()=>x)})(4)', '(function(x=(()=>x)()){})()', '(function(x=()=>x){t(()=>x===x())})()', 'switch(1){case 0:let x=1;default:t(()=>x)}', 'switch(x){case 0:let x}', 'let f=()=>x;t(f);let x=3;t(f)', 'x=1;let x', 'typeof x;let x', 'delete x;let x', 'x();function x(){return 1}', 'x();let x=()=>1', 'var x=x;t(()=>x)', 'try{x}finally{let x}', 'function f(){return x}t(f);const x=4;t(f)', 'const x;', 'let x=1;const x=2', 'const x=1;x=2', 'const x=1;x++', 'const x=1;t(()=>{x+=1});t(()=>{[x]=[1]});t(()=>{({x}={x:2})});t(()=>{for(x of [1]);});t(()=>{for(x in {a:1});});t(()=>eval("x=3"));t(()=>x)', 'const x=1;for(const x of [2])t(()=>{x=3})', 'for(const x=0;x<1;x++);', 'class x{};x=1;t(()=>x)', 'class x{m(){x=1}};t(()=>new x().m())', '(function x(){x=1;t(()=>typeof x)})()', '(function x(){"use strict";x=1})()', '(function x(){var x;t(()=>x)})()', '(function x(x){t(()=>x)})()', '(function x(){let x=2;t(()=>x)})()', '(function x(){eval("var x=1");t(()=>typeof x)})()', '(class x{static m(){x=1}}).m()', 'import_', 'var undefined', 'let undefined', 'undefined=1;t(()=>undefined)', 'var NaN=1;t(()=>NaN)', '"use strict";NaN=1', '"use strict";undefined=1', '"use strict";zz=1', 'zz=1;t(()=>delete zz)', 'var arguments=3;t(()=>arguments)', 'var arguments;t(()=>typeof arguments)', 'let arguments=3;t(()=>arguments)', 'function arguments(){};t(()=>typeof arguments)', '(function(arguments){t(()=>arguments)})(2)', '(function(a=arguments){t(()=>a.length)})(undefined,2)', '(function(a=()=>arguments){var arguments;t(()=>typeof arguments);t(()=>a().length)})()', '(function(a=()=>arguments){var arguments=1;t(()=>typeof arguments);t(()=>a().length)})()', '(()=>{t(()=>typeof arguments)})()', 'eval("var arguments=1");t(()=>arguments)', '(function(a=eval("var b=1")){t(()=>b)})()', '(function(a=eval("var b=1"),b){t(()=>b)})()', '(function(a=eval("1"),b=a){let a2;t(()=>b)})()', 'let async=1;t(()=>async)', 'var let_=1', 'var let=1;t(()=>let)', 'var yield=1;t(()=>yield)', 'var await=1;t(()=>await)', 'var of=1;for(of of [2]);t(()=>of)', 'var static=1;t(()=>static)', 'var get=1,set=2;t(()=>get+set)'];
    for (const c of tdz) for (const st of ['', '"use strict";']) { yield run(`${st}t(()=>{${c}})`); yield run(`${st}${c};t(()=>typeof x)`); yield { src: `${st}try{eval(${JSON.stringify(st + c + ';t(()=>typeof x)')})}catch(e){__log(e.name)}` }; yield { src: `try{(0,eval)(${JSON.stringify(st + c + ';t(()=>typeof x)')})}catch(e){__log(e.name)};t(()=>delete globalThis.x)` }; }
    // with objects: unscopables, proxies, mutation during access
    const W = ['with(o){x=5}', 'with(o){t(()=>x)}', 'with(o){var x=6}', 'with(o){let x=7;t(()=>x)}', 'with(o){t(()=>typeof x)}', 'with(o){t(()=>delete x)}', 'with(o){x++}', 'with(o){t(()=>f_f())}', 'with(o){(function(){x=8})()}', 'with(o){eval("var x=9")}', 'with(o){eval("x=9")}', 'with(o){for(var x of [1,2]);}', 'with(o){({x}={x:3})}', 'with(o){[x]=[4]}', 'with(o)with({x:11})x=12', 'with(o){t(()=>x`a`)}', 'with(o){x&&=3}', 'with(o){x??=3}', 'with(o){typeof nope}', 'with(o){nope=1}'];
    const O = ['{x:1}', '{}', '{__proto__:{x:1}}', '{get x(){__log("g");return 1},set x(v){__log("s"+v)}}', '{f_f(){return this===o}}', '{x:1,[Symbol.unscopables]:{x:1}}', '{x:1,[Symbol.unscopables]:{x:0}}', '{x:1,get [Symbol.unscopables](){__log("u")}}', 'new Proxy({x:1},{has(t,k){return k in t},get(t,k,r){__log("g"+String(k));return t[k]},set(t,k,v){__log("s"+String(k));t[k]=v;return true},deleteProperty(t,k){__log("d"+String(k));return delete t[k]},getOwnPropertyDescriptor(t,k){__log("o"+String(k));return Reflect.getOwnPropertyDescriptor(t,k)},defineProperty(t,k,d){__log("p"+String(k));return Reflect.defineProperty(t,k,d)}})', 'Object.freeze({x:1})', '[1]', '"str"', 'null', 'function(){}'];
    for (const w of W) for (const o of O) if (!(/__log\("[ug]/.test(o) && /x\+\+|&&=|\?\?=|=x`|typeof x/.test(w))) for (const d of ['', 'var x=100;', 'let x=100;']) yield run(`${d}var o=${o};try{${w}}catch(e){__log("!"+(e.name||e))};t(()=>typeof x);t(()=>o.x)`);
    // global declarations over several scripts: the explicit-state model of the global environment record below
    const G = Object.keys(GOPS);
    const depth = th ? 4 : 3;
    const rec = function* (parts, st, log) {
      const fin = glCheck(st);
      yield { kind: 'S', parts: [...parts, ['', GCHK]], want: log + (parts.length ? '|' : '') + fin };
      if (parts.length === depth) return;
      for (const g of parts.length === depth - 1 ? G.filter(x => GOPS[x].d === 1) : G) { const s2 = structuredClone(st); const r = GOPS[g](s2); yield* rec([...parts, ['', g]], s2, log + (parts.length ? '|' : '') + (r === 'P' ? '!SyntaxError;' : r ? '!throw ' + r + ';' : '')); }
    };
    yield* rec([], { lex: null, prop: null, ext: true, varn: false }, '');
    for (const [a, w] of [['var undefined;t(()=>1)', '1;'], ['var NaN=1;t(()=>NaN)', 'NaN;'], ['let undefined', '!throw SyntaxError;'], ['function undefined(){}', '!throw TypeError;'], ['function NaN(){}', '!throw TypeError;'], ['let NaN', '!throw SyntaxError;'], ['let Array=1;t(()=>Array);t(()=>typeof globalThis.Array)', '1;function;'], ['class Array{};t(()=>typeof globalThis.Array)', 'function;'], ['var Array=1;t(()=>globalThis.Array)', '1;'], ['const globalThis=3;t(()=>globalThis)', '3;']]) yield { kind: 'S', parts: [['', a]], want: w };
  }
};
