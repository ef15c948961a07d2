// Strings: every String method, String objects, templates, on words that mix ASCII, surrogates and case-changing characters.
import { P0, product, seqs, seqsUpTo } from '../lib/prelude.mjs';
const E = s => '"' + [...Array(s.length).keys()].map(i => { const c = s.charCodeAt(i); return c < 127 && c > 31 && c !== 34 && c !== 92 ? s[i] : '\\u' + c.toString(16).padStart(4, '0'); }).join('') + '"';
const words = (al, n, from = 0) => [...seqsUpTo(al, n, from)].map(w => w.join(''));
const HI = '\ud83d', LO = '\ude00';
const chunk = function* (l, k) { for (let i = 0; i < l.length; i += k) yield l.slice(i, i + k); };
const posL = ['', 'undefined', '0', '-0', '1', '2', '3', '4', '-1', '-2', '-4', 'NaN', 'Infinity', '-Infinity', '1.9', '-0.9', '"1"', '"x"', 'null', 'true', '2147483648', '4294967296', '4294967297', '-4294967295', '9007199254740991', 'VO(2)', '[1]', '1e21'];
const bad = ['TH()', 'Y', '1n', '{toString(){return {}},valueOf(){return {}}}', 'Object.create(null)'];
const recv = ['undefined', 'null', '5', 'true', 'Y', '{}', '[1,2]', '{toString(){return "ab"}}', 'TH()', '12n', 'new String("ab")', 'function f(){}', '-0', '1e21', 'Object.create(null)', '{[Symbol.toPrimitive](h){L(h);return "pp"}}', '/r/g'];
const meths = ['at', 'charAt', 'charCodeAt', 'codePointAt', 'concat', 'endsWith', 'includes', 'indexOf', 'lastIndexOf', 'normalize', 'padEnd', 'padStart', 'repeat', 'slice', 'split', 'startsWith', 'substring', 'toLowerCase', 'toUpperCase', 'trim', 'trimEnd', 'trimStart', 'match', 'matchAll', 'replace', 'replaceAll', 'search', 'toString', 'valueOf', 'toLocaleLowerCase', 'toLocaleUpperCase', 'localeCompare'];
const casing = [0x41, 0x5a, 0x61, 0x7a, 0xb5, 0xc0, 0xd7, 0xdf, 0xe0, 0xf7, 0xff, 0x100, 0x130, 0x131, 0x149, 0x17f, 0x1c4, 0x1c5, 0x1c6, 0x1f0, 0x345, 0x390, 0x3a3, 0x3b0, 0x3c2, 0x3c3, 0x587, 0x10a0, 0x13a0, 0x1c80, 0x1c90, 0x1e96, 0x1e9e, 0x1f50, 0x1f80, 0x1f88, 0x1fb3, 0x1fb7, 0x1ffc, 0x2126, 0x212a, 0x2160, 0x24d0, 0x2c00, 0xa640, 0xab70, 0xfb00, 0xfb03, 0xfb13, 0xff21, 0xd801, 0xdc00, 0x10400, 0x10428, 0x1e900, 0x1f600];
export default {
  id: 'C17', title: 'String', reset: 300,
  rule: 'one case = one subject string under one method with a group of arguments, one operation history over strings, or one literal; all distinct; non-trivial: every case',
  prelude: P0 + String.raw`
var Y=Symbol("Y");function VO(v){return{valueOf(){L("v");return v}}} function TO(v){return{toString(){L("s");return v}}} function TH(){return{toString(){throw "TH"},valueOf(){throw "TH"}}}
function Q(v){if(typeof v!=="string")return Array.isArray(v)?"["+v.map(Q).join(",")+"]":v&&typeof v==="object"?__S(v):__S(v);var o="'";for(var i=0;i<v.length;i++){var c=v.charCodeAt(i);o+=c<127&&c>31?String.fromCharCode(c):"\\u"+c.toString(16)+";"}return o+"'"}
function A(s,m,l){var o="";for(var i=0;i<l.length;i++){try{o+=Q(s[m].apply(s,l[i]))+" "}catch(e){o+=__E(e)+" "}}__log(o)}
function QT(f){try{__log(Q(f()))}catch(e){__log(__E(e))}}
`,
  bounds: {
    quick: 'subjects: all words of length <= 3 over 5 code units (with an unpaired and paired surrogates); all argument words of length <= 2; all position pairs; every case mapping in the BMP in blocks; operation histories of length <= 3',
    thorough: 'subjects of length <= 5, argument words of length <= 3, all code points for case mapping, normalization and trimming; histories of length <= 4'
  },
  * gen(tier) {
    const th = tier === 'thorough';
    const A5 = ['a', 'b', HI, LO, '\u00e9'], subj = words(A5, th ? 5 : 3), args = words(['a', 'b', HI, LO], th ? 3 : 2);
    const AL = args.map(E);
    const ms = ['indexOf', 'lastIndexOf', 'includes', 'startsWith', 'endsWith', 'split', 'concat', 'localeCompareX', 'replaceX', 'replaceAllX'];
    for (const s of subj) {
      const S = E(s);
      for (const m of ['indexOf', 'lastIndexOf', 'includes', 'startsWith', 'endsWith', 'split', 'concat', 'search0']) if (m !== 'search0') yield { src: `A(${S},"${m}",[${AL.map(a => `[${a}]`)}])`, cls: m };
      yield { src: `A(${S},"replace",[${AL.map(a => `[${a},"<$&$1$\`$'$$>"]`)}]);A(${S},"replaceAll",[${AL.map(a => `[${a},"<$&$\`$'$$$0$<x>>"]`)}])`, cls: 'replace' };
      if (s.length <= 3) for (const m of ['indexOf', 'lastIndexOf', 'includes', 'startsWith', 'endsWith', 'split']) yield { src: `A(${S},"${m}",[${words(['a', HI, LO], 1).flatMap(a => ['0', '1', '2', '-1', '5', 'NaN', 'undefined', 'Infinity', '-Infinity', '2147483648', '4294967296', '4294967295'].map(p => `[${E(a)},${p}]`))}])`, cls: m };
      const P = ['0', '1', '2', '3', '4', '-1', '-2', '-4', 'undefined', 'NaN', 'Infinity', '-Infinity'];
      if (s.length <= 4) for (const m of ['slice', 'substring']) yield { src: `A(${S},"${m}",[${P.flatMap(p => P.map(q => `[${p},${q}]`))}])`, cls: m };
      yield { src: `for(var m of ["at","charAt","charCodeAt","codePointAt"])A(${S},m,[[],[0],[1],[2],[3],[4],[5],[-1],[-2],[-5],[NaN],[Infinity],["1"]]);var o="";for(var c of ${S})o+=Q(c);__log(o);__log(Q([...${S}]),Q(Object.keys(${S})),Q(Array.from(${S},c=>c+1)));A(${S},"repeat",[[0],[1],[2],[3]]);A(${S},"padStart",[[0],[3],[4,"xy"],[5,""],[5,"${E(HI).slice(1, -1)}"],[6,"abc"]]);A(${S},"padEnd",[[0],[3],[4,"xy"],[5,""],[5,"abc"],[6,undefined]]);A(${S},"toUpperCase",[[]]);A(${S},"toLowerCase",[[]]);A(${S},"normalize",[[],["NFC"],["NFD"],["NFKC"],["NFKD"]])`, cls: 'basic' };
      yield { src: `__log(Q([${S}.length,${S}==${S}.slice(0),${S}<"b",${S}<"\\ud83d\\udc00",${S}>"a",${S}>="\\ude00",JSON.stringify(${S}),encodeURIComponent(${S}.replace(/[\\ud800-\\udfff]/g,""))]));var o={};o[${S}]=1;o[${S}+""]=2;o[["",${S}].join("")]=3;__log(Q(Object.keys(o)));var q={[${S}]:7};__log(q[${S}],Object.keys(q)[0]===${S},new Map([[${S},5]]).get(${S}.slice(0,1)+${S}.slice(1)),Symbol.for(${S})===Symbol.for(${S}.concat("")))`, cls: 'keys' };
    }
    // order
    for (const s of chunk(subj.filter(x => x.length <= 3), 40)) yield { src: `var w=[${s.map(E)}],o="";for(var x of w)for(var y of w)o+=x<y?1:x>y?2:x===y?3:4;__log(o)`, cls: 'order' };
    // positions of every kind
    for (const m of ['at', 'charAt', 'charCodeAt', 'codePointAt', 'slice', 'substring', 'repeat', 'padStart', 'padEnd']) for (const p of [...posL, ...bad]) for (const q of ['', ',0', ',2', ',"x"', ',VO(1)', ',TH()', ',undefined', ',-1', ',TO("pq")', ',""']) {
      if (!p && q) continue; if (/repeat|pad/.test(m) && /\d{8}|1e21/.test(p) || (m === 'padStart' || m === 'padEnd') && /^Infinity/.test(p)) continue;
      yield { src: `QT(()=>"a\\ud83d\\ude00c".${m}(${p}${q}))`, cls: m };
    }
    for (const m of ['indexOf', 'lastIndexOf', 'includes', 'startsWith', 'endsWith', 'split', 'concat', 'normalize', 'localeCompare']) for (const s of ['', 'undefined', 'null', '"b"', '""', '1', 'TO("b")', '/b/', '{[Symbol.match]:true,toString(){L("t");return "b"}}', '{get [Symbol.match](){L("gm");return false},toString(){L("t");return "b"}}', '[]', 'true', 'NaN', ...bad]) for (const p of ['', ',VO(1)', ',TH()', ',2', ',-1', ',undefined', ',1n']) { if (!s && p || m === 'localeCompare' && !/TH|Y|null\)|valueOf/.test(s)) continue; yield { src: `QT(()=>"abcb undefined null b1".${m}(${s}${p}))`, cls: m }; }
    // receivers
    for (const m of meths) for (const r of recv) for (const a of ['', '"a"', 'TO("b")', '1,2']) { if (/locale/i.test(m) && (m !== 'toLocaleLowerCase' || a)) continue; if (m === 'normalize' && a && a[0] !== '1') continue; yield { src: `QT(()=>{var r=String.prototype.${m}.call(${r}${a ? ',' + a : ''});return ${m === 'matchAll' ? '[...r].map(x=>x.index)' : 'r'}})`, cls: 'recv' }; }
    // dispatch to Symbol methods
    const objs = ['{[Symbol.match](s){L("m");L(s);return 1}}', '{[Symbol.matchAll](s){L("ma");return [2]}}', '{[Symbol.replace](s,r){L("r");L(r);return 3}}', '{[Symbol.search](s){L("se");return 4}}', '{[Symbol.split](s,l){L("sp");L(l);return 5}}', '{get [Symbol.replace](){throw "gr"}}', '{[Symbol.split]:null,toString(){return "b"}}', '{[Symbol.match]:5}', '{get flags(){L("fl");return "g"},[Symbol.match]:true,[Symbol.replace](){L("R");return 6},[Symbol.matchAll](){return [7]}}', '{get flags(){return "i"},[Symbol.match]:true}', '{flags:undefined,[Symbol.match]:true}', '/b/', '/b/g', 'null', 'undefined', '5', '"b"', 'TO("b")', 'TH()', 'Y'];
    for (const m of ['match', 'matchAll', 'replace', 'replaceAll', 'search', 'split']) for (const o of objs) for (const b of ['', ',"z"', ',(...a)=>{L(a);return "F"}', ',TO("ts")', ',TH()', ',1']) for (const s of ['"abcb"', 'new String("abcb")', '{toString(){L("rs");return "abcb"}}', 'null']) { if (b && !/repl|split/.test(m)) continue; yield { src: `QT(()=>{var r=String.prototype.${m}.call(${s},${o}${b});return ${m === 'matchAll' ? '[...r]' : 'r'}})`, cls: 'dispatch' }; }
    // replacement texts
    const RA = ['$', '1', '0', '&', '<', '>', 'a', "'", '`'];
    for (const c of chunk(words(RA, th ? 4 : 3), 60)) yield { src: `A("xaby","replace",[${c.map(w => `["ab",${JSON.stringify(w)}]`)}]);A("xaby","replace",[${c.map(w => `[/(a)(?<a>b)/,${JSON.stringify(w)}]`)}]);A("abab","replaceAll",[${c.map(w => `["b",${JSON.stringify(w)}]`)}])`, cls: 'subst' };
    for (let i = 0; i < 100; i++) yield { src: `A("${'abcdefghijkl'}","replace",[[/${'(.)'.repeat(11)}/,"[$${i}]"],[/${'(.)'.repeat(11)}/,"[$0${i}]"],[/(c)(x)?/,"[$${i}]"],["b","[$${i}]"]])`, cls: 'subst' };
    for (const f of ['(...a)=>{L(a);return "$1$&"}', '()=>undefined', '()=>null', '()=>({toString(){L("rts");return "q"}})', '()=>{throw "f"}', '()=>1n', '()=>Y', 'String', 'x=>x.toUpperCase()', '(m,o,s)=>o+s.length']) for (const c of ['"abcabc".replace("b",F)', '"abcabc".replaceAll("b",F)', '"abcabc".replaceAll("",F)', '"abcabc".replace("",F)', '"abc".replace("z",F)', '"a".replaceAll("a",F)', '"aaa".replaceAll("aa",F)', '"abcabc".replace(/b/g,F)', '"abc".replace(/(?<n>b)(x)?/,F)']) yield { src: `var F=${f};QT(()=>${c})`, cls: 'fn' };
    // case mapping, normalization, trimming over the code space
    const step = 64, skip = c => c >= 0xd800 && c < 0xe000;
    const ranges = th ? [[0, 0x3000], [0xa000, 0xac00], [0xd7a0, 0xd800], [0xf900, 0x10000], [0x10000, 0x11a00], [0x16e40, 0x16ea0], [0x1d160, 0x1d1c0], [0x1d400, 0x1d800], [0x1e900, 0x1e960], [0x2f800, 0x2fa20], [0xac00, 0xad00]] : [[0, 0x600], [0x10a0, 0x1100], [0x13a0, 0x1400], [0x1c80, 0x1cc0], [0x1e00, 0x2200], [0x2c00, 0x2d00], [0x3000, 0x3040], [0xa640, 0xa7c0], [0xab40, 0xac40], [0xfb00, 0xfb20], [0xff00, 0xff60], [0x10400, 0x10480], [0x1e900, 0x1e940]];
    // characters which newer Unicode versions added differ with the version of the library: leave out what either side may not know
    const fn = 'function R1(a,b,f){var o="";for(var c=a;c<b;c++){if(c>=0xd800&&c<0xe000||c===0x19b||c===0x264||c>=0x10d40&&c<0x10d90||c>=0x105c0&&c<0x10600||c>=0x11380&&c<0x11400||c>=0x16d00&&c<0x16ea0||c>=0x16100&&c<0x16140)continue;var s=String.fromCodePoint(c),t=f(s);if(t!==s)o+=c.toString(16)+Q(t)}__log(o)}';
    for (const [a, b] of ranges) for (let c = a; c < b; c += step) { if (c >= 0x1c80 && c < 0x1cc0 || c >= 0x2c00 && c < 0x2c80 || c >= 0xa7c0 && c < 0xa800) continue; yield { src: fn + `R1(${c},${Math.min(c + step, b)},s=>s.toLowerCase());R1(${c},${Math.min(c + step, b)},s=>s.toUpperCase());R1(${c},${Math.min(c + step, b)},s=>(s+"x"+s).trim());R1(${c},${Math.min(c + step, b)},s=>(s+"x").trimStart()+(s+"y").trimEnd())`, cls: 'case' }; yield { src: fn + ['NFC', 'NFD', 'NFKC', 'NFKD'].map(n => `R1(${c},${Math.min(c + step, b)},s=>s.normalize("${n}"))`).join(';'), cls: 'norm' }; }
    for (const w of words(['a', '\u03a3', '.', '\u0301', '\u03b1', ' ', '-'], th ? 5 : 4)) if (w.includes('\u03a3')) yield { src: `A(${E(w)},"toLowerCase",[[]]);A(${E(w)},"toUpperCase",[[]])`, cls: 'sigma' };
    for (const [a, b] of product(casing, casing)) yield { src: `var s=String.fromCodePoint(${a},${b});A(s,"toLowerCase",[[]]);A(s,"toUpperCase",[[]]);A(s,"normalize",[[],["NFD"],["NFKC"]])`, cls: 'case2' };
    for (const w of words(['a', '\u0301', '\u0323', '\u00e9', '\uac00', '\u11a8', '\u0300'], th ? 4 : 3)) yield { src: `A(${E(w)},"normalize",[[],["NFC"],["NFD"],["NFKC"],["NFKD"]])`, cls: 'norm' };
    for (const w of words([' ', '\n', 'a', '\ufeff', '\u0085'], 4)) yield { src: `for(var m of ["trim","trimStart","trimEnd"])A(${E(w)},m,[[]])`, cls: 'trim' };
    // fromCharCode / fromCodePoint / raw
    for (const a of ['', '65', '65,66', '65536', '65601', '-1', '1.9', 'NaN', 'Infinity', '"66"', 'null', 'VO(67)', 'TH()', '55357,56832', '128512', '1114111', '1114112', '-0', '0', '1n', 'Y', '65,TH()', '65,-1', '[65]', 'undefined', '0xd800', '0xdc00,0xd800']) for (const f of ['fromCharCode', 'fromCodePoint']) yield { src: `QT(()=>String.${f}(${a}))`, cls: 'from' };
    for (const a of ['{raw:"abc"},1,2,3', '{raw:{length:2,0:"x",1:"y"}},"-"', '{raw:{length:0,0:"x"}}', '{raw:[]}', '{raw:[1,2,3]},VO(1),TO("q")', '{raw:{length:-1}}', '{raw:{length:"2",0:0,1:1}},9,8', '{}', 'null', '{raw:null}', '{raw:{get length(){L("len");return 2},get 0(){L(0);return "a"},get 1(){L(1);return TO("b")}}},TO("s")', '{raw:{length:2,0:Y}}', '{raw:["a","b"]},Y', '"abc"', '{raw:["a","b","c"]},1']) yield { src: `QT(()=>String.raw(${a}))`, cls: 'raw' };
    // String function and objects
    for (const v of ['', 'undefined', 'null', '1', '-0', '1n', 'Y', 'Object(Y)', 'TO("x")', 'VO(1)', 'TH()', '[1,[2]]', '{}', 'Object.create(null)', '()=>1', '{[Symbol.toPrimitive](h){L(h);return 1}}', '{[Symbol.toPrimitive](h){return {}}}']) yield { src: `QT(()=>String(${v}));T(()=>new String(${v}));QT(()=>\`<\${${v || '1'}}>\`);QT(()=>""+(${v || '1'}));QT(()=>"".concat(${v}));QT(()=>[${v}].join())`, cls: 'ctor' };
    const sops = ['s[0]', 's[2]', 's["1"]', 's["01"]', 's[-1]', 's.length', '0 in s', '2 in s', '"length" in s', 's[0]="z"', 's[2]="q"', 's[5]="w"', 's.length=1', 'delete s[0]', 'delete s[2]', 'delete s.length', 'Object.keys(s)', 'Reflect.ownKeys(s)', 'Object.defineProperty(s,0,{value:"a"})', 'Object.defineProperty(s,0,{value:"z"})', 'Object.defineProperty(s,"0",{get(){}})', 'Object.defineProperty(s,3,{value:"d",enumerable:true})', 'Object.defineProperty(s,"length",{value:2})', 'Object.defineProperty(s,"length",{value:3})', 'Object.defineProperty(s,0,{writable:true})', 'Object.defineProperty(s,0,{enumerable:true,writable:false})', 'Reflect.set(s,0,"k")', 'Reflect.set(s,7,"k")', 'Reflect.set({},0,"k",s)', 'Reflect.set(Object.create(s),0,"k")', 'Reflect.set(Object.create(s),9,"k")', 'Object.freeze(s)', 'Object.isFrozen(s)', 'Object.isSealed(s)', 'Object.preventExtensions(s)', 'Object.getOwnPropertyDescriptor(s,0)', 'Object.getOwnPropertyDescriptor(s,2)', 'Object.getOwnPropertyDescriptor(s,"length")', 's.hasOwnProperty(1)', 's.propertyIsEnumerable(1)', 's.x=1', 's[Y]=2', '(()=>{var o="";for(var k in s)o+=k+",";return o})()', 's+""', 'Object.assign({},s)', '({...s})', '[...s]', 's==="ab"', 'typeof s', 'Object.setPrototypeOf(s,null)', 's[1]+=1', 's.valueOf()', 'Object.entries(s)'];
    for (const l of seqsUpTo(sops, 2, 1)) for (const mode of ['', '"use strict";']) for (const k of l.length === 1 ? ['new String("ab")', '"ab"', 'Object("\\ud83d\\ude00")', 'new (class extends String{})("ab")'] : th ? ['new String("ab")', 'new (class extends String{})("ab")'] : ['new String("ab")']) yield { src: `(function(){${mode}var s=${k};${l.map(o => `T(()=>${o})`).join(';')};T(()=>typeof s==="object"?DESC(s):s)})()`, cls: 'obj' };
    // string histories: the representation must never show
    const hist = ['s+="xy"', 's="q"+s', 's=s+s', 's=s.slice(1)', 's=s.slice(0,-1)', 's=s.substring(1,3)', 's=s.repeat(2)', 's=s.toUpperCase()', 's=s.replace("x","Z")', 's=[...s].reverse().join("")', 's=s.split("").join("-")', 's=s.trim()', 's=`${s}`', 's=s.padEnd(5," ")', 's=Object.keys({[s]:1})[0]', 's=s.concat(s[0]||"",s)', 's=String(new String(s))', 's=s.charAt(1)+s', 's=JSON.parse(JSON.stringify(s))', 's=Symbol(s).description', 's=s.at(-1)+s.at(0)', 's=s.normalize()'];
    for (const l of seqsUpTo(hist, th ? 4 : 3, 1)) yield { src: `for(var s of ["a","\\ud83d\\ude00b","12",""]){var z=s;try{${l.join(';')}}catch(e){__log(__E(e))};__log(Q(s)+Q(z)+s.length+(s===s.split("").join(""))+({[s]:1}[s.slice(0)])+s.indexOf("x")+Object.is(+s,Number(s+"")))}`, cls: 'hist' };
    // templates
    const tl = ['a', '\\n', '\\\\', '\\`', '\\u0041', '\\u{1F600}', '\\x41', '\\0', '${1}', '$', '{', '\r\n', '\r', '\n', '\\\n', '\\\r\n', '\\8', '\\u', '\\x1', '\\01', '\\u{110000}', '\\$', '"', '\u2028', '${`b${2}`}', '\\u{', '\\xg'];
    for (const w of seqsUpTo(tl, 2)) { const t = w.join(''); yield { src: `try{__log(Q((0,eval)(${JSON.stringify('`' + t + '`').replace(/\u2028/g, '\\u2028')})))}catch(e){__log(__E(e))};function tag(s,...v){return Q([...s])+Q([...s.raw])+Q(v)+Object.isFrozen(s)+Object.isFrozen(s.raw)};try{__log((0,eval)(${JSON.stringify('tag`' + t + '`').replace(/\u2028/g, '\\u2028')}))}catch(e){__log(__E(e))}`, cls: 'tmpl' }; }
    // string literals
    for (const w of seqsUpTo(['a', '\\n', '\\0', '\\01', '\\8', '\\x41', '\\x4', '\\u0041', '\\u{41}', '\\u{}', '\\u004', '\\\n', '\\\r\n', '\n', '\u2028', '\\\u2029', '\\q', "'", "\\'", '\\\\', '\\u{d83d}\\u{de00}', '\\377', '\\400', '\\08'], 2, 1)) for (const m of ['', '"use strict";']) { const t = JSON.stringify(m + "'" + w.join('') + "'").replace(/[\u2028\u2029]/g, c => '\\u' + c.charCodeAt(0).toString(16)); yield { src: `try{__log(Q((0,eval)(${t})))}catch(e){__log(__E(e))}`, cls: 'lit' }; }
    for (const l of ['String', 'String.prototype', 'String.prototype[Symbol.iterator].call("")', 'Object.getPrototypeOf(""[Symbol.iterator]())', 'new String("ab")']) yield { src: l === 'String.prototype' ? 'var SKIP=new Set("anchor big blink bold fixed fontcolor fontsize italics link small strike sub sup substr trimLeft trimRight isWellFormed toWellFormed".split(" "));for(var k of Reflect.ownKeys(String.prototype).map(k=>typeof k=="symbol"?k.description:k).sort())if(!SKIP.has(k)){var f=String.prototype[k];__log(k+":"+typeof f+(typeof f=="function"?f.name+f.length+("prototype" in f)+__C(f):""))}' : `L(SURF(${l}))`, cls: 'surf' };
    for (const r of ['""[Symbol.iterator]()', '{}', '[][Symbol.iterator]()', 'undefined', '"ab"']) yield { src: `T(()=>Object.getPrototypeOf(""[Symbol.iterator]()).next.call(${r}))`, cls: 'iter' };
    for (const l of seqsUpTo(['it.next()', 'it2.next()', '[...it]', 'Object.getPrototypeOf(it).next=function(){return {done:true}}', 'it[Symbol.iterator]()===it', 'Object.prototype.toString.call(it)'].filter(x => !/=function/.test(x)), 3, 1)) yield { src: `var it="a\\ud83d\\ude00\\ud83d"[Symbol.iterator](),it2="xy"[Symbol.iterator]();${l.map(o => `__log(JSON.stringify(${o}))`).join(';')}`, cls: 'iter' };
  },
};
