// Regular expressions: pattern grammar, matching, flags, captures, and the RegExp protocols.
import { P0, product, seqs, seqsUpTo, pack } from '../lib/prelude.mjs';
const chunk = function* (l, k) { for (let i = 0; i < l.length; i += k) yield l.slice(i, i + k); };
const J = JSON.stringify, HI = '\ud83d', LO = '\ude00';
const JE = s => J(s).replace(/[\u0080-\uffff]/g, c => '\\u' + c.charCodeAt(0).toString(16).padStart(4, '0'));
const words = (al, n, from = 0) => [...seqsUpTo(al, n, from)].map(w => w.join(''));
// pattern terms
const T1 = ['a', 'b', '.', '(a)', '(?:b)', '(?=a)', '(?!a)', '(?<=a)', '(?<!b)', '^', '$', '\\b', '\\B', '[ab]', '[^a]', '\\1', '(a|b)', '(?:a|ab)', '(a*)', '(?:)', '()', '(b?)', '(?=(a))', '(?<=(b))', '\\w', '(?<n>a)', '\\k<n>', '(|a)'];
const QU = ['', '*', '+', '?', '*?', '+?', '??', '{0}', '{1}', '{2}', '{0,1}', '{1,2}', '{2,}', '{1,}?', '{0,2}?'];
const noQ = /^(\^|\$|\\b|\\B|\(\?[=!]|\(\?<[=!])/;
const qt = t => noQ.test(t) ? [t] : QU.map(q => t + q);
const dupN = p => (p.match(/\(\?<n>/g) || []).length > 1;
const mis = (p) => /\\k<n>/.test(p) && !/\(\?<n>/.test(p);       // Annex B without names
const misb = p => /\\1/.test(p) && !/\((?!\?[:=!<])|\(\?<n>|\(\?[=!]\(|\(\?<=\(/.test(p);   // Annex B octal
const badPat = p => dupN(p) || mis(p) || misb(p);
// grammar alphabet
const G = ['a', '1', '(', ')', '[', ']', '{', '}', '*', '+', '?', '|', '^', '$', '\\', '-', ',', '<', '>', ':', '=', '!', 'k', 'u', 'x', 'd', 'p', 'b', '.'];
const esc = ['\\d', '\\D', '\\w', '\\W', '\\s', '\\S', '\\n', '\\t', '\\v', '\\f', '\\r', '\\0', '\\cA', '\\cz', '\\x41', '\\u0041', '\\u{1F600}', '\\ud83d\\ude00', '\\/', '\\.', '\\-', '\\^', '\\$', '\\b', '[\\b]', '[\\d-]', '[\\-a]', '[a-]', '[-a]', '[^]', '[]', '[a-c]', '[c-a]', '[\\w-z]', '[\\ud83d\\ude00]', '[\\u{1F600}-\\u{1F64F}]', '[^\\d]', '[\\D\\d]', '[.]', '[*]', '[\\]]', '[\\\\]', '[a\\n]', '[^a-z0-9_]', '[\\s\\S]', '\\p{L}', '\\P{L}', '\\p{Lu}', '\\p{Script=Greek}', '\\p{ASCII}', '\\p{Any}', '\\p{Alphabetic}', '\\p{sc=Latin}', '\\p{gc=Nd}', '\\p{General_Category=Decimal_Number}', '\\p{White_Space}', '\\p{Foo}', '\\p{Lu', '\\p', '[\\p{L}]', '[^\\p{Lu}\\d]', '\\p{scx=Grek}', '\\p{Script_Extensions=Latin}', '\\p{ID_Start}', '\\p{Uppercase}', '\\p{Emoji}', '\\p{lu}', '\\p{Script=greek}', '\\p{Letter}', '\\p{LC}', '\\p{Cn}', '\\p{Assigned}', '\\p{L=Lu}', '\\p{}', '\\p{=}', '\\a', '\\8', '\\c', '\\u', '\\x', '\\u{', '\\u{110000}', '\\u{41}', '\\k', '\\k<', '\\k<a>', '\\_', '\\@'];
const escS = ['', 'a', 'A', 'z', 'Z', '0', '9', '_', '-', ' ', '\n', '\r', '\t', '\v', '\f', '\0', '\u0001', '\u001a', '\b', '/', '.', '^', '$', '\\', ']', '[', '*', '\u00a0', '\ufeff', '\u2028', '\u0085', '\u180e', '\u3000', '\u00e9', '\u00c9', '\u03b1', '\u0391', '\u017f', '\u212a', 'k', 's', '\u00df', '\u1e9e', HI + LO, HI, LO, 'ab', 'd', '{', '@', 'u', 'x', 'c', '8', '\u0660', '\u0130', '\u0131', 'i', 'I', '\u01c5', '\u01c4', '\u1f80', '\u1f88', '\u{10400}', '\u{10428}', '\u0345', '\u03b9', '\u1fbe', '\u03b8', '\u03d1', '\u03f4', '\u2126', '\u03c9', 'k\u212a'];
const objsR = ['{}', '{flags:"g",exec(){return null}}', '{flags:"gu",exec(){return null}}'];
// mock matchers: every access is recorded
const mock = (o) => `REC(${o})`;
// the ES2023 algorithms of Symbol.match and Symbol.replace, for reference runs on mock receivers: V8 reads "global" and "unicode" instead of "flags"
const POLY = String.raw`
function __rx(R,S){var e=R.exec;if(typeof e==="function"){var r=Reflect.apply(e,R,[S]);if(r!==null&&typeof r!=="object"&&typeof r!=="function")throw new TypeError;return r}throw new TypeError}
function __str(x){return typeof x==="symbol"?(()=>{throw new TypeError})():String(x)}
function __int(x){x=+x;return x!==x?0:Math.trunc(x)+0}
function __len(x){x=__int(x);return x<=0?0:Math.min(x,2**53-1)}
function __set(o,k,v){if(!Reflect.set(o,k,v))throw new TypeError}
function __adv(S,i,u){if(!u||i+1>=S.length)return i+1;return i+(S.codePointAt(i)>0xffff?2:1)}
function __mat(R,str){if(Object(R)!==R)throw new TypeError;var S=__str(str),F=__str(R.flags);if(!F.includes("g"))return __rx(R,S);var u=F.includes("u");__set(R,"lastIndex",0);var A=[],n=0;for(;;){var r=__rx(R,S);if(r===null)return n?A:null;var m=__str(r[0]);Object.defineProperty(A,String(n),{value:m,writable:true,enumerable:true,configurable:true});if(m===""){var t=__len(R.lastIndex);__set(R,"lastIndex",__adv(S,t,u))}n++}}
function __sub(m,S,pos,C,N,T){var k=C.length,o="",i=0;while(i<T.length){var c=T[i],d=T[i+1];if(c!=="$"||d===undefined){o+=c;i++;continue}
if(d==="$"){o+="$";i+=2}else if(d==="&"){o+=m;i+=2}else if(d==="\x60"){o+=S.slice(0,pos);i+=2}else if(d==="'"){var tp=Math.min(pos+m.length,S.length);o+=S.slice(tp);i+=2}
else if(d>="0"&&d<="9"){var w=/^[0-9]$/.test(T[i+2]||"")?2:1,n=+T.substr(i+1,w);if(w===2&&n>k){w=1;n=+T[i+1]}if(n>=1&&n<=k){var x=C[n-1];o+=x===undefined?"":x;i+=1+w}else{o+=T.substr(i,1+w);i+=1+w}}
else if(d==="<"){if(N===undefined){o+="$<";i+=2}else{var g=T.indexOf(">",i+2);if(g<0){o+="$<";i+=2}else{var v=N[T.slice(i+2,g)];o+=v===undefined?"":__str(v);i=g+1}}}
else{o+=c;i++}}return o}
function __rep(R,str,rv){if(Object(R)!==R)throw new TypeError;var S=__str(str),fn=typeof rv==="function";if(!fn)rv=__str(rv);var F=__str(R.flags),g=F.includes("g"),u=F.includes("u");if(g)__set(R,"lastIndex",0);var rs=[];for(;;){var r=__rx(R,S);if(r===null)break;rs.push(r);if(!g)break;if(__str(r[0])===""){var t=__len(R.lastIndex);__set(R,"lastIndex",__adv(S,t,u))}}
var acc="",np=0;for(var r of rs){var n=Math.max(__len(r.length)-1,0),m=__str(r[0]),pos=Math.max(Math.min(__int(r.index),S.length),0),C=[];for(var i=1;i<=n;i++){var c=r[i];if(c!==undefined)c=__str(c);C.push(c)}var N=r.groups,rep;if(fn){var a=[m,...C,pos,S];if(N!==undefined)a.push(N);rep=__str(Reflect.apply(rv,undefined,a))}else{if(N!==undefined){if(N===null)throw new TypeError;N=Object(N)}rep=__sub(m,S,pos,C,N,rv)}if(pos>=np){acc+=S.slice(np,pos)+rep;np=pos+m.length}}return np>=S.length?acc:acc+S.slice(np)}
`;
const viaPoly = s => POLY + s.replace(/RegExp\.prototype\[Symbol\.(match|replace)\]\.call\(/g, (_, k) => k === 'match' ? '__mat(' : '__rep(');
export default {
  id: 'C18', title: 'RegExp', reset: 300,
  rule: 'one case = one pattern (with its quantifiers) against all subjects of the space under a flag set, one pattern text for acceptance, or one protocol call; all distinct; non-trivial: every case',
  exclude: ['Annex B pattern leniency', 'post-ES2023 syntax (v flag, modifiers, duplicate names)'],
  prelude: P0 + String.raw`
var Y=Symbol("Y");function VO(v){return{valueOf(){L("v");return v}}} function TO(v){return{toString(){L("s");return v}}} function TH(){return{toString(){throw "TH"},valueOf(){throw "TH"}}}
function Q(v){if(typeof v!=="string")return Array.isArray(v)?"["+v.map(Q).join(",")+"]":__S(v);var o="'";for(var i=0;i<v.length;i++){var c=v.charCodeAt(i);o+=c<127&&c>31?v[i]:"\\u"+c.toString(16)+";"}return o+"'"}
function X(m){if(m===null)return"-";var o=m.index+"";for(var i=0;i<m.length;i++)o+=Q(m[i]);if(m.groups)for(var k in m.groups)o+=";"+k+"="+Q(m.groups[k]);if(m.indices){for(var i=0;i<m.indices.length;i++)o+="@"+m.indices[i];if(m.indices.groups)for(var k in m.indices.groups)o+="#"+k+m.indices.groups[k]}return o}
function M(p,f,w){var r;try{r=new RegExp(p,f)}catch(e){__log(__E(e));return}var o="";for(var i=0;i<w.length;i++){r.lastIndex=0;o+=X(r.exec(w[i]))+r.lastIndex+" "}__log(o)}
function P(p,f){try{var r=new RegExp(p,f);return "ok "+Q(r.source)}catch(e){return __E(e)}}
function PS(l,f){for(var i=0;i<l.length;i++)__log(P(l[i],f))}
function REC(o){return new Proxy(o,{get(t,k,r){L("get "+String(typeof k==="symbol"?k.description:k));var v=Reflect.get(t,k,r);return typeof v==="function"&&k==="constructor"?v:v},set(t,k,v,r){L("set "+String(k)+"="+__S(v));t[k]=v;return true},has(t,k){L("has "+String(k));return k in t}})}
function LIM(f){if(typeof f!=="function")return f;var n=0;return function(s){if(++n>4)throw "LIM";return f.call(this,s)}}
function QT(f){try{__log(Q(f()))}catch(e){__log(__E(e))}}
`,
  bounds: {
    quick: 'all patterns of 1-2 quantified terms over 28 terms x 15 quantifiers and all triples of plain terms against all words of length <= 4 over {a,b}; all pattern texts of length <= 3 over 29 grammar characters with the u flag; escapes and classes against 66 subjects under 6 flag sets; protocol calls on recording mocks',
    thorough: 'all triples with quantifiers on two terms; pattern texts of length <= 4'
  },
  * gen(tier) {
    const th = tier === 'thorough';
    const W = words(['a', 'b'], 4), WJ = J(W), W3 = J(words(['a', 'b'], 3)), wd = `W=${WJ}`;
    // single and double terms with quantifiers
    const one = T1.flatMap(qt).filter(p => !badPat(p));
    for (const c of one) for (const f of ['', 'g', 'y', 'i', 'u', 'd', 's', 'm', 'gy', 'dgimsuy']) yield { src: `M(${J(c)},"${f}",${WJ})`, cls: 'one' };
    for (const a of T1.flatMap(qt)) for (const b of T1.flatMap(t => noQ.test(t) ? [t] : th ? QU.map(q => t + q) : [t, t + '*', t + '+?', t + '?', t + '{2}'])) { if (badPat(a + b)) continue; yield { src: `M(${J(a + b)},"",${W3})`, cls: 'two' }; }
    for (const [a, b, c] of product(T1, T1, T1)) { if (badPat(a + b + c)) continue; yield { src: `M(${J(a + b + c)},"",${W3})`, cls: 'three' }; }
    if (th) for (const [a, b, c] of product(T1, T1, T1)) for (const [q, r] of [['*', ''], ['', '+'], ['?', '??'], ['{1,2}', '*?'], ['*?', '{2}'], ['+', '?']]) { const p = (noQ.test(a) ? a : a + q) + (noQ.test(b) ? b : b + r) + c; if (badPat(p)) continue; yield { src: `M(${J(p)},"",${W3})`, cls: 'threeq' }; }
    // alternatives and nesting
    for (const [a, b] of product(T1, T1)) { if (badPat(a + b)) continue; for (const p of [`${a}|${b}`, `(?:${a}|${b})+`, `(${a}|${b})*?b`, `(${a}${b})*`, `(?:(${a})|(${b}))*`, `(?=${a})${b}`, `(?!${a})${b}`, `(?<=${a})${b}`, `(?<!${a})${b}`, `(?<=(${a})${b})b`, `(?<=${a}*)(?:${b})`, `^(?:${a}|${b})*$`, `(?=(${a}${b})).\\1`, `(?<x>${a})${b}\\k<x>`, `(?:${a}){2}|(${b}){0,2}`, `(?<=(?=${a})${b}.)`, `(?<=\\1(${a}))${b}`]) if (!badPat(p.replace(/\(\?<x>/, '').replace(/\\k<x>/, '')) && !/[*+?}]\){|\(\?[=!][^)]*\)\*/.test(p)) try { new RegExp(p, /\\k/.test(p) ? '' : 'u'); yield { src: `M(${J(p)},"${/\\k<n>|\(\?<x>/.test(p) ? 'd' : ''}",${W3})`, cls: 'nest' }; } catch { } }
    // acceptance of pattern texts
    const gl = words(G, th ? 4 : 3, 0);
    for (const c of chunk(gl, 60)) yield { src: `PS(${J(c)},"u")`, cls: 'gram' };
    const Gq = ['a', '{', '}', '1', '2', ',', '*', '?', '(?:', ')', '(', '|'];
    for (const c of chunk(words(Gq, th ? 6 : 4, 4), 60)) yield { src: `PS(${J(c)},"u")`, cls: 'gramq' };
    const Gc = ['a', 'z', '-', '\\d', '^', ']', '\\b', '\\u{61}', '\\-', '\\n', '\ud83d', '\ude00', '0'];
    for (const c of chunk(words(Gc, th ? 4 : 3), 60)) { yield { src: `PS(${JE(c.map(x => '[' + x + ']'))},"u")`, cls: 'gramc' }; yield { src: `for(var p of ${JE(c.map(x => '[' + x + ']'))})M(p,"u",["","a","z","-","5","^","\\b","m","\\n","\\ud83d\\ude00","\\ud83d","\\ude00","0","b"])`, cls: 'class' }; }
    const Gk = ['(?<', '>', 'a', 'b', ')', '\\k<', '(', '$', '1', '\\u0061', '\\u{62}', '|', 'é'];
    for (const c of chunk(words(Gk, th ? 5 : 4), 60)) yield { src: `PS(${J(c.filter(x => !/\(\?<a>.*\(\?<(a|\\u0061)>|\(\?<b>.*\(\?<(b|\\u\{62\})>/.test(x) || !x.includes('|')))},"u")`, cls: 'gramk' };
    // without u: only what is not Annex B
    for (const c of chunk(words(['a', '(', ')', '[', ']', '*', '+', '?', '|', '^', '$', '.', '(?:', '(?=', '(?!', '(?<=', '(?<a>', '1'], th ? 5 : 4), 80)) yield { src: `PS(${J(c.filter(x => !(/\(\?[=!]/.test(x) && /\)[*+?]/.test(x)) && !/(^|[^\[])\]/.test(x.replace(/\[[^\]]*\]/g, '')) && !(x.match(/\(\?<a>/g) || [])[1]))},"")`, cls: 'gram0' };
    for (const s of ['{1}', 'a{2,1}', 'a{1}{2}', 'a**', '(?a)', '(?<a', '(?<>a)', '(?<1>a)', '(?<a>)(?<a>)', '(?<a>)\\k<b>', '(?<a>)\\k', '(?<a>.)\\k<a>', '(?<=a)*', '(?<=a)+', '(?<!a)?', '[b-a]', '[\\w-a]', 'a{99999999999999999999}', 'a{0,99999999999999999999}', 'a{2147483648}', 'a{4294967296,4294967297}', '\\u{1}', '\\', '[', '(', 'a{,5}', '(?:', '(?<𝒜>.)', '(?<a\\uD835\\uDC9C>.)', '(?<\\u{1d49c}>.)', '(?<$>a)', '(?<_>a)', '(?<a\u200c>x)', '\\cé', '[\\c]', '(?<a>x)|(?<b>y)', '(?:(?<a>x)|y)\\k<a>']) for (const f of ['', 'u']) { if (!f && /^\{1|\{,|\\u\{1|\\u\{|\\c|\[\\w-a\]/.test(s)) continue; if (/\(\?<a>\)\(\?<a>\)/.test(s) && 0) continue; yield { src: `T(()=>P(${JE(s)},"${f}"))`, cls: 'accept' }; }
    // flags
    for (const f of [...words(['d', 'g', 'i', 'm', 's', 'u', 'y'], 2), 'dgimsuy', 'yusmigd', 'gg', 'x', 'G', 'gimsuyx', ' ', 'undefined', 'gi g', '\\u0067', 'dgimsuyd']) yield { src: `T(()=>{var r=new RegExp("a","${f}");return [r.flags,r.global,r.ignoreCase,r.multiline,r.dotAll,r.unicode,r.sticky,r.hasIndices,String(r),r.lastIndex]});T(()=>(0,eval)("/a/${f}").flags)`, cls: 'flags' };
    // characters, escapes and classes
    const accept = (p, f) => f.includes('u') || (() => { try { new RegExp(p, 'u'); return !/\\p|\\P|\\u\{/.test(p); } catch { return /^\[c-a\]$/.test(p); } })();
    for (const p of esc) for (const f of ['', 'i', 'u', 'iu', 's', 'm']) { if (!accept(p, f)) continue; if (/Cn|Assigned|Emoji/.test(p)) continue; for (const q of [p, `[^${p.replace(/^\[|\]$/g, '')}]`, `(?<=${p})`, `^(?:${p})+$`, `(${p})\\1`]) { if (!accept(q, f)) continue; if (q !== p && /\\(b|k|1)|\[\]|\[\^/.test(p)) continue; yield { src: `M(${JE(q)},"${f}",${JE(q.includes('\\1') ? escS.map(x => x + x) : escS)})`, cls: 'esc' }; } }
    // case folding between the subject characters
    for (const a of escS.filter(x => x.length && !/[\\[\]^$.*{\/\n\r\u2028]/.test(x))) for (const f of ['i', 'iu', 'u', '']) yield { src: `M(${JE(a)},"${f}",${JE(escS)});M(${JE('[' + a.replace('-', '\\-') + ']')},"${f}",${JE(escS)});M(${JE('[^' + a.replace('-', '\\-') + ']')},"${f}",${JE(escS)})`, cls: 'fold' };
    const CR = [[0x41, 0x5a], [0x61, 0x7a], [0x5b, 0x60], [0xc0, 0xde], [0x391, 0x3a9], [0x3b1, 0x3c9], [0x17f, 0x17f], [0x212a, 0x212b], [0x100, 0x17f], [0x1e00, 0x1eff], [0x10400, 0x1044f], [0x4b, 0x53]];
    for (const [a, b] of CR) for (const f of ['i', 'iu']) { if (a > 0xffff && f === 'i') continue; const e = c => `\\u{${c.toString(16)}}`, e0 = c => '\\u' + c.toString(16).padStart(4, '0'); const p = f === 'iu' ? `[${e(a)}-${e(b)}]` : `[${e0(a)}-${e0(b)}]`; for (const neg of ['', '^']) yield { src: `var r=new RegExp(${J(p.replace('[', '[' + neg))},"${f}"),o="";for(var c=0;c<0x2180;c++)if(r.test(String.fromCharCode(c)))o+=c.toString(16)+" ";for(var c=0x10400;c<0x10450;c++)if(r.test(String.fromCodePoint(c)))o+=c.toString(16)+" ";__log(o)`, cls: 'foldr' }; }
    for (const p of ['L', 'Lu', 'Ll', 'N', 'Nd', 'P', 'Sm', 'Zs', 'Cc', 'Script=Greek', 'Script=Latin', 'sc=Cyrillic', 'Pattern_White_Space', 'White_Space', 'Uppercase', 'ASCII', 'ASCII_Hex_Digit', 'ID_Continue', 'Math', 'Hex_Digit']) for (const f of ['u', 'iu']) yield { src: `var r=/\\p{${p}}/${f},q=/[^\\p{${p}}]/${f},s=/\\P{${p}}/${f},o="";for(var c=0;c<0x500;c++)if(c!==0x295&&c!==0x19b&&c!==0x264&&c!==0xb7){var x=String.fromCharCode(c);o+=+r.test(x)+2*q.test(x)+4*s.test(x)}__log(o)`, cls: 'prop' };
    // surrogates and indices
    for (const p of ['.', '..', '^.$', '[^x]', '\\ud83d', '\\ude00', '\\ud83d\\ude00', '[\\ud83d\\ude00]', '\\u{1f600}', '(?<=\\ud83d)\\ude00', '(?=\\ude00)', '(?!\\ude00)', '\\b', '$', '(?<!\\ud83d)', '(?<=.)', '(?<=^.)', '\\S', '\\W', '(.)\\1', '.{2}', '.*?', '\\udc00|\\ud83d', '[\\ud83d]', '[\\ude00]', '(?:)']) for (const f of ['', 'u', 'g', 'gu', 'y', 'yu', 'dg', 'dgu', 's']) { if (/\\u\{/.test(p) && !f.includes('u')) continue; if (f.includes('u') && p === '(?<!\\ud83d)') continue; yield { src: `var w=${JE(words([HI, LO, 'a'], 3))};try{var r=new RegExp(${J(p)},"${f}");for(var s of w){var o="";for(var k=0;k<=s.length+1;k++){if(r.unicode&&k>0&&k<s.length&&s.charCodeAt(k)>>10===55&&s.charCodeAt(k-1)>>10===54)continue;r.lastIndex=k;o+=X(r.exec(s))+"L"+r.lastIndex+" "}__log(o);${/g/.test(f) ? '__log(Q(s.match(r)),Q([...s.matchAll(r)].map(X)));' : ''}__log(Q(s.replace(r,"<$&>")),Q(s.split(r)),s.search(r))}}catch(e){__log(__E(e))}`, cls: 'surr' }; }
    // lastIndex histories
    const li = ['r.exec("aba")', 'r.test("aba")', 'r.lastIndex=1', 'r.lastIndex=3', 'r.lastIndex=5', 'r.lastIndex=-1', 'r.lastIndex="1"', 'r.lastIndex=VO(2)', 'r.lastIndex=NaN', 'r.lastIndex=2**32', '"aba".replace(r,"x")', '"aba".match(r)', '"aba".search(r)', '"aba".split(r)', '[..."aba".matchAll(/a/g.constructor===RegExp&&r.global?r:/a/g)].length', 'Object.freeze(r)', 'r.lastIndex={}', 'r=new RegExp(r)', 'r=RegExp(r)', 'r.exec("")', 'Object.defineProperty(r,"lastIndex",{writable:false})', 'r.exec="x"', 'r.exec=()=>null', 'r.lastIndex=undefined'];
    for (const l of seqsUpTo(li, th ? 3 : 2, 1)) for (const re of ['/a/', '/a/g', '/a/y', '/a/gy', '/(?:)/g', '/b|/gu']) yield { src: `var r=${re};${l.map(o => `T(()=>{var z=${o};return Array.isArray(z)?Q(z):z===r?"r":z});T(()=>r.lastIndex)`).join(';')}`, cls: 'lasti' };
    // String methods with patterns
    for (const p of ['a', 'b*', '(a)(b)?', '(?:)', '^', '$', '[^]', 'a|b', '(?=b)', '(a)|(b)', '\\b', '(?<n>a)(?<m>b)?', '.*', '(?<=a)', 'ab', '(?!a)', '(\\w)\\1']) for (const f of ['', 'g', 'y', 'gy', 'u', 'm', 'd']) yield { src: `for(var s of ${W3.slice(0, -1) + ',"abab","aabb","a\\nb"]'}){var r=new RegExp(${J(p)},"${f}"),o="";o+=Q(s.replace(r,"[$1$2|$&|$\`|$'|$<n>]"));o+=Q(s.replace(r,(...a)=>Q(a.map(x=>typeof x==="object"?JSON.stringify(x):x))));o+=Q(s.split(r))+Q(s.split(r,2))+s.search(r)+(s.match(r)===null?"-":Q([...s.match(r)]));try{o+=Q(s.replaceAll(r,"$&-"))}catch(e){o+=__E(e)}try{o+=[...s.matchAll(r)].map(X).join()}catch(e){o+=__E(e)}__log(o+r.lastIndex)}`, cls: 'strm' };
    // protocol on mocks
    const execs = ['()=>null', '()=>({})', '()=>({0:"b",index:1,length:1})', '()=>5', 'undefined', 'function(s){L(s);if(this.n===undefined)this.n=0;return this.n++<2?{0:"",index:this.n,length:1}:null}', 'function(){if(this.n===undefined)this.n=0;return this.n++<1?REC({0:TO("b"),1:TO("c"),2:undefined,index:VO(1),length:VO(3),groups:undefined}):null}', 'function(){if(this.n)return null;this.n=1;return REC({0:"b",index:1,length:1,groups:REC({x:TO("gx")})})}', 'function(){if(this.n)return null;this.n=1;return {0:"bc",index:100,length:1}}', 'function(){if(this.n)return null;this.n=1;return {0:"b",index:-5,length:1,groups:null}}', 'function(){if(this.n===undefined)this.n=0;return this.n++<2?{0:"c",index:3-this.n,length:1}:null}', '()=>{throw "ex"}', 'function(){if(this.n)return null;this.n=1;return {get 0(){throw "g0"},length:1}}', 'function(){if(this.n)return null;this.n=1;return {0:"b",get index(){throw "gi"},length:1}}', 'function(){if(this.n)return null;this.n=1;return {0:"b",index:1,get groups(){throw "gg"}}}', 'function(){if(this.n)return null;this.n=1;return {0:"b",index:1,get length(){throw "gl"}}}', 'function(){if(this.n)return null;this.n=1;return {0:"b",1:Y,index:1,length:2}}'];
    const flagsV = ['"g"', '""', '"gu"', 'undefined', 'TO("g")', 'TH()', '"y"', 'Y'];
    const calls = ['RegExp.prototype[Symbol.replace].call(m,"abcd","<$1$2$&$<x>>")', 'RegExp.prototype[Symbol.replace].call(m,"abcd",(...a)=>{L(a.length);return a.join()})', 'RegExp.prototype[Symbol.replace].call(m,TO("abcd"),TO("q"))', 'RegExp.prototype[Symbol.match].call(m,"abcd")', 'RegExp.prototype[Symbol.search].call(m,"abcd")', '[...RegExp.prototype[Symbol.matchAll].call(m,"abcd")].length', 'RegExp.prototype[Symbol.split].call(m,"abcd")', 'RegExp.prototype[Symbol.split].call(m,"abcd",VO(1))', 'RegExp.prototype.test.call(m,"abcd")', 'RegExp.prototype.test.call(m,TH())', 'RegExp.prototype.exec.call(m,"abcd")', 'RegExp.prototype.toString.call(m)'];
    for (const e of execs) for (const f of flagsV) for (const c of calls) { if (/matchAll|split/.test(c)) continue; const src = `var m=REC({exec:LIM(${e}),flags:${f},lastIndex:0,source:"S",global:true,unicode:false});T(()=>${c})`; yield { src, ref: /Symbol.(match|replace)\]/.test(c) ? viaPoly(src) : undefined, cls: 'mock' }; }
    for (const e of execs) for (const f of ['"g"', '""', '"gu"', 'TO("g")', 'TH()', '"y"', 'undefined']) for (const c of calls) { if (!/matchAll|split/.test(c)) continue; for (const sp of ['undefined', 'null', '{[Symbol.species]:undefined}', '{[Symbol.species]:K}', '{[Symbol.species]:5}', '5', '{get [Symbol.species](){throw "gs"}}']) yield { src: `function K(r,f){L("K"+f);return REC({exec:LIM(${e}),lastIndex:0,flags:f})}var m=REC({exec:LIM(${e}),flags:${f},lastIndex:VO(1),constructor:${sp}});T(()=>${c})`, cls: 'mocks' }; }
    for (const s of ['"abcd"', '""']) for (const li of ['0', '1', '2', '9', 'VO(2)', '-1']) for (const e of ['{0:"b",index:1,length:1}', 'null', '{0:"b",1:"x",2:undefined,index:1,length:3}', '{0:"",length:0}', 'K', '7']) for (const lim of ['', '0', '1', '2', 'undefined', '4294967297', '-1', 'NaN', '"2"', 'TH()']) yield { src: `var n=0;function K(r,f){L(f);return{exec(s){L(this.lastIndex);if(++n>12)throw 'LIM';var e=${e};if(e)this.lastIndex=n%2?${li}:99;return e},set lastIndex(v){this.li=v},get lastIndex(){return this.li}}}var m={constructor:{[Symbol.species]:K},flags:"i"};T(()=>RegExp.prototype[Symbol.split].call(m,${s}${lim ? ',' + lim : ''}))`, cls: 'split' };
    // brands and accessors
    for (const g of ['global', 'ignoreCase', 'multiline', 'dotAll', 'unicode', 'sticky', 'hasIndices', 'source', 'flags']) for (const r of ['RegExp.prototype', '/a/gimsuyd', '{}', 'undefined', '5', 'Object.create(/a/g)', 'new (class extends RegExp{})("x","g")', '{hasIndices:1,global:0,ignoreCase:"x",multiline:null,dotAll:{},unicode:1,sticky:1,unicodeSets:0}', '{get global(){L("g");return 1},get hasIndices(){L("d");return 1},get sticky(){L("y")}}']) yield { src: `T(()=>Object.getOwnPropertyDescriptor(RegExp.prototype,"${g}").get.call(${r}))`, cls: 'acc' };
    for (const r of ['/a/', '/\\//', '/[/]/', 'new RegExp("/")', 'new RegExp("\\n")', 'new RegExp("")', 'new RegExp("[/]")', 'new RegExp("\\\\/")', 'new RegExp("\\\\\\n","")', 'new RegExp("\\u2028")', 'new RegExp("a/b","g")', 'new RegExp(undefined)', 'new RegExp(null)', 'new RegExp("\\\\\\\\/")', 'new RegExp("[\\\\]/]/")', 'RegExp("\\r")', 'RegExp("\\\\\\u2029")']) yield { src: `var r;try{r=${r}}catch(e){__log(__E(e))};T(()=>Q(r.source));T(()=>Q(String(r)));T(()=>(0,eval)(String(r)).source===r.source);T(()=>(0,eval)(String(r)).test("/\\n"));T(()=>r.test("/"));T(()=>r.test("\\n"))`, cls: 'source' };
    const pats = ['/a/g', 'undefined', '"b"', 'null', '{}', 'TO("c")', '{[Symbol.match]:true,source:"s",flags:"i",constructor:RegExp}', '{[Symbol.match]:true,constructor:RegExp}', '{[Symbol.match]:true,get source(){L("src");return "z"},get flags(){L("fl");return "y"}}', 'Object.assign(/q/,{[Symbol.match]:false})', 'Object.assign(/q/,{constructor:null})', 'Y', '[1]', 'new Proxy(/a/,{})', '/x/y', 'TH()', '"("'], fl = ['', 'undefined', '"i"', '"gg"', 'null', 'TO("m")', 'TH()', '""', '5', '{}'];
    for (const p of pats) for (const f of fl) for (const c of ['RegExp', 'new RegExp', 'new (class S extends RegExp{constructor(...a){super(...a);L(new.target===S)}})', 'Reflect.construct(RegExp,A,Object)'].slice(0, 3)) yield { src: `T(()=>{var p=${p};var r=${c}(p${f ? ',' + f : ''});return [r,r===p,r.lastIndex,Object.getPrototypeOf(r)===RegExp.prototype,Reflect.ownKeys(r)]})`, cls: 'ctor' };
    for (const x of ['RegExp', 'RegExp[Symbol.species]===RegExp', 'Object.getOwnPropertyDescriptor(/a/,"lastIndex")', 'RegExp.prototype.lastIndex', 'RegExp.prototype.exec.call(RegExp.prototype,"")', 'RegExp.prototype.toString()', 'RegExp.prototype.source', 'RegExp.prototype.flags', 'Object.prototype.toString.call(RegExp.prototype)', '/a/ instanceof RegExp', 'typeof /a/', '(()=>{var a=[];for(var i=0;i<2;i++)a.push(/x/);return a[0]===a[1]})()', '/(?<__proto__>a)/.exec("a").groups', 'Object.getPrototypeOf(/(?<x>a)/.exec("a").groups)', 'DESC(/(?<x>a)(b)?/d.exec("a"))', 'DESC(/(?<x>a)(b)?/d.exec("a").indices)', 'DESC(/(a)/.exec("ba"))', 'Object.keys(/(?<b>.)(?<a>.)/.exec("xy").groups)', '"x".match()', '"undefined".match(undefined)', '"".match()[0]', '"null".search(null)', 'new RegExp("(?:".repeat(200)+")".repeat(200)).test("")', 'new RegExp("(".repeat(200)+"a"+")".repeat(200)).exec("a").length', 'new RegExp("a|".repeat(500)+"b").exec("b").index', '/^(a+)+$/.test("a".repeat(18)+"b")', '"a".repeat(2000).replace(/a*?/g,"-").length', '/(?:a|b)*c/.test("ab".repeat(2000)+"c")', '/a*b/.test("a".repeat(2000))', '/(a)|b/g[Symbol.replace]("ab".repeat(500),"$1").length', '"ab".repeat(500).split(/(b)/).length']) yield { src: `T(()=>${x === 'RegExp' ? 'SURF(RegExp).replace(/[^ ]*(input|lastMatch|lastParen|leftContext|rightContext|escape|\\$\\S+)[^ ]* ?/g,"").length>0' : x})`, cls: 'misc' };
    for (const k of ['exec', 'test', 'toString', 'Symbol.match', 'Symbol.matchAll', 'Symbol.replace', 'Symbol.search', 'Symbol.split']) { const e = k.startsWith('Symbol') ? `RegExp.prototype[${k}]` : `RegExp.prototype.${k}`; yield { src: `T(()=>{var f=${e};return [f.name,f.length,"prototype" in f,__C(f),Object.getOwnPropertyDescriptor(RegExp.prototype,${k.startsWith('Symbol') ? k : J(k)}).enumerable]});T(()=>${e}.call(5,"a"));T(()=>${e}.call(undefined));T(()=>${e}.call("a","a"));T(()=>${e}.call(/a/));T(()=>{var z=${e}.call(/a/,TH());return typeof z})`, cls: 'surf' }; }
    for (const l of seqsUpTo(['it.next()', 'it.next().value', 'r.lastIndex=2', 'r.exec=()=>{L("own");return null}', '[...it].length', 'Object.getPrototypeOf(it).next.call({})', 'Object.prototype.toString.call(it)', 'Object.getPrototypeOf(it).next.call(r)'], 3, 1)) for (const re of ['/a/g', '/(?:)/gu']) yield { src: `var r=${re},it="aba".matchAll(r);${l.map(o => `T(()=>{var z=${o};return z&&z.value?[z.done,X(z.value)]:Array.isArray(z)?X(z):z})`).join(';')}`, cls: 'iter' };
    // regular expression literals in source
    for (const s of ['/a/', '/[/]/', '/\\//', '/a/g.flags', '/=/.source', '1/2/1', 'x=/=/', '/a\\/b/', '/[\\]/]/', '/a\n/', '/a', '/a/gg', '//', '/*/', '/(/', '/)/', '/[/', '/\\/', '/a/\\u0067', '/\\u2028/', '/a/i\\u{67}', '/[[]/', '/[\\\\]/', '+/a/', 'typeof/a/', 'void/a/', '(1)/2', 'a=1;a/2', '[]/1', '({})/1', '`x`/1', 'a=1;a++/2', '{}/a/', 'if(1)/a/', '()=>/a/', 'yield/a/', '/a/\n/b/', '!/a/', '/a/.test("a")?/b/:/c/', '/[^/]+/', '/a/ /b/']) yield { src: `T(()=>{var v=(0,eval)(${J(s)});return v instanceof RegExp?String(v):v})`, cls: 'lit' };
  },
};
