// URI coding over every code unit, every byte sequence shape and all short texts.
import { P0, product, seqsUpTo, pack } from '../lib/prelude.mjs';
const J = JSON.stringify;
const PRE = String.raw`
var E=encodeURI,EC=encodeURIComponent,D=decodeURI,DC=decodeURIComponent;
function Q(f,s){try{return f(s)}catch(e){return e instanceof URIError?"!U":__E(e)}}
function H(x){return [...Array(x.length)].map((_,i)=>x.charCodeAt(i).toString(16)).join(".")}
function R(s){var a=Q(D,s),b=Q(DC,s);__log(a==="!U"?"!":H(a));if(a!==b)__log(b==="!U"?"!":H(b))}
function B(a){return a.map(x=>"%"+(x<16?"0":"")+x.toString(16).toUpperCase()).join("")}
`;
const bytes = [0x00, 0x23, 0x24, 0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xf7, 0xf8, 0xff];
const few = [0x00, 0x41, 0x80, 0x8f, 0x90, 0xa0, 0xbf, 0xc2, 0xe0, 0xed, 0xef, 0xf0, 0xf4, 0xff];
const frag = ['%', '2', '4', '1', 'u', 'G', 'é', '+'];
const reserved = ";/?:@&=+$,#", unres = "-_.!~*'()";
export default {
  id: 'C21', title: 'URI functions', reset: 300, prelude: P0 + PRE,
  rule: 'one case = a block of code units, code points or percent-escaped byte sequences, or a group of texts; all distinct; non-trivial when it produces at least one result',
  * gen(tier) {
    const Q = tier === 'quick';
    // every code unit alone, before and after a character, escaped both ways
    for (let c = 0; c < 65536; c += 256) {
      yield { src: `for(var c=${c};c<${c + 256};c++){var s=String.fromCharCode(c);__log(Q(E,s)+" "+Q(EC,s)+" "+Q(E,"a"+s+"b"))}`, cls: 'unit' };
      yield { src: `for(var c=${c};c<${c + 256};c++){var s=String.fromCharCode(c),h=c.toString(16).padStart(4,"0");if((c<0xd800||c>0xdfff)&&(D(E(s))!==s||DC(EC(s))!==s||DC(E(s))!==s))__log("rt "+h);__log(H(Q(D,s))+H(Q(DC,"%"+s)))}`, cls: 'unit' };
    }
    // every surrogate pair (quick: at a stride that visits every high and every low)
    for (let hi = 0; hi < 1024; hi += 4) yield { src: `for(var h=${hi};h<${hi + 4};h++)for(var l=h%${Q ? 61 : 1};l<1024;l+=${Q ? 61 : 1}){var s=String.fromCharCode(0xd800+h,0xdc00+l),e=E(s);if(e!==EC("x"+s).slice(1)||D(e)!==s||DC(e.toLowerCase())!==s||e.length!==12)__log("bad "+h+" "+l);if(l%7===0)__log(e)}`, cls: 'pair' };
    const sur = ['d7ff', 'd800', 'dbff', 'dc00', 'dfff', 'e000', '61', '25']; for (const t of seqsUpTo(sur, 4)) if (t.length) yield { src: `var s=String.fromCharCode(${t.map(x => '0x' + x)});__log(Q(E,s));__log(Q(EC,s));R(s)`, cls: 'surrogate' };
    // percent-escaped byte sequences: all one- and two-byte sequences, boundary bytes for three and four, and truncations
    for (let a = 0; a < 256; a++) yield { src: `R(B([${a}]));R(B([${a}]).toLowerCase());R("x"+B([${a}])+"y");for(var b=0;b<256;b++){R(B([${a},b]))}`, cls: 'bytes' };
    for (const a of bytes) for (const b of bytes) yield { src: `for(const c of [${bytes}]){R(B([${a},${b},c]));R(B([${a},${b}])+String.fromCharCode(c))}`, cls: 'bytes' };
    for (const [a, b, c] of product(Q ? few.slice(7) : bytes.slice(14), few, few)) yield { src: `for(const d of [${Q ? few : bytes}])R(B([${a},${b},${c},d]))`, cls: 'bytes' };
    if (!Q) for (let a = 0xe0; a < 0xf8; a++) for (let b = 0; b < 256; b += 8) yield { src: `for(var b=${b};b<${b + 8};b++)for(var c=0;c<256;c++){var n=0;R(B([${a},b,c]));R(B([${a},b,c,0x80]))}`, cls: 'bytes' };
    for (const m of ['%', '%4', '%G1', '%1G', '% 41', '%+4', '%-1', '%0x', '%%41', '%41%', '%e', '%e2', '%e2%', '%e2%8', '%e2%82', '%e2%82%', '%e2%82%a', '%e2%82%ac', '%e2%82ac', '%e2x82%ac', '%f0%9f%98', '%f0%9f%98%', '%f0%9f%98%80', '%f0%9f%98%80%', '%u0041', '%u004', '%u', '%uD83D%uDE00', '%U0041', '%u00g1', '%u 041', '%u+041', '%ud83d', '%\uff11\uff11', '%4\uff11']) yield { src: `for(const s of [${J(m)},"a"+${J(m)},${J(m)}+"b",${J(m)}+"%41",${J(m)}+${J(m)}]){R(s);__log(Q(E,s))}`, cls: 'malformed' };
    yield* pack((function* () { for (const t of seqsUpTo(frag, Q ? 5 : 6)) yield J(t.join('')); })(), 200, a => `for(const s of [${a}]){var a=Q(D,s),b=Q(DC,s);__log(H(a)+(b===a?"":"/"+H(b)))}`, 'text');
    // escapes of reserved characters stay escaped in decodeURI and their neighbours are untouched
    for (let c = 0; c < 128; c++) { const h = c.toString(16).padStart(2, '0'); yield { src: `for(const s of ["%${h}","%${h.toUpperCase()}","a%${h}b","%${h}%${h}","%25${h}","%${h}%c3%a9"]){__log(Q(D,s));__log(Q(DC,s))}var s=String.fromCharCode(${c});__log(D(E(s+"/"+s))===s+"/"+s);__log(DC(E(s))===s)`, cls: 'reserved' }; }
    for (const a of reserved + unres + '%^"<>[]{}|\\` ') for (const b of reserved + unres + '%^"<>[]{}|\\` aé') yield { src: `var s=${J(a + b + 'x' + a)};__log(E(s));__log(EC(s));__log(D(E(s))===s||"d");__log(DC(EC(s))===s);__log(D(EC(s)))`, cls: 'reserved' };
    // long inputs
    for (const [p, n] of product(['a', 'é', '€', '\u{1f600}', '%', ' ', '\ud800'], [10, 100, 1000, 10000])) yield { src: `var s=${J(p)}.repeat(${n});for(const f of [E,EC]){var r=Q(f,s);L([r.length,r.slice(0,24),r.slice(-12)]);if(r!=="!U")L(DC(r)===s)}`, cls: 'long' };
    // arguments
    for (const f of ['encodeURI', 'encodeURIComponent', 'decodeURI', 'decodeURIComponent']) { for (const v of ['', 'undefined', 'null', '1.5', '-0', '1n', 'true', 'Symbol()', '[1,"é"]', '{}', '{toString(){L("ts");return "é%41"},valueOf(){L("vo");return 1}}', '{toString(){throw 7}}', '{toString(){return {}},valueOf(){return {}}}', '{[Symbol.toPrimitive](h){L(h);return "%42 "}}', 'new String("a b")', '"a","b"']) yield { src: `T(()=>${f}(${v}));T(()=>${f}.call(5,${v || 'undefined'}));T(()=>new ${f}(${v}))`, cls: 'argument' }; yield { src: `L([typeof ${f},${f}.name,${f}.length,__C(${f}),"prototype" in ${f}]);L(DESC(${f}));var d=Object.getOwnPropertyDescriptor(globalThis,"${f}");L([d.writable,d.enumerable,d.configurable]);try{decodeURI("%")}catch(e){L([e.name,e instanceof URIError,Object.getPrototypeOf(e)===URIError.prototype])}`, cls: 'surface' }; }
  },
};
