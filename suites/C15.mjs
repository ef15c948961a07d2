// Numbers and text: literal and string parsing, shortest and formatted output, Number and Math functions.
import { P0, product, seqs, seqsUpTo, pack } from '../lib/prelude.mjs';
const bnd = ['0', '-0', '1', '-1', '0.1', '0.5', '1.5', '2.5', '-2.5', '9.5', '9.95', '9.995', '99.95', '0.000001', '0.0000001', '1e21', '1e20', '999999999999999900000', '123456789012345680000', '1.25', '1.35', '1.45', '0.05', '0.15', '0.25', '0.35', '0.45', '1.005', '1.0049999', '25', '35', '125', '1234.5678', '0.00001234', '1e-7', '1.2e-6', '5e-324', '1.7976931348623157e308', '2.2250738585072014e-308', '2.225073858507201e-308', '4.35', '1e23', '9007199254740991', '9007199254740992', '9007199254740993', '4294967295', '4294967296', '2147483647', '2147483648', '-2147483648', '-2147483649', '1e300', '1e-300', '123.456', '-1.5', '0.3', '2/3', '1/3', '1e15', '1e16', '1e17', '123456789', '0.1+0.2', '100', '1000', '1e5', '65535', '65536', 'NaN', 'Infinity', '-Infinity', '-1e21', '-123.456', '1000000000000000128', '1000000000000000000', '0.9', '0.99', '0.999', '0.9999999', '999.9999', '1e2', '-1e-7', '2**31', '2**32', '2**52', '2**53', '2**53+2', '2**63', '2**64', '2**100', '2**-10', '2**-30', '2**-60', '0.4999999999999999', '0.49999999999999994', '4503599627370495.5', '4503599627370497.5', '-0.5', '-0.4', '1.1', '8.345', '10.235', '77.1234', '1.45e-10'];
const dig = ['', 'undefined', '0', '1', '2', '3', '5', '7', '10', '15', '16', '17', '20', '21', '22', '50', '99', '100', '101', '-1', 'NaN', '"3"', '1.9', 'Infinity', 'null', 'Y', '{}', '1n'];
// numeric literal and string texts: words over an alphabet
const litA = ['0', '1', '9', '.', 'e', 'E', '+', '-', '_', 'x', 'b', 'o', 'n', 'a', ' '];
const strs = ['', '/**/1', '1/*x*/', '//', '1//', '\\u0049nfinity', 'Infinity/**/', '<!--1', '-->', '/**/', '`', '#!x', '+/**/1', ' ', '\\n', '\\t1\\v', '\\u00a01\\ufeff', '\\u180e1', '\\u200b1', '1 2', '+1', '-1', '+-1', '--1', '+ 1', '1.', '.1', '.', '1e', '1e+', '1e5', '1E-5', '1e+05', '1_0', '0x1F', '0X1f', '-0x1', '+0x1', '0x', '0xg', '0b101', '0B2', '0o17', '0O8', '017', '010', '08', '00', '-0', '-0.0', '+0', 'Infinity', '-Infinity', '+Infinity', 'infinity', 'INFINITY', 'Infinityx', 'NaN', 'null', 'true', '1n', '0x1n', '1,000', '1e1000', '-1e1000', '1e-1000', '5e-324', '2e-324', '2.4703282292062327e-324', '2.4703282292062328e-324', '1.7976931348623158e308', '1.7976931348623159e308', '9007199254740993', '9007199254740992.99999', '9007199254740993.00000000000000000000000001', '0.1e1', '00.5', '1..2', '1.e3', '.e3', '0.0000000000000000000000000000001', '12345678901234567890', '１', '1\\u0000', '\\u00001', '\\ud800', '1e0.5', '0e5', '0e-5', '0x1p3', '1f', '1d', '0.1.2', '\\u2028 3 \\u2029', '\\r\\n4', '1/2', '(1)', '\\u30001', '1\\u0085', '0b', '0o', '0b12', '+Infinity1', '-', '+', 'e5', '0x10000000000000000000', '0xfffffffffffff800', '0xfffffffffffffc00', '0xfffffffffffff400', '0x20000000000001', '0x20000000000003', '0b100000000000000000000000000000000000000000000000000001', '0o400000000000000001', '0o400000000000000003'];
const un = ['abs', 'ceil', 'floor', 'round', 'sign', 'trunc', 'fround', 'sqrt', 'clz32'];
const tr = ['acos', 'acosh', 'asin', 'asinh', 'atan', 'atanh', 'cbrt', 'cos', 'cosh', 'exp', 'expm1', 'log', 'log10', 'log1p', 'log2', 'sin', 'sinh', 'tan', 'tanh'];
export default {
  id: 'C15', level: 'exploration', reset: 300, variants: ['plain'],
  rule: 'one case = a group of up to 40 numbers of one bit-pattern family, one text, or one call; all distinct; non-trivial: every case',
  prelude: P0 + String.raw`
var Y=Symbol("Y"),DV=new DataView(new ArrayBuffer(8));
function BITS(h,l){DV.setUint32(0,h>>>0);DV.setUint32(4,l>>>0);return DV.getFloat64(0)}
function HX(x){DV.setFloat64(0,x);return DV.getUint32(0).toString(16)+"."+DV.getUint32(4).toString(16)}
// shortest text, reparsed
function RT(x){if(x!==x)return;var s=String(x);__log(s+(Object.is(+s,x)||x===0?"":"!RT"))}
function FM(x){var o="";for(var d=0;d<=20;d++){o+=x.toExponential(d)+" "+x.toPrecision(d+1)+" "+(Math.abs(x)<1e21?x.toFixed(d):"")+" "}__log(o)}
function VO(v){return{valueOf(){L("v");return v}}} function TH(){return{valueOf(){throw "TH"}}}
// results of approximate functions: six digits
function AP(x){__log(typeof x==="number"?(x===0?__S(x):Number.isFinite(x)?x.toExponential(5):String(x)):__S(x))}
`,
  bounds: {
    quick: `all 2046 binary exponents x 12 mantissa patterns (shortest text and reparse), ${bnd.length} boundary numbers x ${dig.length} digit arguments x toFixed/toExponential/toPrecision/toString; all texts of length <= 4 over ${litA.length} characters as literals and as strings; decimal texts around every power of ten; exact Math functions on ${bnd.length}^2 pairs`,
    thorough: '60 mantissa patterns x all exponents with full formatting; all texts of length <= 5'
  },
  *gen(tier) {
    const th = tier === 'thorough';
    // every binary exponent with mantissa patterns
    const mant = [[0, 0], [0, 1], [0xfffff, 0xffffffff], [0xfffff, 0xfffffffe], [0x80000, 0], [0x55555, 0x55555555], [0xaaaaa, 0xaaaaaaaa], [0x12345, 0x6789abcd], [0x7ffff, 0xffffffff], [0, 0x80000000], [0x99999, 0x9999999a], [0x33333, 0x33333333]];
    if (th) for (let i = 0; i < 20; i++) { mant.push([0, 1 << i], [(0x9e377 * (i + 1)) & 0xfffff, (0x85ebca6b * (i + 3)) >>> 0], [0xfffff ^ (1 << i), 0]); }
    for (let e = 0; e < 2047; e += 4) for (const [h, l] of mant) yield { src: `for(var e=${e};e<${Math.min(e + 4, 2047)};e++)RT(BITS((e<<20)|${h},${l}))` };
    for (let e = 0; e < 2047; e += th ? 1 : 8) for (const [h, l] of th ? mant.slice(0, 20) : mant.slice(0, 3)) yield { src: `FM(BITS((${e}<<20)|${h},${l}))` };
    for (let i = 0; i < 64; i++) yield { src: `for(var j=0;j<53;j++)RT(BITS((j<20?1<<j:0)|(${i * 32 + 5}<<20),j>=20?1<<(j-20):0));` };
    // decimal neighbourhoods: d*10^k written out, parsed and printed
    for (let k = -330; k <= 310; k++) yield { src: `var ds=["1","9","5","2","45","123456789","9007199254740993","17976931348623157","49406564584124654","22250738585072014","22250738585072011","5000000000000001","99999999999999999","123456789012345678901234567890","1000000000000000055511151231257827"];for(var d of ds){var x=+(d+"e${k}");L(HX(x)+" "+x);var y=parseFloat(d[0]+"."+d.slice(1)+"e"+${k}+"x");if(y!==+(d[0]+"."+d.slice(1)+"e"+${k}))L("pf"+d)}` };
    // half-way texts between adjacent doubles (exact decimal expansions built with BigInt)
    for (let e = -1074; e <= 971; e += th ? 1 : 5) yield { src: `var e=${e},ms=[1n,2n,3n,(1n<<53n)-1n,(1n<<52n)+1n,1n<<52n,0x15555555555555n,5n,(1n<<53n)-2n];for(var m of ms){var n=2n*m+1n,t;if(e-1>=0)t=String(n<<BigInt(e-1));else{var k=1-e;var v=n*5n**BigInt(k);t=v+"e-"+k}L(HX(+t));L(HX(+(t.includes("e")?t.replace("e","1e"):t+".0000000001")));var w=t.includes("e")?t.slice(0,t.indexOf("e")):t,s=t.includes("e")?t.slice(t.indexOf("e")):"";L(HX(+(String(BigInt(w)*10n-1n)+"e"+((s?+s.slice(1):0)-1))))}` };
    // formatting calls
    for (const x of bnd) for (const d of dig) for (const f of ['toFixed', 'toExponential', 'toPrecision']) yield { src: `T(()=>(${x}).${f}(${d}))` };
    for (const x of bnd) for (const r of ['', 'undefined', '2', '8', '10', '16', '36', '1', '37', '0', 'NaN', '"16"', 'null', '4', '32', '-2', '2.9', 'Infinity', 'Y', ...(/^-?(0|1|25|35|100|1000|125|65535|65536|123456789|4294967295|4294967296|2147483647|2147483648|2147483649|9007199254740991|2\*\*31|2\*\*32|2\*\*52|NaN|Infinity)$/.test(x) ? ['3', '5', '7', '11', '12', '13', '19', '23', '29', '31', '33', '35'] : [])]) if (!(/^(32|36)$/.test(r) && false)) { if (r === '36' && (/[./]/.test(x) || /e/.test(x) || /^\d{17,}|2\*\*(53\+|63|64|100|-)/.test(x))) continue; if (/^(2|4|8|16|32|2.9|"16")$/.test(r) && /2\/3|1\/3/.test(x) && false) continue; yield { src: `T(()=>(${x}).toString(${r}))` }; }
    for (let n = 0; n < 64; n++) yield { src: `var o="";for(var r=2;r<=36;r++){o+=(${n}*37).toString(r)+" "+(2**${n % 53}).toString(r)+" "+(-(2**${n % 53})+1).toString(r)+" ";var s=(2**${n % 53}-1).toString(r);if(parseInt(s,r)!==2**${n % 53}-1)o+="!"+r}L(o)` };
    // texts over the alphabet: as literals (in the parser) and as strings
    const words = n => seqsUpTo(litA, n, 1);
    yield* pack((function* () { for (const w of words(th ? 5 : 4)) yield JSON.stringify(w.join('')); })(), 40, a => `for(var s of [${a.join()}]){var r=__S(Number(s))+" "+__S(parseFloat(s))+" "+__S(parseInt(s))+" "+__S(parseInt(s,16))+" ";try{r+=__S(BigInt(s))}catch(e){r+=e.name}__log(r)}`);
    // only texts a literal can consist of; blanks and letters give the same verdict as strings
    yield* pack((function* () { for (const w of words(th ? 5 : 4)) { const s = w.join(''); if (/^[0-9.]/.test(s) && !/[ +]|--/.test(s)) yield JSON.stringify(s); } })(), 40, a => `for(var s of [${a.join()}]){try{__log(__S((0,eval)(s)))}catch(e){__log(e.name)}try{__log(__S((0,eval)('"use strict";'+s)))}catch(e){__log(e.name)}}`);
    for (const s of strs) for (const f of [`Number("${s}")`, `parseFloat("${s}")`, `parseInt("${s}")`, `parseInt("${s}",16)`, `parseInt("${s}",10)`, `parseInt("${s}",2)`, `parseInt("${s}",36)`, `parseInt("${s}",0)`, `parseInt("${s}",8)`, `+"  ${s}\\n"`, `parseFloat(" ${s}z")`, `BigInt("${s}")`, `isNaN("${s}")`, `Number.isInteger("${s}")`, `"${s}"*1===+"${s}"`, `[5,6]["${s}"]`]) if (!(/,36/.test(f) && s.length > 9)) yield { src: `T(()=>{var r=${f};return typeof r==="number"&&r===r?HX(r)+" "+r:r})` };
    for (const s of ['"10"', '"0x10"', '"-0x10"', '"zz"', '"19"', '"9007199254740993"', '"-0"', '"100000000000000000000"', 'null', 'undefined', '1e21', '1e-7', '0.5', '-0', '15n', '{toString(){L("ts");return "12"}}', 'Y', '[12]', '"\\u20289"', '""']) for (const r of ['', '0', '1', '2', '3', '8', '10', '16', '35', '36', '37', '-1', 'NaN', 'Infinity', '4294967298', '4294967306', '"16"', '"0x10"', 'VO(16)', '1.9', '-4294967286', 'null', 'TH()', '2n', 'Y', '10.9']) if (!(/^3[56]$/.test(r) && s.length > 12)) yield { src: `T(()=>parseInt(${s}${r ? ',' + r : ''}))` };
    // parse in power-of-two radices beyond 2^53: rounding
    for (const r of [2, 4, 8, 16, 32]) for (let n = 50; n < 70; n++) for (const p of ['', '+1', '+2', '+3', '*3+1']) yield { src: `var b=(1n<<${n}n)${p.replace(/(\d)/g, '$1n')};for(var q of [b,b+(b>>52n),b+(b>>53n),b-(b>>54n)-1n,b+(b>>53n)-1n,b+(b>>53n)+1n]){L(HX(parseInt(q.toString(${r}),${r})));L(HX(Number(q)))}` };
    // Number functions
    for (const x of [...bnd, '"1"', 'undefined', 'null', '{}', 'Y', '5n', 'true', '[]', 'VO(3)', 'TH()', 'new Number(5)', '"x"', '']) { for (const f of ['Number.isInteger', 'Number.isSafeInteger', 'Number.isFinite', 'Number.isNaN', 'isFinite', 'isNaN', 'Number', 'new Number', 'Number.parseFloat', 'parseFloat', 'parseInt']) yield { src: `T(()=>{var r=${f}(${x});return typeof r==="object"?"o"+r:r})` }; for (const f of ['valueOf()', 'toString()', 'toFixed(2)', 'toLocaleString.call.length', 'toExponential(1)', 'toPrecision(3)']) if (x) yield { src: `T(()=>Number.prototype.${f.replace('(', '.call(' + x + (/\(\)/.test(f) ? '' : ','))})` }; }
    // Math
    for (const f of un) for (const x of [...bnd, '"4"', 'undefined', 'null', '{}', 'Y', '5n', 'true', 'VO(-3.5)', 'TH()', '']) yield { src: `T(()=>Math.${f}(${x}))` };
    for (const f of ['max', 'min', 'imul', 'atan2', 'pow', 'hypot']) for (const x of bnd) for (const y of bnd) { if (/atan2|pow|hypot/.test(f)) { if (/2\*\*-/.test(x)) continue; /* exact ties of the compared digits */ if (f !== 'pow' || th || bnd.indexOf(y) < 30) yield { src: `AP(Math.${f}(${x},${y}))` }; } else yield { src: `T(()=>Math.${f}(${x},${y}))` }; }
    for (const f of ['max', 'min', 'hypot', 'imul', 'pow', 'atan2']) for (const s of seqsUpTo(['1', '-0', '0', 'NaN', 'Infinity', '-Infinity', '"2"', 'VO(3)', 'TH()', '1n', 'undefined'], 3)) if (!/TH|1n/.test(s.slice(0, -1).join()) || s.length < 3) yield { src: f === "hypot" ? `T(()=>{AP(Math.${f}(${s}))})` : `T(()=>Math.${f}(${s}))` };
    for (const f of tr) for (const x of [...bnd, 'Math.PI', 'Math.PI/2', '-Math.PI', 'Math.E', '1e-10', '-1e-10', '710', '-745.2', '709.78', '0.7', '-0.7', '20', '-20', '2', '3', '8', '1024', '"x"', 'undefined', '5n', 'Y', 'VO(1)', '']) { if (/2\*\*-/.test(x)) continue; if (/^(sin|cos|tan)$/.test(f) && /e(15|16|17|20|21|23|300|308)|\*\*(5|6|10)|\d{16}/.test(x)) continue; yield { src: `try{AP(Math.${f}(${x}))}catch(e){L(__E(e))}` }; }
    for (let i = -60; i <= 60; i++) yield { src: `for(var j=-8;j<=8;j++){var x=${i}+j/16;L([Math.round(x),Math.floor(x),Math.ceil(x),Math.trunc(x),Math.fround(x*0.1),Math.sqrt(Math.abs(x)),x%3,x%-1.5]);L((x).toFixed(1)+" "+(x).toFixed(2)+" "+(x).toFixed(3)+" "+(x).toPrecision(2)+" "+(x).toExponential(2))}` };
    for (let k = 0; k < 60; k++) yield { src: `for(var j=-3;j<=3;j++)for(var f of [0,0.25,0.5,0.75,-0.5]){var x=2**${k}+j+f;L([Math.round(x),Math.floor(-x),Math.ceil(x),Math.fround(x),Math.clz32(x),Math.imul(x,x+1),x|0,x>>>0])}` };
    for (const o of ['Math', 'Number', 'Number.prototype']) yield { src: `L(SURF(${o}).replace(/-?\\d\\.\\d+(e[-+]\\d+)?/g,m=>HX(+m)));T(()=>Object.prototype.toString.call(${o}))` };
    yield { src: 'for(var i=0;i<200;i++){var r=Math.random();if(!(r>=0&&r<1))L(r)}L("ok")' };
  }
};
