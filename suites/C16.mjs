// BigInt: exact integer arithmetic for every sign and limb pattern, conversions, comparisons and text.
import { P0, product, seqsUpTo, pack } from '../lib/prelude.mjs';
const h = x => '0x' + x.toString(16) + 'n';
const lit = x => x < 0n ? '-' + h(-x) : h(x);
// operand families: little-endian 32-bit limbs over a boundary alphabet
function fam(alpha, n, top = alpha) {
  const s = new Set([0n]);
  const rec = (k, v) => { s.add(v); if (k < n) for (const a of alpha) rec(k + 1, v | (a << BigInt(32 * k))); };
  rec(0, 0n);
  const r = [...s]; return [...r, ...r.filter(x => x).map(x => -x)];
}
const M = 0xffffffffn, H = 0x80000000n;
const quickV = () => [...new Set([...fam([0n, 1n, 0x7fffffffn, H, M], 2), ...[1n, H, M].flatMap(a => [0n, M].flatMap(b => [0n, 1n, M].flatMap(c => { const v = (a << 64n) | (b << 32n) | c; return [v, -v]; })))])];
const thoroughV = () => [...new Set([...fam([0n, 1n, 2n, 0x7fffffffn, H, H + 1n, M], 3), ...[3n, 7n, 10n, 0xfffffffen, 0x55555555n, 0xaaaaaaaan, 1n << 96n, (1n << 96n) - 1n, (1n << 127n) + 1n, 10n ** 20n, 10n ** 40n].flatMap(x => [x, -x])])];
const OPS = 'function R(f){try{var v=f();return typeof v==="bigint"?v.toString(36):String(v)}catch(e){return e.constructor.name}}\n' +
  'function B(a,b){return R(()=>a+b)+","+R(()=>a-b)+","+R(()=>a*b)+","+R(()=>a/b)+","+R(()=>a%b)+","+R(()=>a&b)+","+R(()=>a|b)+","+R(()=>a^b)+","+(a<b)+(a<=b)+(a>b)+(a>=b)+(a==b)+(a===b)+Object.is(a,b)}\n' +
  'function U(a){return R(()=>-a)+","+R(()=>~a)+","+R(()=>{var x=a;x++;return x})+","+R(()=>{var x=a;x--;return x})+","+R(()=>{var x=a;return x++ + --x})+","+!a+","+R(()=>Number(a))+","+R(()=>+a)+","+R(()=>parseFloat(a))+","+R(()=>BigInt(Number(a)))+","+R(()=>a>>>0n)}\n';
const chunk = function* (l, k) { for (let i = 0; i < l.length; i += k) yield l.slice(i, i + k); };
const nums = ['0', '-0', '0.5', '-0.5', '1', '-1', '1.5', '2147483648', '4294967295', '4294967296', '4294967296.5', '-4294967296', '9007199254740991', '9007199254740992', '9007199254740994', '18446744073709551615', '18446744073709551616', '18446744073709549568', '-18446744073709551616', '1e21', '1e300', '1.7976931348623157e308', 'Infinity', '-Infinity', 'NaN', '5e-324', '2**84', '2**85', '2**83', '2**53-0.5', '2**63', '-(2**63)', '2**96', '2**96+2**50'];
const texts = ['', ' ', '0', '00', '-0', '+0', '1', '+1', '-1', '--1', '1n', '0x10', '0X1f', '0b101', '0o17', '-0x1', '+0b1', '0x', '0b2', '0o8', '0xg', '1.0', '1.', '.1', '1e3', '1_0', ' 12 ', '\\n12\\t', '\\ufeff1', '1 2', 'Infinity', 'NaN', 'null', '10', '017', '08', '4294967295', '4294967296', '18446744073709551616', '-18446744073709551615', '340282366920938463463374607431768211456', '0xffffffffffffffffffffffffffffffff', '0b' + '1'.repeat(100), '0o' + '7'.repeat(50), '9'.repeat(100), '-' + '1'.repeat(60), '1\\0', '\\u0661', 'a', '0b', '0o', '- 1', '1-', '0x-1', '/**/1', '1/**/', '\\u0031', '1//', '+', '-', '1,0', '0xABCDEFabcdef0123456789', '\\u2028 7 \\u2029'];
const vals = ['undefined', 'null', 'true', 'false', '1', '1.5', 'NaN', '"1"', '"x"', 'Symbol()', '{}', '[]', '[5]', '()=>1', '{valueOf(){L("v");return 7n}}', '{valueOf(){L("v");return 7}}', '{toString(){L("s");return "9"},valueOf(){L("v");return {}}}', '{[Symbol.toPrimitive](h){L(h);return 3n}}', '{[Symbol.toPrimitive](h){throw L("t")}}', 'Object(4n)', 'new Date(5)', '-0', '2**64', '1e400'];
const bitsL = ['0', '1', '2', '31', '32', '33', '63', '64', '65', '95', '96', '97', '128', '200'];
const badBits = ['undefined', 'null', 'NaN', '-1', '1.9', '"8"', '-0.9', '2**53', '2**53-1', 'Infinity', '{valueOf(){L("b");return 8}}', 'Symbol()', '1n', 'Object(3)'];
const shV = ['0n', '1n', '2n', '31n', '32n', '33n', '63n', '64n', '65n', '96n', '97n'].flatMap(s => s === '0n' ? [s] : [s, '-' + s]);
const AOPS = ['+', '-', '*', '/', '%', '**', '&', '|', '^', '<<', '>>', '>>>'];
const ROPS = ['<', '<=', '>', '>=', '==', '!=', '===', '!=='];
const ops = ['0n', '1n', '-1n', '5n', '4294967296n', '-18446744073709551616n', '0', '-0', '1', '1.5', 'NaN', 'Infinity', '-Infinity', '"1"', '"0x1"', '"x"', '""', '" 5 "', '"1.0"', 'true', 'false', 'null', 'undefined', 'Symbol()', '{}', '[5n]', 'Object(1n)', '{valueOf(){L("v");return 1n}}', '{valueOf(){L("w");return 1}}', '{[Symbol.toPrimitive](h){L(h);return "1"}}', '{valueOf(){throw L("t")}}', '"18446744073709551616"', '18446744073709551616', '-18446744073709551616', '4294967296', '4294967296.5', '-4294967295.5', '1e308'];
export default {
  id: 'C16', title: 'BigInt', reset: 300, prelude: P0 + OPS,
  rule: 'one case = one left operand against a group of right operands under every binary operator, or one call; all distinct; non-trivial when it produces at least one result',
  exclude: [],
  * gen(tier) {
    const Q = tier === 'quick', V = Q ? quickV() : thoroughV();
    // all pairs under every arithmetic, bit and comparison operator
    for (const a of V) for (const bs of chunk(V, 20)) yield { src: `var a=${lit(a)};for(const b of [${bs.map(lit)}])__log(B(a,b))`, cls: 'pair' };
    for (const as of chunk(V, 20)) yield { src: `for(const a of [${as.map(lit)}])__log(U(a))`, cls: 'unary' };
    // shifts
    for (const as of chunk(V, 10)) yield { src: `for(const a of [${as.map(lit)}])for(const s of [${shV}])__log(R(()=>a<<s)+","+R(()=>a>>s))`, cls: 'shift' };
    for (const a of ['0n', '1n', '-1n', '5n', '-5n']) for (const s of ['2n**32n', '-(2n**32n)', '2n**64n', '-(2n**64n)', '2n**31n', '-(2n**31n)', '2n**30n']) for (const o of ['<<', '>>']) if (a === '0n' || (s[0] === '-') === (o === '<<')) yield { src: `T(()=>${a}${o}(${s}))`, cls: 'bigshift' };
    // powers
    for (const a of ['0n', '1n', '-1n', '2n', '-2n', '3n', '-3n', '10n', '4294967295n', '4294967296n', '-4294967297n', '18446744073709551615n']) for (const e of [0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 40, 63, 64, 65, 100, 127]) yield { src: `T(()=>(${a})**${e}n)`, cls: 'pow' };
    for (const a of ['0n', '1n', '-1n', '2n']) for (const e of ['-1n', '2n**32n', '2n**32n+1n', '2n**64n', '2n**64n+1n']) if (a !== '2n' || e === '-1n') yield { src: `T(()=>(${a})**(${e}))`, cls: 'pow' };
    // division stress: quotient-digit estimation with dividends built from divisor multiples
    const D = (Q ? fam([1n, H, M], 2) : fam([0n, 1n, 2n, H, M], 3)).filter(x => x > 0n), q = [1n, 2n, H, M, M + 1n, (1n << 64n) - 1n, 1n << 63n, (H << 32n) | 1n];
    for (const d of D) for (const qs of chunk(q, 4)) yield { src: `var d=${lit(d)};for(const q of [${qs.map(lit)}])for(const r of [0n,1n,d-1n,d>>1n]){var n=q*d+r;for(const [x,y] of [[n,d],[-n,d],[n,-d],[-n,-d]])__log(R(()=>x/y)+","+R(()=>x%y)+","+((x/y)*y+x%y===x))}`, cls: 'div' };
    // radices and parsing round trip
    const SV = Q ? V.filter((_, i) => i % 3 === 0) : V.filter((_, i) => i % 2 === 0);
    for (const a of SV) yield { src: `var a=${lit(a)};for(var r=2;r<=36;r++)__log(a.toString(r));__log(a.toString(),String(a),\`\${a}\`,"0x"+(a<0n?-a:a).toString(16));__log(BigInt(a.toString())===a,BigInt("0x"+(a<0n?-a:a).toString(16))===(a<0n?-a:a),BigInt("0b"+(a<0n?-a:a).toString(2))===(a<0n?-a:a),BigInt("0o"+(a<0n?-a:a).toString(8))===(a<0n?-a:a))`, cls: 'radix' };
    for (const r of ['undefined', '1', '37', '0', '-1', 'NaN', '"16"', '2.9', 'null', 'Infinity', '1n', '{valueOf(){L("r");return 8}}']) for (const a of ['255n', '-255n', '0n', 'Object(7n)']) yield { src: `T(()=>(${a}).toString(${r}))`, cls: 'radix' };
    for (const a of ['BigInt.prototype', '1', '{}', 'undefined', '"1"', 'Object(1n)', '2n']) for (const m of ['toString', 'valueOf', 'toLocaleString']) yield { src: `T(()=>BigInt.prototype.${m}.call(${a}))`, cls: 'brand' };
    // asIntN / asUintN
    for (const a of V) yield { src: `var a=${lit(a)};for(const b of [${bitsL}])__log(R(()=>BigInt.asIntN(b,a))+","+R(()=>BigInt.asUintN(b,a)))`, cls: 'wrap' };
    for (const b of badBits) for (const v of ['300n', '-300n', '"300"', '300', 'true', 'undefined', '{valueOf(){L("v");return 5n}}']) for (const f of ['asIntN', 'asUintN']) if (!(b === '2**53-1' && f === 'asUintN' && v[0] === '-')) yield { src: `T(()=>BigInt.${f}(${b},${v}))`, cls: 'wrap' };
    // texts, literals and conversions
    for (const t of texts) yield { src: `T(()=>BigInt("${t}"));T(()=>"${t}"==12n);T(()=>BigInt("${t}").toString(16));T(()=>0n<"${t}");T(()=>BigInt("${t}")=="${t}");T(()=>BigInt.asUintN(64,"${t}"))`, cls: 'text' };
    for (const t of texts) if (!/[\\ ]/.test(t)) yield { src: `T(()=>(0,eval)("${t}n"))`, cls: 'literal' };
    for (const v of vals) yield { src: `T(()=>BigInt(${v}));T(()=>BigInt.asIntN(8,${v}));T(()=>new BigInt(${v}));T(()=>Object(BigInt(${v})).valueOf());T(()=>typeof Object(BigInt(${v})))`, cls: 'conv' };
    for (const n of nums) for (const m of nums) if (n <= m || !Q) yield { src: `var b;try{b=BigInt(Math.trunc(${n}))}catch(e){b=7n}for(const d of [-1n,0n,1n]){var x=b+d,y=${m};__log([x<y,x<=y,x>y,x>=y,x==y,x===y,y<x,y<=x,y>x,y>=x,y==x].map(Number).join(""))}`, cls: 'cmpnum' };
    for (const n of nums) yield { src: `T(()=>BigInt(${n}));T(()=>BigInt.asIntN(64,BigInt(${n})));T(()=>Number(BigInt(${n})))`, cls: 'num' };
    // rounding of BigInt to Number: halfway patterns around 53 bits
    for (const k of [53, 54, 55, 60, 63, 64, 65, 80, 96, 100, 127, 128, 500, 1022, 1023]) yield { src: `for(const m of [1n<<52n,(1n<<53n)-1n,(1n<<52n)+1n,(1n<<53n)-2n,0x15555555555555n])for(const d of [0n,1n,-1n])for(const e of [${k - 53 > 0 ? k - 53 : 1}n]){var h=1n<<e,x=m*h*2n+h+d;__log(Number(x),Number(-x),Number(m*h*2n+d),parseFloat(x.toString()))}`, cls: 'round' };
    yield { src: 'T(()=>Number(2n**1024n));T(()=>Number(2n**1024n-1n));T(()=>Number(2n**1024n-2n**970n));T(()=>Number(2n**1024n-2n**970n-1n));T(()=>Number(-(2n**1024n)));T(()=>Number(2n**1024n-2n**969n))', cls: 'round' };
    // mixed operands
    for (const [a, o, b] of product(ops, AOPS, ops)) { if (!/n|valueOf|toPrim/.test(a + b) || (o === '<<' || o === '>>' || o === '**') && (/\d{9}n/.test(a + b) || /4294967296n/.test(a + b))) continue; yield { src: `var a=${a},b=${b};T(()=>a${o}b)`, cls: 'mixed' }; }
    for (const [a, b] of product(ops, ops)) { if (!/n|valueOf|toPrim/.test(a + b)) continue; yield { src: `var a=${a},b=${b};` + ROPS.map(o => `T(()=>a${o}b)`).join(';'), cls: 'mixrel' }; }
    for (const a of ops) yield { src: ['-', '+', '~', '!', 'typeof ', 'void '].map(o => `T(()=>${o}(${a}))`).join(';') + `;T(()=>{var x=${a};x++;return x});T(()=>{var x=${a};return x--});T(()=>isNaN(${a}));T(()=>Math.abs(${a}));T(()=>[10,11,12][${a}]);T(()=>JSON.stringify(${a}));T(()=>Number(${a}));T(()=>parseInt(${a}));T(()=>Object.is(${a},1n));T(()=>[1n,2].includes(${a}));T(()=>[1n,2].indexOf(${a}));T(()=>new Map([[1n,"m"]]).get(${a}));T(()=>String(${a}))`, cls: 'un' };
    // compound assignment on chains of operations
    const CH = ['x+=y', 'x-=y', 'x*=y', 'x/=y', 'x%=y', 'x<<=3n', 'x>>=3n', 'x=~x', 'x=-x', 'x&=y', 'x|=y', 'x^=y', 'x**=2n', 'x++', 'y--', '[x,y]=[y,x]'];
    for (const s of seqsUpTo(CH, Q ? 3 : 4, 1)) yield { src: `for(let [x,y] of [[-4294967295n,3n],[0xffffffffffffffffn,-0x80000000n]]){__log(R(()=>{${s.join(';')};return x}))}`, cls: 'chain' };
    yield { src: 'T(()=>SURF(BigInt));T(()=>SURF(BigInt.prototype));T(()=>BigInt.length);T(()=>BigInt());T(()=>Object(1n)==1n);T(()=>Object(1n)===1n);T(()=>1n instanceof BigInt);T(()=>Object(1n) instanceof BigInt);T(()=>Object.prototype.toString.call(1n));T(()=>(1n).constructor===BigInt);T(()=>1n.x);T(()=>{"use strict";(1n).x=2});T(()=>Object.keys(Object(1n)));T(()=>String(-0n));T(()=>Object.is(-0n,0n));T(()=>1n/0n);T(()=>1n%0n);T(()=>typeof 1n);T(()=>[3n,1,2n,10,"5"].sort());T(()=>[3n,1,2n,10].sort((a,b)=>a<b?-1:a>b?1:0))', cls: 'surf' };
  },
};
