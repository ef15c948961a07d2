// Date: calendar arithmetic, component getters and setters, the date-time text format, local time zones.
import { P0, product, pack } from '../lib/prelude.mjs';
const J = JSON.stringify;
const PRE = String.raw`
var N=s=>String(s).replace(/ \([^)]*\)$/,"").replace(/ -0*(\d{4,})/g," -$1");
function A(t){var d=new Date(t);return [d.getUTCFullYear(),d.getUTCMonth(),d.getUTCDate(),d.getUTCDay(),d.getUTCHours(),d.getUTCMinutes(),d.getUTCSeconds(),d.getUTCMilliseconds()].join()}
function LA(t){var d=new Date(t);return [d.getFullYear(),d.getMonth(),d.getDate(),d.getDay(),d.getHours(),d.getMinutes(),d.getSeconds(),d.getMilliseconds(),d.getTimezoneOffset()].join()}
function ST(t){var d=new Date(t);return N(d)+"|"+N(d.toUTCString())+"|"+N(d.toDateString())+"|"+N(d.toTimeString())+"|"+(isNaN(t)?"":d.toISOString())}
function V(n,v){return {valueOf(){__log(n);return v}}}
function TZ(z,f){__tz(z);try{f()}finally{__tz("UTC")}}
function H(f){var h=0,n=0,s;f(x=>{n++;s=String(x);for(var i=0;i<s.length;i++)h=(h*31+s.charCodeAt(i))|0});__log(n+":"+h)}
`;
// ---- the ECMAScript date-time string format, written from the specification ------------------------------------
const days = (y, m) => [31, y % 4 === 0 && (y % 100 !== 0 || y % 400 === 0) ? 29 : 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m - 1];
// days from 1970-01-01 to y-m-d in the proleptic Gregorian calendar
const civil = (y, m, d) => { y -= m <= 2; const era = Math.floor(y / 400), yoe = y - era * 400, doy = Math.floor((153 * (m + (m > 2 ? -3 : 9)) + 2) / 5) + d - 1; return era * 146097 + yoe * 365 + Math.floor(yoe / 4) - Math.floor(yoe / 100) + doy - 719468; };
export const isoRef = s => {
  const m = /^([+-]\d{6}|\d{4})(?:-(\d\d)(?:-(\d\d))?)?(?:T(\d\d):(\d\d)(?::(\d\d)(?:\.(\d{3}))?)?(Z|[+-]\d\d:\d\d)?)?$/.exec(s);
  if (!m || m[1] === '-000000') return NaN;
  const y = +m[1], mo = +(m[2] ?? 1), d = +(m[3] ?? 1), h = +(m[4] ?? 0), mi = +(m[5] ?? 0), sec = +(m[6] ?? 0), ms = +(m[7] ?? 0);
  if (mo < 1 || mo > 12 || d < 1 || d > days(y, mo)) return NaN;
  if (h > 24 || mi > 59 || sec > 59 || (h === 24 && (mi || sec || ms))) return NaN;
  let t = civil(y, mo, d) * 864e5 + h * 36e5 + mi * 6e4 + sec * 1000 + ms;
  const z = m[8];
  if (z && z !== 'Z') { const oh = +z.slice(1, 3), om = +z.slice(4); if (oh > 23 || om > 59) return NaN; t -= (z[0] === '-' ? -1 : 1) * (oh * 36e5 + om * 6e4); }
  return Math.abs(t) > 8.64e15 ? NaN : t + 0;   // the machinery runs in UTC
};
const nums = ['NaN', 'Infinity', '-Infinity', '1e300', '-0', '0.9', '-0.9', '1.5', '-1.5', '99', '100', '-1', '1000', '86400000', '-86400000'];
const coerc = ['undefined', 'null', 'true', '"2020"', '" 0x10 "', '"x"', '[2020]', '{}', '2021n', 'Symbol()', 'V("a",4)', '{valueOf(){throw 7}}', 'V("n",NaN)'];
const bases = ['0', '-1', '951782400000', '1709164799999', '-62198755200000', '8.64e15', '-8.64e15', 'NaN', '1583020800123'];
const setters = [['Milliseconds', 1, 'ms'], ['Seconds', 2, 's'], ['Minutes', 3, 'm'], ['Hours', 4, 'h'], ['Date', 1, 'd'], ['Month', 2, 'mo'], ['FullYear', 3, 'y']];
const dom = { ms: ['0', '999', '1000', '-1', '5.9', 'NaN', '1e15', '8.64e15'], s: ['0', '59', '60', '-1', '3600', 'NaN', '1e13'], m: ['0', '59', '60', '-1', '1440', 'Infinity'], h: ['0', '23', '24', '-1', '-25', '8760', 'NaN'], d: ['0', '1', '29', '31', '32', '-1', '366', '1e8', '-1e8', 'NaN', '1e300'], mo: ['0', '1', '11', '12', '-1', '23', '-13', '1.9', 'NaN', '2400'], y: ['0', '99', '1900', '1970', '2000', '2023', '2024', '-1', '-271821', '275760', '275761', '12345', 'NaN', '-Infinity'] };
const nextDom = { ms: [], s: ['ms'], m: ['s', 'ms'], h: ['m', 's', 'ms'], d: [], mo: ['d'], y: ['mo', 'd'] };
const zones = ['America/New_York', 'Asia/Kolkata', 'Australia/Lord_Howe', 'America/St_Johns', 'Europe/London', 'Pacific/Auckland', 'EST5', 'UTC'];
export default {
  id: 'C20', title: 'Date', reset: 300, prelude: P0 + PRE,
  rule: 'one case = a block of consecutive days or boundary instants, one call of a constructor or setter with one argument tuple, a group of date texts, or one instant block in one time zone; all distinct; non-trivial when it produces at least one result',
  * gen(tier) {
    const Q = tier === 'quick';
    // every day of the years around each boundary of the calendar (thorough: a full 400-year cycle and more)
    const yrs = new Set(); const addY = (a, b) => { for (let y = a; y <= b; y++) yrs.add(y); };
    if (Q) { addY(-5, 5); addY(96, 104); addY(396, 404); addY(1595, 1605); addY(1695, 1705); addY(1895, 1905); addY(1960, 2040); addY(2095, 2105); addY(2396, 2404); addY(9996, 10004); addY(-10001, -9998); addY(-100001, -99999); addY(99998, 100001); addY(-271820, -271818); addY(275757, 275759); addY(-1, 0); addY(-401, -399); addY(-101, -99); }
    else { addY(-200, 200); addY(1580, 2420); addY(9950, 10050); addY(-10050, -9950); addY(-271820, -271720); addY(275660, 275759); addY(99970, 100030); addY(-100030, -99970); }
    for (const y of yrs) { const a = civil(y, 1, 1), n = civil(y + 1, 1, 1) - a; yield { src: `for(var i=${a};i<${a + n};i++)__log(A(i*864e5));H(L=>{for(var i=${a};i<${a + n};i++){L(A(i*864e5-1));L(ST(i*864e5+${(y * 7919 % 86400000 + 86400000) % 86400000}));L(LA(i*864e5))}})`, cls: 'day' }; }
    for (const y of yrs) yield { src: `H(L=>{for(var m=-14;m<27;m++)for(var d of [-1,0,1,28,29,30,31,32,60,365,366,367]){L(Date.UTC(${y},m,d));L(+new Date(${y},m,d));var q=new Date(0);L(q.setUTCFullYear(${y},m,d))}})`, cls: 'make' };
    // instants around every power of two and ten, and the ends of the range
    const inst = new Set(); for (let k = 0; k < 54; k++) for (const e of [-1, 0, 1]) for (const s of [1, -1]) inst.add(s * (2 ** k + e)); for (let k = 0; k < 16; k++) for (const e of [-1, 0, 1]) for (const s of [1, -1]) inst.add(s * (10 ** k + e)); for (const e of [-86400001, -86400000, -1, 0, 1, 0.5, 86400000]) for (const s of [1, -1]) inst.add(s * (8.64e15 + e));
    yield* pack((function* () { for (const t of inst) yield `var t=${t};T(()=>{var d=new Date(t);return [d.getTime(),+d,d.valueOf(),A(t),LA(t),ST(d.getTime())]})`; })(), 6, a => a.join(';'), 'instant');
    for (const y of [0, -1, -12, -123, -1234, -12345, -271820, 1, 12, 123, 999, 1000, 9999, 10000, 275759]) { const p = (y < 0 ? '-' : '') + String(Math.abs(y)).padStart(4, '0'), wd = ['Sun', 'Mon', 'Tue', 'Wed', 'Thu', 'Fri', 'Sat'][((civil(y, 1, 1) + 4) % 7 + 7) % 7], t = civil(y, 1, 1) * 864e5 + 12 * 36e5; yield { src: `var d=new Date(${t});__log(d.toDateString());__log(d.toUTCString());__log(String(d).split(' (')[0])`, cls: 'year', want: `${wd} Jan 01 ${p};${wd}, 01 Jan ${p} 12:00:00 GMT;${wd} Jan 01 ${p} 12:00:00 GMT+0000;` }; }
    // every hour, minute, second and millisecond of a day, both sides of the epoch
    for (const b of [0, -86400000, 951782400000, -62198755200000 + 43200000]) { yield { src: `for(var i=0;i<1440;i++)__log(A(${b}+i*60000+(i%60)*1000+i%1000))`, cls: 'timeofday' }; yield { src: `H(L=>{for(var i=0;i<86400;i+=${Q ? 7 : 1}){L(A(${b}+i*1000+i%1000));if(i%97==0)L(ST(${b}+i*1000))}})`, cls: 'timeofday' }; yield { src: `H(L=>{for(var i=-1500;i<1500;i++){L(A(${b}+i));L(new Date(${b}+i).toISOString())}})`, cls: 'timeofday' }; }
    // constructor and Date.UTC
    const comps = [['1970', '99', '-271821', '275760', 'NaN', '2024'], ['0', '8', '12', '-1', 'NaN'], ['1', '13', '0', '31', '20'], ['0', '24', '-1'], ['0', '60'], ['0', '61'], ['0', '1001', '-1']];
    for (const F of ['Date.UTC(', '+new Date(']) for (let n = 1; n <= 7; n++) yield* pack((function* () { for (const t of product(...(n > 5 ? comps.map(c => c.slice(0, Q ? 3 : 5)) : comps).slice(0, n))) if (!(n === 1 && F !== 'Date.UTC(')) yield `T(()=>${F}${t.join()}))`; })(), 40, a => a.join(';'), 'components');
    for (let i = 0; i < 7; i++) for (const v of [...nums, ...coerc]) { const a = ['2020', '1', '2', '3', '4', '5', '6']; a[i] = v; for (const F of ['Date.UTC(', '+new Date(']) for (const m of [i + 1, 7]) if (!(m === 1 && F !== 'Date.UTC(')) yield { src: `T(()=>${F}${a.slice(0, m).join()}))`, cls: 'coerce' }; }
    for (const F of ['Date.UTC(', '+new Date(']) { for (let y = 0; y < 101; y++) yield { src: `T(()=>[${F}${y},0),${F}${y}.9,5),${F}"${y}",0),${F}-${y},0)])`, cls: 'twodigit' }; for (let n = F === 'Date.UTC(' ? 0 : 1; n < 10; n++) yield { src: `T(()=>${F}${Array.from({ length: n }, (_, i) => `V("${i}",${i === 2 ? 1 : i})`)}))`, cls: 'order' }; for (let i = 0; i < 7; i++) yield { src: `T(()=>${F}${Array.from({ length: 7 }, (_, j) => j === i ? '{valueOf(){__log("!");throw 1}}' : `V("${j}",NaN)`)}))`, cls: 'order' }; }
    for (const v of [...nums, ...coerc, '""', '"2020-01-02"', 'new Date(5)', 'new Date(NaN)', 'Object.assign(new Date(5),{valueOf(){__log("v");return 9},toString(){__log("s");return "1"}})', 'Object.create(Date.prototype)', '{[Symbol.toPrimitive](h){__log(h);return 77}}', '{[Symbol.toPrimitive](h){__log(h);return "2020"}}', 'new Proxy(new Date(3),{})', 'new Number(8)', 'new String("2021-02-03")', '8.64e15', '8.64e15+1', '{toString(){__log("s");return "2020-02-02"},valueOf(){__log("v");return {}}}', 'new (class extends Date{valueOf(){__log("sub");return 3}})(11)']) { yield { src: `T(()=>+new Date(${v}))`, cls: 'single' }; yield { src: `T(()=>typeof Date(${v}));T(()=>Date.parse(${/^V|valueOf|Primitive/.test(v) || /Date|Number|-?[\d.]+e|^-?[\d.]+$|NaN|Inf|true|null|\[3|x10|"5"|"x"/.test(v) ? '"2020-01-02T03:04:05.006Z"' : v}))`, cls: 'single' }; }
    // setters
    for (const U of ['', 'UTC']) for (const [n, k, d0] of setters) {
      const ds = [d0, ...nextDom[d0]];
      for (const b of bases) {
        for (let a = 1; a <= k; a++) yield* pack((function* () { for (const t of product(...ds.slice(0, a).map((d, i) => i && (Q || a > 2) ? dom[d].slice(0, 4).concat('NaN') : dom[d]))) yield `[${t}]`; })(), 25, x => `for(const a of [${x}]){var d=new Date(${b});__log(d.set${U}${n}(...a)+" "+d.getTime())}`, 'setter');
        for (const v of [...nums, ...coerc]) yield { src: `var d=new Date(${b});T(()=>d.set${U}${n}(${v}));L(d.getTime())`, cls: 'setcoerce' };
        for (let a = 0; a <= k + 1; a++) { yield { src: `var d=new Date(${b});T(()=>d.set${U}${n}(${Array.from({ length: a }, (_, i) => `V("${i}",${i + 1})`)}));L(d.getTime())`, want: b === 'NaN' && n !== 'FullYear' ? Array.from({ length: Math.min(a, k) }, (_, i) => i + ';').join('') + 'NaN;NaN;' : undefined, cls: 'setorder' }; for (let i = 0; i < a; i++) yield { src: `var d=new Date(${b});T(()=>d.set${U}${n}(${Array.from({ length: a }, (_, j) => i === j ? '{valueOf(){__log("!");throw 1}}' : `V("${j}",NaN)`)}));L(d.getTime())`, want: b === 'NaN' && n !== 'FullYear' && i >= k ? Array.from({ length: k }, (_, j) => j + ';').join('') + 'NaN;NaN;' : b === 'NaN' && n !== 'FullYear' ? Array.from({ length: i }, (_, j) => j + ';').join('') + '!;!1;NaN;' : undefined, cls: 'setorder' }; }
        yield { src: `var d=new Date(${b});T(()=>d.set${U}${n}({valueOf(){d.setTime(1e9);return 3}}));L(d.getTime())`, ref: b === 'NaN' && n !== 'FullYear' ? 'L(NaN);L(1e9)' : `var d=new Date(${b});T(()=>d.set${U}${n}(3));L(d.getTime())`, cls: 'setorder' };
      }
      yield { src: `T(()=>new Date(0).set${U}${n}());var r=new Date(0);r.set${U}${n}();L(r.getTime())`, cls: 'setorder' };
    }
    for (const v of [...nums, ...coerc, '8.64e15', '8.64e15+1', '-8.64e15-1']) yield { src: `var d=new Date(5);T(()=>d.setTime(${v}));L(Object.is(d.getTime(),-0));L(d.getTime())`, cls: 'settime' };
    // the text format: every well-formed shape over small value sets, and each element out of range
    const texts = new Set(); const ty = ['1970', '2000', '2024', '2100', '0000', '9999', '+002024', '-000001', '+275760', '-271821', '-000000', '+000000', '+275761'], tm = ['', '-01', '-02', '-12', '-00', '-13'], td = ['', '-01', '-28', '-29', '-30', '-31', '-00', '-32'], tt = ['', 'T00:00', 'T23:59', 'T24:00', 'T24:01', 'T25:00', 'T12:60', 'T12:34:56', 'T12:34:60', 'T24:00:00', 'T24:00:01', 'T12:34:56.789', 'T24:00:00.000', 'T24:00:00.001', 'T00:00:00.001'], tz = ['', 'Z', '+00:00', '-00:00', '+05:30', '-08:00', '+23:59', '-23:59', '+24:00', '+01:60'];
    for (const [y, m, d, t, z] of product(ty, tm, td, tt, tz)) if (!(d && !m) && !(z && !t)) texts.add(y + m + d + t + z);
    for (let y = 1890; y <= 2110; y++) for (const m of ['-01', '-02', '-04', '-12']) for (const d of ['-28', '-29', '-30', '-31']) texts.add(y + m + d);
    for (let m = 0; m < 100; m++) { const p = String(m).padStart(2, '0'); for (const f of ['2023-@', '2023-@-01', '2023-02-@', '2024-02-@', '2023-04-@', '2023-12-@', '2023-01-01T@:00', '2023-01-01T@:00Z', '2023-01-01T@:59:59.999Z', '2023-01-01T01:@Z', '2023-01-01T01:02:@Z', '2023-01-01T01:02+@:00', '2023-01-01T01:02-01:@', '2023-01-01T01:02-@:00']) texts.add(f.replace('@', p)); }
    for (let i = 0; i < 1000; i += Q ? 37 : 1) texts.add('2023-01-01T01:02:03.' + String(i).padStart(3, '0') + 'Z');
    for (const b of ['+275760-09-13', '+275760-09-12T23:59:59.999Z', '+275760-09-13T00:00:00.001Z', '+275760-09-13T00:00Z', '+275760-09-14', '-271821-04-20', '-271821-04-20T00:00Z', '-271821-04-19T23:59:59.999Z', '+275760-09-13T01:00+01:00', '+275760-09-13T00:00-00:01', '+275760-09-12T24:00Z']) texts.add(b);
    // texts that no reading can turn into a date
    const bad = ['', 'x', 'Z', 'T', '-', '+', '2023-', '2023-01-', '2023-01-01T', '2023-01-01T01:', '2023-01-01T01:02:', '2023-01-01T01:02+', '2023-01-01T01:02+01:', '2023-01-01Tx', '2023-01-01T01:02Zx', '2023-01-01 x', '2023--01', 'T01:02', '01:02', '+2023', '++002023', '2023-0a', '2023-01-01T01:02ZZ', '2023-01-01T01:02Z+01:00', '2023-01-01T01:02+01:00Z', 'undefined', 'null', 'NaN', 'Invalid Date', 'Foo, 01 Jan 2000 00:00:00 GMT', 'Sat, 01 Foo 2000 00:00:00 GMT', '2023-01-01T01:02:03.Z', '2023-13', '2023-99-99'].filter(s => !['+2023'].includes(s));
    const grp = function* (it, cls, f, k = 60) { let b = [], w = ''; for (const s of it) { b.push(J(s)); w += f(s) + ';'; if (b.length === k) { yield { src: `for(const s of [${b}])__log(Date.parse(s))`, cls, want: w }; b = []; w = ''; } } if (b.length) yield { src: `for(const s of [${b}])__log(Date.parse(s))`, cls, want: w }; };
    yield* grp(texts, 'isotext', isoRef); yield* grp(bad, 'badtext', () => NaN);
    yield { src: `for(const s of ["2020-01-02","2020-01-02T03:04","+012020-01","2020-13-01","zz"]){__log(Date.parse(s)===+new Date(s)||(isNaN(Date.parse(s))&&isNaN(new Date(s))));T(()=>Date.parse({toString(){__log("s");return s},valueOf(){__log("v");return 1}}))}T(()=>Date.parse(Symbol()));T(()=>Date.parse({toString(){throw 4}}))`, cls: 'isotext' };
    // every text this implementation writes reads back as the same instant
    const rt = [...yrs].filter((y, i) => Q ? i % 3 === 0 : 1);
    for (const z of ['UTC', ...zones.slice(0, 4)]) for (const y of rt) if (z === 'UTC' || y > 1970 && y < 2200) { const a = civil(y, 1, 1); yield { src: `var b=[];TZ("${z}",()=>{for(var i=${a};i<${a + 365};i+=${Q ? 13 : 5}){var t=i*864e5+(i%1440)*6e4+(i%60)*1000+(i%999+999)%999,d=new Date(t),s=Math.floor(t/1000)*1000;if(Date.parse(d.toISOString())!==t)b.push("iso "+t);if(Date.parse(d.toUTCString())!==s)b.push("utc "+t+d.toUTCString());if(Date.parse(String(d))!==s)b.push("str "+t+String(d));}});__log(b.length+" "+b.slice(0,3))`, cls: 'roundtrip', want: '0 ;' }; }
    // local time zones: offsets and fields at every half hour around each change, wall-clock times through the day of each change
    const tzone = function* (z) {
      for (let y = Q ? 1995 : 1971; y <= 2037; y += 1) {
        if (Q && !(y < 1997 || (y > 2004 && y < 2011) || y > 2022 && y < 2026 || y > 2035)) continue;
        yield { src: `TZ("${z}",()=>H(L=>{for(var t=Date.UTC(${y},0,1),e=Date.UTC(${y + 1},0,1);t<e;t+=${Q ? 432e5 : 108e5})L(LA(t))}))`, cls: 'tz-utc' };
        yield { src: `TZ("${z}",()=>{var b=Date.UTC(${y},0,1),o=new Date(b).getTimezoneOffset();for(var i=1;i<366*24;i++){var q=new Date(b+i*36e5).getTimezoneOffset();if(q!==o){var s=b+(i-1)*36e5;for(var j=0;j<=4;j++)__log(LA(s+j*9e5)+" "+N(new Date(s+j*9e5)));o=q;__log(LA(s-1));for(var w=-300;w<300;w+=15){var d=new Date(${y},0,1,0,0);var l=new Date(s);var c=new Date(l.getFullYear(),l.getMonth(),l.getDate(),l.getHours(),l.getMinutes()+w);__log((c-s)/6e4)}}}})`, cls: 'tz-change' };
        yield { src: `TZ("${z}",()=>H(L=>{for(var i=0;i<366;i++)for(var h of [0,1,2,3,12,23]){L(+new Date(${y},0,i,h,30));var d=new Date(${y},5,1,h,15);L(d.setDate(i-150));L(N(d))}}))`, cls: 'tz-local' };
        yield { src: `TZ("${z}",()=>H(L=>{for(var m=0;m<12;m++)for(var d=1;d<29;d++){var s="${y}-"+String(m+1).padStart(2,"0")+"-"+String(d).padStart(2,"0");L(Date.parse(s));L(Date.parse(s+"T00:00"));L(Date.parse(s+"T02:30:15"));L(Date.parse(s+"T02:30Z"));L(Date.parse(s+"T01:30:00.5".slice(0,9)+"+01:00"));L(new Date(s).toDateString())}}))`, cls: 'tz-parse' };
      }
      for (const U of ['', 'UTC']) for (const [n, k, d0] of setters) yield { src: `TZ("${z}",()=>{for(const b of [951782400000,1709164799999,1583020800123,1604205000000,1583650800000,NaN])for(const v of [${dom[d0]}].filter(v=>v!==99&&v!==1900&&v!==-1&&v!==-1e8&&v!==-271821&&!(v===0&&"${n}"==="FullYear"))){var d=new Date(b);__log(d.set${U}${n}(v)+" "+LA(d.getTime()))}})`, cls: 'tz-set' };
      yield { src: `TZ("${z}",()=>{for(const t of [0,1e12,1.6e12,1.61e12,-1,NaN])__log(LA(t)+" "+ST(t))})`, cls: 'tz-utc' };
    };
    for (const z of zones) yield* tzone(z);
    // conversions, brand checks, subclassing, surface
    const tp = ['"default"', '"string"', '"number"', 'undefined', '"Number"', '{}', 'new String("default")', '5'];
    for (const t of ['new Date(0)', 'new Date(NaN)', '{}', '{valueOf(){__log("v");return 1},toString(){__log("s");return "t"}}', '{valueOf(){__log("v");return {}},toString(){__log("s");return {}}}', '{valueOf:1,toString(){return 2}}', '5', 'null', 'undefined', 'Object.assign(new Date(5),{valueOf(){__log("v");return "V"},toString(){__log("s");return "S"}})']) for (const h of tp) yield { src: `T(()=>N(Date.prototype[Symbol.toPrimitive].call(${t},${h})))`, cls: 'primitive' };
    for (const a of ['new Date(1e12)', 'new Date(NaN)']) for (const o of ['+', '-', '*', '==', '<', '===']) for (const b of ['1', '"s"', 'new Date(5)', 'null', '[]']) yield { src: `T(()=>N(${a}${o}${b}));T(()=>N(${b}${o}${a}));`, cls: 'primitive' };
    for (const a of ['new Date(1e12)', 'new Date(NaN)', '{}', '{toISOString(){return 7},valueOf(){return NaN}}', '{toISOString(){return 7},valueOf(){return "x"}}', '{toISOString(){return 7},valueOf(){return Infinity}}', '{toISOString:1}', 'null', 'new Date(8.64e15+1)']) yield { src: `T(()=>Date.prototype.toJSON.call(${a}));T(()=>Date.prototype.toISOString.call(${a}))`, cls: 'primitive' };
    const names = ['getDate', 'getDay', 'getFullYear', 'getHours', 'getMilliseconds', 'getMinutes', 'getMonth', 'getSeconds', 'getTime', 'getTimezoneOffset', 'getUTCDate', 'getUTCDay', 'getUTCFullYear', 'getUTCHours', 'getUTCMilliseconds', 'getUTCMinutes', 'getUTCMonth', 'getUTCSeconds', 'setDate', 'setFullYear', 'setHours', 'setMilliseconds', 'setMinutes', 'setMonth', 'setSeconds', 'setTime', 'setUTCDate', 'setUTCFullYear', 'setUTCHours', 'setUTCMilliseconds', 'setUTCMinutes', 'setUTCMonth', 'setUTCSeconds', 'toDateString', 'toISOString', 'toJSON', 'toString', 'toTimeString', 'toUTCString', 'valueOf', 'toLocaleString', 'toLocaleDateString', 'toLocaleTimeString'];
    for (const n of names) { if (n !== 'toJSON') for (const b of ['undefined', 'null', '0', '"2020"', '{}', 'Date', 'Date.prototype', 'Object.create(new Date(0))', 'new Proxy(new Date(0),{})', 'new (class extends Date{})(0)', '__realm().eval("new Date(7)")']) yield { src: `T(()=>N(Date.prototype.${n}.call(${/Locale/.test(n) && /class|realm/.test(b) ? '{}' : b},V("arg",1))))`, cls: 'brand' }; yield { src: `var d=Object.getOwnPropertyDescriptor(Date.prototype,"${n}");L([d.writable,d.enumerable,d.configurable,d.value.length,d.value.name,__C(d.value)]);T(()=>Object.keys(Date.prototype));if(!/^set|Locale/.test("${n}"))T(()=>new Date(NaN).${n}())`, cls: 'surface' }; }
    yield { src: 'L([Date.length,Date.name,Date.prototype.constructor===Date,Object.prototype.toString.call(new Date),Object.getPrototypeOf(Date)===Function.prototype,typeof Date.now(),Number.isInteger(Date.now()),Math.abs(Date.now()-new Date)<1000]);for(const k of ["now","parse","UTC"]){L(DESC(Date[k]));L([Date[k].length,__C(Date[k])])}L(DESC(Date.prototype[Symbol.toPrimitive]));var d=Object.getOwnPropertyDescriptor(Date.prototype,Symbol.toPrimitive);L([d.writable,d.enumerable,d.configurable,d.value.name,d.value.length]);T(()=>Date.prototype.getTime());T(()=>Date.prototype+"");', cls: 'surface' };
    yield { src: 'class D extends Date{constructor(...a){super(...a);this.x=1}};var d=new D(2020,1,2);L([d instanceof D,d.x,d.getTime(),Object.getPrototypeOf(d)===D.prototype]);T(()=>Reflect.construct(Date,[5],Array) instanceof Array);T(()=>Date.prototype.getTime.call(Reflect.construct(Date,[5],Array)));T(()=>{var f=function(){}.bind();Object.defineProperty(f,"prototype",{get(){__log("proto");return null}});return Object.getPrototypeOf(Reflect.construct(Date,[V("a",1)],f))===Date.prototype});T(()=>{var r=__realm();var f=r.eval("(function(){}).bind()");f.prototype=1;return Object.getPrototypeOf(Reflect.construct(Date,[1],f))===r.Date.prototype});T(()=>typeof Date());T(()=>Math.abs(Date.parse(Date(0,1,2))-Date.now())<2000)', cls: 'subclass' };
  },
};
