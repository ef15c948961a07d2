// node tools/hang.mjs SUITE [tier]: list the cases the reference itself does not finish (development aid)
import vm from 'node:vm';
const s = (await import(`/verif/suites/${process.argv[2]}.mjs`)).default;
const nj = 8, me = +process.argv[4] || 0;
let n = 0, ctx, bad = 0;
for (const c of s.gen(process.argv[3] || 'quick')) { n++; if (process.argv[4] !== undefined && n % nj !== me) continue;
  if (!ctx || n % 4000 < nj) { ctx = vm.createContext({ __log() {}, __gc() {}, __detach() {}, __realm() { return {}; }, __jobs() {} }); vm.runInContext(s.prelude, ctx); }
  try { vm.runInContext(c.src, ctx, { timeout: 500 }); } catch (e) { if (e.code === 'ERR_SCRIPT_EXECUTION_TIMEOUT') { console.log(c.src.slice(0, 300)); ctx = null; if (++bad > 20) break; } } }
