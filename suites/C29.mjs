// Files, directories and text encodings of the extension: histories of calls on scratch files, run by the real command as an
// unprivileged user in a directory of its own, compared with a model of C streams and POSIX calls; the files are read back here.
import fs from 'node:fs'; import path from 'node:path'; import os from 'node:os'; import { spawn } from 'node:child_process';
import { buildVariant, report, keyOf, NPROC, OUT } from '../lib/explore.mjs';
import { product, seqs } from '../lib/prelude.mjs';
const J = JSON.stringify, hex = b => Buffer.from(b).toString('hex'), un = h => Buffer.from(h, 'hex');
const STR = s => { let o = ''; for (let i = 0; i < s.length; i++) { const c = s.charCodeAt(i); o += c > 32 && c < 127 && c !== 92 ? s[i] : '\\' + c.toString(16) + ';'; } return '"' + o + '"'; };
const N = v => typeof v === 'string' ? STR(v) : String(v), TE = '!TypeError';
// ---- text ---------------------------------------------------------------------------------------------------------------
function encode(s, e) { s = s.toWellFormed(); if (e === 'UTF-16LE') return Buffer.from(s, 'utf16le'); if (e === 'UTF-16BE') return Buffer.from(s, 'utf16le').swap16(); if (e === 'UTF-32LE') return Buffer.concat([...s].map(c => { const b = Buffer.alloc(4); b.writeUInt32LE(c.codePointAt(0)); return b; })); if (e === 'ISO-8859-1') return Buffer.from(s, 'latin1'); return Buffer.from(s, 'utf8'); }
const decode = (b, e) => e === 'ISO-8859-1' ? Buffer.from(b).toString('latin1') : new TextDecoder((e || 'utf-8').toLowerCase(), { ignoreBOM: true }).decode(b);
const rel = (v, n, d) => v === undefined ? d : isNaN(v) ? undefined : v < 0 ? Math.max(Math.ceil(v + n), 0) : Math.min(Math.trunc(v), n);
// ---- streams ------------------------------------------------------------------------------------------------------------
function stream(content, mode, ops) { // null: C leaves the outcome open
  const m = mode.replace('b', ''), log = []; let d = content === null ? null : [...content], pos = 0, open = true, known = true, last = '';
  if (!['r', 'r+', 'w', 'w+', 'a', 'a+'].includes(m)) return { log: [TE], data: content };
  if (m[0] === 'r' && !d) return { log: [TE], data: null };
  if (m[0] === 'w' || !d) d = []; if (m[0] === 'a') known = false;
  const rd = m[0] === 'r' || m[1] === '+', wr = m[0] !== 'r' || m[1] === '+', ap = m[0] === 'a'; log.push('o');
  const put = bs => { if (ap) pos = d.length; while (d.length < pos) d.push(0); for (const b of bs) d[pos++] = b; known = true; };
  for (const [k, ...a] of ops) {
    if (k === 'x') { log.push(TE); continue; } if (k === 'c') { open = false; log.push('undefined'); continue; } if (!open) { log.push(TE); continue; }
    if (k === 't') { if (!known) return null; log.push(N(pos)); continue; }
    if (k === 'k') { let [o, w] = a; o = o === undefined ? 0 : Math.trunc(o); if (w === 'c' && !known) return null; const b = w === 's' ? 0 : w === 'c' ? pos : w === 'e' ? d.length : NaN; if (!(b + o >= 0)) { log.push(TE); continue; } pos = b + o; known = true; last = ''; log.push('f'); continue; }
    const isR = 'rgG'.includes(k);
    if (isR) {
      let buf, s = 0, c; if (k === 'r') { buf = Array(a[0]).fill(0xee); s = a.length > 1 ? Math.min(a[1] === undefined ? 0 : a[1], a[0]) : 0; c = a.length > 2 ? Math.min(a[2], a[0] - s) : a[0] - s; if (!c) { log.push('0:' + hex(buf)); continue; } }
      if (!rd) { log.push(TE); continue; } if (!known || last === 'w') return null; last = 'r';
      const rest = d.slice(pos);
      if (k === 'r') { const got = rest.slice(0, c); got.forEach((b, i) => buf[s + i] = b); pos += got.length; log.push(got.length + ':' + hex(buf)); }
      else if (k === 'g') { if (rest.length) { pos++; log.push(N(rest[0])); } else log.push('-1'); }
      else { const i = rest.indexOf(10), got = i < 0 ? rest : rest.slice(0, i + 1); pos += got.length; log.push(got.length ? STR(decode(Buffer.from(got), a[0])) : /^(""|-1)$/); }
    } else {
      let bs, res; if (k === 'w') { const all = [...un(a[0])], s = a.length > 1 ? Math.min(a[1], all.length) : 0; bs = all.slice(s, a.length > 2 ? s + a[2] : undefined); res = N(bs.length); } else if (k === 'p') { bs = [a[0] & 255]; res = 'f'; } else { bs = [...encode(a[0], a[1])]; res = 'f'; }
      if (!bs.length) { log.push(res); continue; } if (!wr) { log.push(TE); continue; } if (last === 'r') return null; last = 'w'; put(bs); log.push(res);
    }
  }
  return { log, data: Buffer.from(d) };
}
// ---- the tree -----------------------------------------------------------------------------------------------------------
const F = (b, mode = 0o644) => ({ f: Buffer.from(b), mode }), Dn = (e = {}, mode = 0o755) => ({ d: e, mode });
class Tree {
  constructor(base) { this.base = base; this.root = Dn({ a: F('A\u00e9\n'), d: Dn(), e: Dn({ x: F('xx') }) }); }
  get(p) { let n = this.root; for (const s of p.split('/').filter(Boolean)) { if (!n || !n.d) return undefined; n = Object.hasOwn(n.d, s) ? n.d[s] : undefined; } return n && p.endsWith('/') && !n.d ? undefined : n; }
  par(p) { const s = p.split('/').filter(Boolean), b = s.pop(); const q = this.get(s.join('/')); return q && q.d ? [q.d, b] : []; }
  op([k, ...a]) {
    const n = this.get(a[0] ?? ''), [pd, b] = typeof a[0] === 'string' ? this.par(a[0]) : [];
    switch (k) {
      case 'unlink': if (!n || n.d) return TE; delete pd[b]; return 'undefined';
      case 'rmdir': if (!n || !n.d || Object.keys(n.d).length) return TE; delete pd[b]; return 'undefined';
      case 'mkdir': if (n || !pd) return TE; pd[b] = Dn({}, (a.length > 1 ? a[1] : 0o777) & ~0o22); return 'undefined';
      case 'chmod': if (!n) return TE; n.mode = a[1]; return 'undefined';
      case 'rename': { const t = this.get(a[1]), [td, tb] = this.par(a[1]); if (!n || !td) return TE; if (n === t) return 'undefined'; if (n.d && (a[1] + '/').startsWith(a[0] + '/')) return TE; if (t) { if (t.d ? !n.d || Object.keys(t.d).length : n.d) return TE; } delete pd[b]; td[tb] = n; return 'undefined'; }
      case 'state': case 'newstate': return n ? [n.f ? String(n.f.length) : /\d+/, n.f ? 'FORMAT_REGULAR' : 'FORMAT_DIR', n.mode.toString(8), 'true'] : k === 'state' ? 'undefined' : /^(undefined|!TypeError|\{\})$/;
      case 'real': return n ? STR(this.base + '/' + a[0].split('/').filter(Boolean).join('/')) : 'undefined';
      case 'dir': return n && n.d ? ['.', '..', ...Object.keys(n.d)].sort().join() : TE;
      case 'dirread': return n && n.d ? ['.', '..', ...Object.keys(n.d)].sort().join() + 'undefined' + 'undefined' + 'undefined' + TE + '{"done":true}' : TE;
      case 'dirnext': { if (!n || !n.d) return TE; const c = Object.keys(n.d).length + 2; if (a[1] < 0) return '{"done":true}{"done":true}' + TE; return Math.min(c, a[1] + 1) + TE + '{"done":true}'; }
      case 'load': return n && n.f ? STR(decode(n.f, a[1])) : TE;
      case 'loadd': return n && n.f ? hex(n.f) : TE;
      case 'store': case 'append': case 'stored': case 'appendd': {
        if (n ? !n.f : !pd) return TE; let by; if (k[k.length - 1] === 'd' && k !== 'append') { const all = un(a[1]), s = Math.min(a[2] ?? 0, all.length); by = all.subarray(s, a[3] === undefined ? undefined : s + a[3]); } else by = encode(a[1], a[2]);
        const t = n || (pd[b] = F('')); t.f = Buffer.concat([k.startsWith('append') ? t.f : Buffer.alloc(0), by]); return 'undefined'; }
    }
  }
  static disk(p) { const o = {}; for (const e of fs.readdirSync(p).sort()) { const q = p + '/' + e, s = fs.lstatSync(q); o[e] = (s.mode & 0o7777).toString(8) + (s.isDirectory() ? J(Tree.disk(q)) : hex(fs.readFileSync(q))); } return o; }
  static model(d) { const o = {}; for (const e of Object.keys(d).sort()) o[e] = d[e].mode.toString(8) + (d[e].d ? J(Tree.model(d[e].d)) : hex(d[e].f)); return o; }
  static make(p, d) { for (const e in d) { const q = p + '/' + e; if (d[e].d) { fs.mkdirSync(q); Tree.make(q, d[e].d); } else fs.writeFileSync(q, d[e].f); own(q); fs.chmodSync(q, d[e].mode); } }
}
const UID = 65534; let CAN = true; const own = p => { if (CAN) fs.chownSync(p, UID, UID); };
const show = w => (Array.isArray(w) ? w : [w]).map(String).join(' ');
const fits = (w, g) => { // words of the model may be patterns
  const ws = w.flatMap(x => Array.isArray(x) ? x : [x]); const gs = g.split(' '); return ws.length === gs.length && ws.every((x, i) => x instanceof RegExp ? x.test(gs[i]) : x === gs[i]); };
// ---- spaces -------------------------------------------------------------------------------------------------------------
const MODES = ['r', 'r+', 'w', 'w+', 'a', 'a+'];
const CONT = [null, '', '616263', '61620a63640a', '0a0a', 'c3a90ae4b8ad'];
const HOPS = [['r', 2], ['r', 3, 1], ['r', 4, 1, 2], ['w', '5859'], ['w', '303132', 1], ['w', '30313233', 1, 2], ['k', 0, 's'], ['k', 2, 's'], ['k', 5, 's'], ['k', 0, 'e'], ['k', -1, 'e'], ['k', -1, 'c'], ['k', 1, 'c'], ['t'], ['g'], ['p', 65], ['G'], ['P', 'z\u00e9\n'], ['c']];
const MORE = [['r', 0], ['r', 2, 9], ['r', 2, 1, 9], ['r', 3, 0, 0], ['w', ''], ['w', '3132', 5], ['w', '3132', 0, 0], ['w', '313233', 2, 7], ['k', -1, 's'], ['k', 3, 'e'], ['k', 0, 9], ['k', 0, -1], ['k', -9, 'e'], ['k', 1.5, 's'], ['p', 256 + 66], ['p', -1], ['p', 0], ['P', ''], ['P', '\u4e2d', 'UTF-16LE'], ['P', 'a\u00e9', 'ISO-8859-1'], ['P', 'a\u0000b'], ['G', 'ISO-8859-1'], ['G', 'UTF-8'], ['x', 'tell'], ['x', 'getChar']];
function* cases(Q, D) {
  let id = 0; const file = () => D + '/f' + id++;
  const h = (c, mode, ops) => { const m = stream(c === null ? null : un(c), mode, ops); return m && { mk: f => ['h', f, mode, ops], init: c, log: m.log, data: m.data, cls: 'stream ' + mode }; };
  const all = [...HOPS, ...MORE];
  for (const m of ['', 'q', 'rb', 'wb', 'ab', 'rb+', 'r+b', 'w+b', 'a+b']) for (const c of CONT) for (const o of HOPS) { const x = h(c, m, [o]); if (x) yield x; }
  for (const m of MODES) for (const c of CONT) { for (let n = 0; n <= 2; n++) for (const s of seqs(all, n)) { const x = h(c, m, s); if (x) yield x; } for (const s of seqs(HOPS, 3)) { if (Q && (c === '0a0a' || c === '')) break; const x = h(c, m, s); if (x) yield x; } }
  if (!Q) for (const m of ['r+', 'w+', 'a+']) for (const c of [null, '61620a63640a']) for (const s of seqs(HOPS, 4)) { const x = h(c, m, s); if (x) yield x; }
  // trees
  const P = ['a', 'b', 'd', 'e', 'e/x', 'd/y', 'a/z', 'n/z'], ops = [];
  for (const p of P) { for (const k of ['unlink', 'rmdir', 'mkdir', 'state', 'dir']) ops.push([k, p]); ops.push(['store', p, 'S'], ['append', p, '+'], ['load', p]); } for (const p of P) for (const q of P) ops.push(['rename', p, q]);
  const more = []; for (const p of P) { more.push(['mkdir', p, 0o700], ['chmod', p, 0o700], ['real', p], ['newstate', p], ['dirread', p], ['dirnext', p, -1], ['dirnext', p, 0], ['dirnext', p, 1], ['dirnext', p, 99], ['loadd', p], ['stored', p, '0001ff'], ['stored', p, '00010203', 1], ['stored', p, '00010203', 1, 2], ['stored', p, '0001', 5], ['stored', p, '0001', 1, 9], ['stored', p, ''], ['appendd', p, '0aff'], ['appendd', p, '00010203', 2, 1], ['store', p, 'h\u00e9\u4e2d\ud83d\ude00'], ['store', p, ''], ['store', p, 'x\u00e9', 'UTF-16LE'], ['store', p, 'x\u00e9', 'ISO-8859-1'], ['load', p, 'ISO-8859-1'], ['load', p, 'UTF-8'], ['append', p, '\u4e2d'], ['append', p, 'ab', 'UTF-16BE']); }
  const tree = s => ({ tree: s, cls: 'tree' });
  for (const o of [...ops, ...more]) yield tree([o]); for (const a of [...ops, ...more]) for (const b of [...ops, ...more]) { if (!ops.includes(a) && !ops.includes(b) && Q) continue; yield tree([a, b]); }
  const small = ops.filter(o => ['a', 'b', 'd', 'e'].includes(o[1]) && (o[0] !== 'rename' || ['a', 'b', 'd', 'e'].includes(o[2]))); { const t = Q ? small.filter(o => !['load', 'dir', 'append'].includes(o[0])) : small; for (const s of seqs(t, 3)) yield tree(s); }
  const pure = (op, w, cls) => ({ mk: () => ['f', [op]], log: [w], cls });
  // pathnames, environment
  for (let n = 0; n <= 5; n++) for (const s of seqs(['/', 'a', '.', 'bb'], n)) { const p = s.join(''), t = p.replace(/\/+$/, ''), i = t.lastIndexOf('/'); const base = p === '' ? '.' : t === '' ? '/' : t.slice(i + 1); const dir = p === '' ? '.' : t === '' ? '/' : i < 0 ? '.' : t.slice(0, i).replace(/\/+$/, '') || '/'; if (/^\/\/(?!\/)/.test(p)) continue; yield pure(['basename', p], STR(base), 'path'); yield pure(['dirname', p], STR(dir), 'path'); }
  for (const [k, v] of [['PATH', STR('/usr/bin:/bin')], ['LANG', STR('C.UTF-8')], ['NOPE', 'undefined'], ['', 'undefined'], ['EMPTY', '""'], ['UNI', STR('h\u00e9\ud83d\ude00')]]) yield pure(['getenv', k], v, 'environment');
  yield pure(['cwd'], STR(D), 'environment'); yield pure(['real', D + '/../' + path.basename(D)], STR(D), 'environment'); yield pure(['sys', 'exit 0'], '0', 'environment'); yield pure(['sys', 'exit 3'], '768', 'environment');
  for (const v of [undefined, null, 1, 'abc', {}]) { yield pure(['encx', 'a', 'UTF-8', v], v === undefined ? /./ : TE, 'encoding errors'); yield pure(['decx', 'UTF-8', v], TE, 'encoding errors'); }
  for (const e of ['nonsense', '', 'UTF-99']) { yield pure(['enc', 'a', e || 'zz'], TE, 'encoding errors'); yield pure(['dec', e || 'zz', '61'], TE, 'encoding errors'); yield { mk: f => ['h', f, 'r+', [['P', 'a', e || 'zz'], ['G', e || 'zz']]], init: '6162', log: ['o', TE, TE], data: un('6162'), cls: 'encoding errors', anypos: 1 }; yield { mk: f => ['f', [['load', f, e || 'zz'], ['append', f, 'q', e || 'zz']]], init: '6162', log: [TE, TE], data: un('6162'), cls: 'encoding errors' }; }
  // text: every string over an alphabet and every byte sequence over boundary bytes, in every encoding
  const AB = ['a', '\u0000', '\n', '\u00e9', '\u00ff', '\u07ff', '\u0800', '\u4e2d', '\ud7ff', '\uffff', '\ud83d', '\ude00', '\ud83d\ude00', '\udbff\udfff'];
  for (let n = 0; n <= 3; n++) for (const s0 of seqs(AB, n)) { const s = s0.join('');
    for (const e of [undefined, 'UTF-8', 'UTF-16LE', 'UTF-16BE', 'UTF-32LE', 'ISO-8859-1']) { if (e === 'ISO-8859-1' && /[^\0-\xff]/.test(s)) continue; if (n === 3 && Q && (e === 'UTF-8' || e === 'UTF-32LE')) continue; yield pure(e ? ['enc', s, e] : ['enc', s], hex(encode(s, e)), 'encode');
      if (s.isWellFormed()) { if (e && !/32/.test(e)) yield pure(['dec', e, hex(encode(s, e))], STR(s), 'decode valid'); } } }
  for (const s of ['', 'a', '\u00e9b', '\u4e2d', 'abcdef']) for (const e of ['UTF-8', 'UTF-16BE', null]) for (let n = 0; n <= 5; n++) for (const st of [[], [0], [1], [2], [9], [-1], [-9], [1.5], ...(Q ? [] : [[3], [4], [5], [-2], [-3]])]) { const b = Buffer.alloc(n, 0x2e), f = rel(st[0], n, 0), by = encode(s, e || 'UTF-8').subarray(0, n - f); by.copy(b, f); yield pure(['encb', s, e, '2e'.repeat(n), ...st], by.length + ':' + hex(b), 'encode into'); }
  for (const hx of ['61', 'c3a9', '61c3a962', 'e4b8ade4b8ad', 'f09f9880']) for (const a of [undefined, 0, 1, 2, 3, 9, -1, -2, -9]) for (const z of [undefined, 0, 1, 2, 3, 9, -1, -2, -9]) { const b = un(hx), f = rel(a, b.length, 0), t = rel(z, b.length, b.length); yield pure(['dec', 'ISO-8859-1', hx, ...(z === undefined ? a === undefined ? [] : [a] : [a ?? 0, z])], STR(decode(b.subarray(f, Math.max(f, t)), 'ISO-8859-1')), 'decode part'); }
  const BB = Q ? ['00', '41', '7f', '80', 'bf', 'c2', 'e0', 'a0', 'ed', 'f0', '90', 'f4'] : ['00', '0a', '41', '7f', '80', '8f', '90', '9f', 'a0', 'bf', 'c0', 'c2', 'df', 'e0', 'e1', 'ed', 'ef', 'f0', 'f4', 'f5', 'ff'];
  for (let n = 1; n <= 4; n++) for (const s of seqs(BB, n)) { const x = s.join(''); yield pure(['dec', 'UTF-8', x], STR(decode(un(x))), 'decode bytes'); }
  for (let c = 0; c < 256; c++) { yield pure(['dec', 'ISO-8859-1', hex([c])], STR(String.fromCharCode(c)), 'decode bytes'); yield pure(['dec', 'UTF-8', hex([c])], STR(decode(Buffer.from([c]))), 'decode bytes'); yield pure(['dec', 'UTF-8', hex([c, 0x41])], STR(decode(Buffer.from([c, 0x41]))), 'decode bytes'); }
  // long texts: every character at every place around the input buffers' sizes, read as data and as source text
  for (const c of ['a', '\u00e9', '\u4e2d', '\ud83d\ude00', '\r\n', '\ud83d\ude00\u4e2d\u00e9']) for (const at of Q ? [1024, 2048, 4096] : [128, 256, 512, 1024, 2048, 3072, 4096, 8192]) for (let k = -5; k <= 1; k++) for (const tail of ['', 'b', 'b'.repeat(1500) + '\u4e2d']) {
    const s = 'a'.repeat(at + k) + c + tail; for (const e of [undefined, 'UTF-16LE']) yield { mk: f => ['f', [e ? ['load', f, e] : ['load', f]]], init: hex(encode(s, e)), log: [STR(s)], data: encode(s, e), cls: 'long text' };
    if (!c.includes('\r')) { yield { mk: f => ['i', f], ext: '.mjs', init: hex(encode('export default "' + s.slice(16) + '";')), log: [STR(s.slice(16))], cls: 'source text' }; yield { mk: f => ['i', f], ext: '.json', init: hex(encode('"' + s.slice(1) + '"')), log: [STR(s.slice(1))], cls: 'source text' }; } }
  for (const t of ['c3', 'e4b8', 'f09f98', 'ff', '80']) for (const at of [0, 1, 1022, 1023, 1024]) yield { mk: f => ['f', [['load', f]]], init: '61'.repeat(at) + t, log: [STR('a'.repeat(at) + decode(un(t)))], cls: 'long text' };
}
export async function main(tier) {
  const t0 = Date.now(), Q = tier !== 'thorough'; CAN = process.getuid() === 0;
  process.env.RATJS_EXE = '1'; const built = path.join(path.dirname(buildVariant('plain')), 'ratjs_exe');
  const D = fs.realpathSync(fs.mkdtempSync(path.join(fs.existsSync('/dev/shm') ? '/dev/shm' : os.tmpdir(), 'c29.'))); fs.chmodSync(D, 0o755); own(D);
  try {
    const exe = D + '/.ratjs', drv = D + '/.c29.js'; fs.copyFileSync(built, exe); fs.chmodSync(exe, 0o755); fs.copyFileSync(path.join(import.meta.dirname, '../harness/c29.js'), drv); fs.chmodSync(drv, 0o644);
    const mism = [], outc = new Set(), per = {}; let total = 0, nb = 0, nf = 0, unrep = 0;
    const setup = c => { const n = 'f' + nf++, f = D + '/' + n + (c.ext || ''); c.at = f;
      if (c.tree) { const t = new Tree(f); fs.mkdirSync(f); own(f); Tree.make(f, t.root.d); c.wire = ['t', c.tree.map(([k, ...a]) => [k, ...a.map((x, i) => typeof x === 'string' && (i === 0 || k === 'rename') ? f + '/' + x : x)])]; c.log = c.tree.map(o => t.op(o)); c.want = J(Tree.model(t.root.d)); return; }
      if (c.init != null) { fs.writeFileSync(f, un(c.init)); own(f); } c.wire = c.mk(f); };
    const look = (c, r) => { // what was observed, then whether it fits
      let disk; try { disk = c.tree ? J(Tree.disk(c.at)) : c.data !== undefined ? (fs.existsSync(c.at) ? hex(fs.readFileSync(c.at)) : 'absent') : undefined; } catch (e) { disk = String(e); }
      const want = c.tree ? c.want : c.data === undefined ? undefined : c.data === null ? 'absent' : hex(c.data); return { ok: typeof r === 'string' && fits(c.log, r) && disk === want, got: r + ' | ' + disk, want: show(c.log.flat()) + ' | ' + want }; };
    const clean = c => fs.rmSync(c.at, { recursive: true, force: true });
    const batch = async cs => { const f = `${D}/.b${nb++}.json`; fs.writeFileSync(f, J(cs.map(c => c.wire))); fs.chmodSync(f, 0o644);
      const r = await new Promise(res => { const p = spawn(exe, [drv, f], { cwd: D, stdio: ['ignore', 'pipe', 'pipe'], ...(CAN ? { uid: UID, gid: UID } : {}), env: { PATH: '/usr/bin:/bin', LANG: 'C.UTF-8', EMPTY: '', UNI: 'h\u00e9\ud83d\ude00' } }); const o = [], e = []; const to = setTimeout(() => p.kill('SIGKILL'), cs.length > 1 ? 60000 : 10000); p.stdout.on('data', d => o.push(d)); p.stderr.on('data', d => { if (e.length < 50) e.push(d); }); p.on('close', (st, sig) => { clearTimeout(to); res({ st: sig || st, o: Buffer.concat(o).toString(), e: Buffer.concat(e).toString() }); }); });
      fs.rmSync(f, { force: true }); const m = /^RESULT(.*)$/m.exec(r.o); if (m) try { return JSON.parse(m[1]); } catch {}
      if (cs.length === 1) return ['no result: ' + r.st + ' ' + r.e.slice(-200)];
      for (const c of cs) { clean(c); setup(c); } const k = cs.length >> 1; return [...await batch(cs.slice(0, k)), ...await batch(cs.slice(k))]; };
    const it = cases(Q, D); let done = false; process.umask(0o22);
    await Promise.all(Array.from({ length: NPROC }, async () => { while (!done) { const cs = []; while (cs.length < 1000) { const n = it.next(); if (n.done) { done = true; break; } cs.push(n.value); } if (!cs.length) break; for (const c of cs) setup(c); const rs = await batch(cs); total += cs.length;
      for (let i = 0; i < cs.length; i++) { const c = cs[i]; per[c.cls] = (per[c.cls] || 0) + 1; let l = look(c, rs[i]); outc.add(String(rs[i])); clean(c); if (l.ok) continue;
        if (mism.length < 300) { setup(c); const [r2] = await batch([c]); const l2 = look(c, r2); clean(c); if (l2.ok) unrep++; else l = l2; }
        const norm = s => String(s).replaceAll(c.at, 'AT').replaceAll(D, 'DIR').slice(0, 3000), k = { kind: 'ext', src: norm(J(c.wire)) + (c.init != null ? ' init ' + c.init.slice(0, 200) + c.init.length : '') }; mism.push({ ...k, key: keyOf(k), cls: c.cls, want: norm(l.want), got: norm(l.got), alone: 'yes' }); } } }));
    const cov = { evaluations: total, distinct_nontrivial: outc.size, per_class: per, exhaustive: true, unreproduced_mismatches: unrep, rule: 'one case = one history of calls on one stream or tree, one text or byte sequence in one encoding, or one file read as data or source; return values and the files left behind are compared with a model', bounds: Q ? 'quick' : 'thorough' };
    const rc = report('C29', tier, mism, cov, t0, {});
    console.log(`C29 ${tier}: ${total} cases, ${outc.size} distinct outcomes, ${mism.length} mismatches (${((Date.now() - t0) / 1000).toFixed(1)} s)`);
    if (process.env.VERBOSE) { const by = {}; for (const m of mism) (by[m.cls] ||= []).push(m); for (const k in by) { console.log('--', k, by[k].length); for (const m of by[k].slice(0, +process.env.VERBOSE)) console.log(m.src.slice(0, 160), '\n   want', m.want.slice(-150), '\n   got ', m.got.slice(-150)); } }
    return rc;
  } finally { fs.rmSync(D, { recursive: true, force: true }); }
}
export default { id: 'C29', title: 'Files and encodings', * gen() {}, bounds: { quick: 'all histories of 2 of 44 and 3 of 19 stream operations x 6 modes x 4-6 contents where C determines the outcome; all histories of 2 tree operations over 8 names and 3 over 4 names; all strings of 3 of 14 characters in 6 encodings; all byte sequences of 4 of 12 boundary bytes; characters at every place around the input buffers', thorough: 'histories of 4 stream operations; byte sequences of 4 of 21 bytes; more buffer boundaries' } };
