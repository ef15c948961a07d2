// Driver run by the ratjs command (as an unprivileged user, in a scratch directory): performs the operations of each case and
// prints what they return. The files are examined afterwards by the check itself.
const HEX = b => { let s = "", u = new Uint8Array(b); for (let i = 0; i < u.length; i++) s += (u[i] < 16 ? "0" : "") + u[i].toString(16); return s; };
const BUF = h => { let u = new Uint8Array(h.length / 2); for (let i = 0; i < u.length; i++) u[i] = parseInt(h.slice(i * 2, i * 2 + 2), 16); return u.buffer; };
const STR = s => { let o = ""; for (let i = 0; i < s.length; i++) { let c = s.charCodeAt(i); o += c > 32 && c < 127 && c !== 92 ? s[i] : "\\" + c.toString(16) + ";"; } return '"' + o + '"'; };
const T = f => { try { return f(); } catch (e) { return "!" + (e instanceof Error ? e.name : typeof e); } };
const N = v => typeof v === "string" ? STR(v) : String(v);
const OP = {
  r(f, n, ...a) { let b = BUF("ee".repeat(n)); return N(f.read(b, ...a)) + ":" + HEX(b); },
  w(f, h, ...a) { return N(f.write(BUF(h), ...a)); },
  k(f, o, w) { return f.seek(o, w === "s" ? File.SEEK_SET : w === "c" ? File.SEEK_CUR : w === "e" ? File.SEEK_END : w) === f ? "f" : "?"; },
  t(f) { return N(f.tell()); }, c(f) { return N(f.close()); }, g(f) { return N(f.getChar()); }, p(f, v) { return f.putChar(v) === f ? "f" : "?"; },
  G(f, ...a) { return N(f.getString(...a)); }, P(f, s, ...a) { return f.putString(s, ...a) === f ? "f" : "?"; },
  x(f, m) { return N(File.prototype[m].call({})) },
};
const st = s => s === undefined ? "undefined" : [s.size, Object.keys(FileState).concat(["FORMAT_REGULAR", "FORMAT_DIR"]).filter(k => FileState[k] === s.format)[0], s.mode.toString(8), [s.atime, s.mtime, s.ctime].every(t => Math.abs(t - Date.now() / 1000) < 4000)].join(" ");
const FS = {
  unlink: n => N(unlink(n)), rmdir: n => N(rmdir(n)), mkdir: (...a) => N(mkdir(...a)), rename: (a, b) => N(rename(a, b)), chmod: (n, m) => N(chmod(n, m)),
  state: n => st(FileState(n)), newstate: n => st(new FileState(n)), real: n => N(realpath(n)), dir: n => [...new Dir(n)].sort().join(), dirread(n) { let d = new Dir(n), o = [], v; while ((v = d.read()) !== undefined) o.push(v); return o.sort().join() + N(d.read()) + N(d.close()) + N(d.close()) + T(() => d.read()) + JSON.stringify(d.next()); },
  dirnext(n, k) { let d = new Dir(n), o = 0; if (k < 0) return JSON.stringify(d.return()) + JSON.stringify(d.next()) + T(() => d.read()); for (let x of d) { if (o++ === k) break; } return o + T(() => N(d.read())) + JSON.stringify(d.next()); },
  load: (...a) => N(File.loadString(...a)), store: (...a) => N(File.storeString(...a)), append: (...a) => N(File.appendString(...a)),
  loadd: n => HEX(File.loadData(n)), stored: (n, h, ...a) => N(File.storeData(n, BUF(h), ...a)), appendd: (n, h, ...a) => N(File.appendData(n, BUF(h), ...a)), badd: (n, v) => N(File.storeData(n, v)),
  dirname: s => N(dirname(s)), basename: s => N(basename(s)), getenv: s => N(getenv(s)), cwd: () => N(getcwd()), sys: s => N(system(s)),
  enc(s, ...a) { return HEX(encodeText(s, ...a)); }, encb(s, e, h, ...a) { let b = BUF(h); let r = encodeText(s, e === null ? undefined : e, b, ...a); return N(r) + ":" + HEX(b); }, dec: (e, h, ...a) => N(decodeText(e === null ? undefined : e, BUF(h), ...a)),
  encx: (...a) => N(encodeText(...a)), decx: (...a) => N(decodeText(...a)),
};
async function main(prog, path) {
  let cases = JSON.parse(File.loadString(path)), out = [];
  for (let c of cases) {
    if (c[0] === "h") { let f, o = [T(() => { f = new File(c[1], c[2]); return "o"; })]; if (f) for (let op of c[3]) o.push(T(() => OP[op[0]](f, ...op.slice(1)))); if (f) T(() => f.close()); out.push(o.join(" ")); }
    else if (c[0] === "i") { let r; try { r = N((await import(c[1])).default); } catch (e) { r = "!" + (e && e.name); } out.push(r); }
    else out.push(c[1].map(op => T(() => FS[op[0]](...op.slice(1)))).join(" "));
  }
  print("RESULT" + JSON.stringify(out) + "\n");
}
