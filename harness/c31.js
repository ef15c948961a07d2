// Driver run by the ratjs command: reads a file of cases, runs each on the bundled modules, prints the results as JSON.
import { JSONPointer } from "json-pointer.js";
import { JSONManager } from "json-manager.js";
import { JSONSchema, ValidateError } from "json-schema.js";
import { OptionParser } from "option.js";
import { assert, AssertError } from "assert.js";
const E = e => e instanceof ValidateError ? "!ValidateError" : e instanceof AssertError ? "!AssertError" : "!" + (e && e.name);
const V = v => v === undefined ? "U" : JSON.stringify(v);
const T = f => { try { return f(); } catch (e) { return E(e); } };
const RUN = {
  p(src, doc) { let d = doc === undefined ? undefined : JSON.parse(doc); return [T(() => V(new JSONPointer(src).resolve(d))), T(() => V(JSONPointer.resolve(src, d))), T(() => V(new JSONPointer(src).resolveThrow(d))), T(() => V(JSONPointer.resolveThrow(src, d)))].join(" "); },
  f(src, dirs, doc) { JSONManager.dirs.clear(); for (let d of dirs) JSONManager.addDirectory(d); return [T(() => V(JSONPointer.resolve(src, JSON.parse(doc)))), T(() => V(JSONPointer.resolveThrow(src, JSON.parse(doc))))].join(" "); },
  l(name, dirs) { JSONManager.dirs.clear(); for (let d of dirs) JSONManager.addDirectory(d); return T(() => V(JSONManager.lookup(name))); },
  s(sch, docs) { let s = T(() => new JSONSchema(JSON.parse(sch))); if (typeof s === "string") return s;
    return docs.map(d => T(() => { let v = JSON.parse(d), before = JSON.stringify(v), r = s.validate(v), e = s.error, t = T(() => { s.validateThrow(v); return "ok"; });
      if (JSON.stringify(v) !== before) return "changed"; if (r !== true && r !== false) return "r=" + V(r);
      if (r ? e !== undefined : typeof e !== "string") return "error=" + V(e); if (t !== (r ? "ok" : "!ValidateError")) return "throw=" + t; return r ? "1" : "0"; })).join(""); },
  r(path, docs) { let s = T(() => new JSONSchema(JSONManager.load(path))); if (typeof s === "string") return s; return docs.map(d => T(() => { let r = s.validate(JSON.parse(d)); return r === true ? "1" : r === false ? "0" : "?"; })).join(""); },
  o(table, words, stop) { let out = [], n = 0; let r = T(() => { let p = new OptionParser(table); return V(p.parse(["prog", ...words], (k, v) => { out.push(V(k) + "=" + V(v)); return n++ !== stop; })); }); return out.join(";") + " " + r; },
  d(table) { return T(() => { let d = new OptionParser(table).description; return d; }); },
  a(v) { return T(() => V(assert(eval(v), "m"))) + T(() => { try { assert(eval(v), "m"); return "" } catch (e) { return e instanceof Error && e.message } }); },
};
function main(prog, path) {
  let cases = JSON.parse(File.loadString(path)), out = [];
  for (let c of cases) out.push(T(() => RUN[c[0]](...c.slice(1))));
  print("RESULT" + JSON.stringify(out) + "\n");
}
