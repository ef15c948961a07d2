// The bundled modules: json-pointer against RFC 6901, json-schema against JSON Schema (2020-12 keywords the module has),
// the option parser against its description, json-manager's search path. Each case runs on the real modules in the real command.
import fs from 'node:fs'; import path from 'node:path'; import { spawn } from 'node:child_process';
import { buildVariant, report, keyOf, NPROC, OUT } from '../lib/explore.mjs';
import { product, seqs } from '../lib/prelude.mjs';
const J = JSON.stringify, own = (o, k) => Object.prototype.hasOwnProperty.call(o, k), isObj = v => typeof v === 'object' && v !== null && !Array.isArray(v);
const V = v => v === undefined ? 'U' : J(v);
// ---- models ---------------------------------------------------------------------------------------------------------------
const toks = frag => frag === '' ? [] : frag.slice(1).split('/').map(t => t.replaceAll('~1', '/').replaceAll('~0', '~'));
function deref(v, ts) { for (const t of ts) { if (Array.isArray(v)) { if (!/^(0|[1-9][0-9]*)$/.test(t) || +t >= v.length) return undefined; v = v[t]; } else if (isObj(v)) { if (!own(v, t)) return undefined; v = v[t]; } else return undefined; } return v; }
const twice = (v, err) => [V(v), V(v), v === undefined ? err : V(v), v === undefined ? err : V(v)].join(' ');
const same = (a, b) => { if (Array.isArray(a)) return Array.isArray(b) && a.length === b.length && a.every((x, i) => same(x, b[i])); if (isObj(a)) return isObj(b) && Object.keys(a).length === Object.keys(b).length && Object.keys(a).every(k => own(b, k) && same(a[k], b[k])); return a === b; };
const isType = (t, v) => t === 'null' ? v === null : t === 'array' ? Array.isArray(v) : t === 'object' ? isObj(v) : t === 'integer' ? typeof v === 'number' && Number.isInteger(v) : typeof v === t;
export function valid(s, v, root = s) {
  if (s === true) return true; if (s === false) return false;
  const ok = x => valid(x, v, root), h = k => own(s, k);
  if (h('$ref') && !valid(deref(root, toks(s.$ref.slice(1))), v, root)) return false;
  if (h('type') && ![].concat(s.type).some(t => isType(t, v))) return false;
  if (h('enum') && !s.enum.some(e => same(e, v))) return false;
  if (h('const') && !same(s.const, v)) return false;
  if (h('allOf') && !s.allOf.every(ok)) return false;
  if (h('anyOf') && !s.anyOf.some(ok)) return false;
  if (h('oneOf') && s.oneOf.filter(ok).length !== 1) return false;
  if (h('not') && ok(s.not)) return false;
  if (h('if')) { const b = ok(s.if) ? 'then' : 'else'; if (h(b) && !ok(s[b])) return false; }
  if (typeof v === 'number') { if (h('multipleOf') && !Number.isInteger(v / s.multipleOf)) return false; if (h('maximum') && v > s.maximum) return false; if (h('exclusiveMaximum') && v >= s.exclusiveMaximum) return false; if (h('minimum') && v < s.minimum) return false; if (h('exclusiveMinimum') && v <= s.exclusiveMinimum) return false; }
  if (typeof v === 'string') { const n = [...v].length; if (h('maxLength') && n > s.maxLength) return false; if (h('minLength') && n < s.minLength) return false; if (h('pattern') && !new RegExp(s.pattern, 'u').test(v)) return false; }
  if (Array.isArray(v)) {
    const pn = h('prefixItems') ? s.prefixItems.length : 0;
    for (let i = 0; i < v.length; i++) { if (i < pn) { if (!valid(s.prefixItems[i], v[i], root)) return false; } else if (h('items')) { if (!valid(s.items, v[i], root)) return false; } else if (h('unevaluatedItems') && !valid(s.unevaluatedItems, v[i], root)) return false; }
    if (h('maxItems') && v.length > s.maxItems) return false; if (h('minItems') && v.length < s.minItems) return false;
    if (s.uniqueItems) for (let i = 0; i < v.length; i++) for (let j = 0; j < i; j++) if (same(v[i], v[j])) return false;
    if (h('contains')) { const c = v.filter(x => valid(s.contains, x, root)).length; if (c < (h('minContains') ? s.minContains : 1)) return false; if (h('maxContains') && c > s.maxContains) return false; }
  } else if (isObj(v)) {
    const ks = Object.keys(v);
    for (const k of ks) {
      if (h('propertyNames') && !valid(s.propertyNames, k, root)) return false;
      let ev = false;
      if (h('properties') && own(s.properties, k)) { ev = true; if (!valid(s.properties[k], v[k], root)) return false; }
      if (h('patternProperties')) for (const p in s.patternProperties) if (new RegExp(p, 'u').test(k)) { ev = true; if (!valid(s.patternProperties[p], v[k], root)) return false; }
      if (!ev && h('additionalProperties')) { ev = true; if (!valid(s.additionalProperties, v[k], root)) return false; }
      if (!ev && h('unevaluatedProperties') && !valid(s.unevaluatedProperties, v[k], root)) return false;
    }
    if (h('maxProperties') && ks.length > s.maxProperties) return false; if (h('minProperties') && ks.length < s.minProperties) return false;
    if (h('required') && !s.required.every(k => own(v, k))) return false;
    if (h('dependentRequired')) for (const k in s.dependentRequired) if (own(v, k) && !s.dependentRequired[k].every(q => own(v, q))) return false;
    if (h('dependentSchemas')) for (const k in s.dependentSchemas) if (own(v, k) && !ok(s.dependentSchemas[k])) return false;
  }
  return true;
}
function options(table, words, stop) { // what the callback sees, then true, false or an error
  const out = []; let n = 0; const find = (f, v) => table.find(d => d[f] === v);
  const conv = (d, t) => { const a = d.argument; if (a === 'string') return t; if (a === 'boolean') return /^(true|yes|1)$/i.test(t) ? true : /^(false|no|0)$/i.test(t) ? false : undefined; if (a === 'number') { const x = parseFloat(t); return isNaN(x) ? undefined : x; } if (a === 'integer') { const x = parseInt(t); return isNaN(x) ? undefined : x; } if (Array.isArray(a)) return a.includes(t) ? t : undefined; return own(a, t.toUpperCase()) ? a[t.toUpperCase()] : undefined; };
  for (let i = 0; i < words.length; i++) {
    const w = words[i]; let d, name, arg;
    if (w.startsWith('--')) { const e = w.indexOf('='); name = e < 0 ? w.slice(2) : w.slice(2, e); if (e >= 0) arg = w.slice(e + 1); d = find('name', name); if (!d) { const c = table.filter(x => x.name && x.name.startsWith(name)); if (c.length === 1) d = c[0]; } }
    else if (w.startsWith('-') && w.length > 1) { d = find('abbr', w[1]); if (w.length > 2) arg = w.slice(2); }
    else { out.push('U=' + V(w)); if (n++ === stop) return out.join(';') + ' false'; continue; }
    if (!d) return out.join(';') + ' !TypeError';
    let v;
    if (d.argument === undefined) { if (arg !== undefined) return out.join(';') + ' !TypeError'; }
    else if (arg !== undefined) { v = conv(d, arg); if (v === undefined) return out.join(';') + ' !TypeError'; }
    else { if (i + 1 < words.length) v = conv(d, words[i + 1]); if (v !== undefined) i++; else if (d.default !== undefined) v = d.default; else if (d.argument === 'boolean') v = true; else return out.join(';') + ' !TypeError'; }
    out.push(V(d.name !== undefined ? d.name : d.abbr) + '=' + V(v)); if (n++ === stop) return out.join(';') + ' false';
  }
  return out.join(';') + ' true';
}
// ---- spaces ---------------------------------------------------------------------------------------------------------------
const DOCS = ['{"a":{"a":1,"b":[10,{"a":2}],"":3},"b":null,"":{"":4,"a":5},"a/b":6,"m~n":{"~":7,"/":8},"0":9,"~1":11,"~0":13}', '[[1,[2,3]],{"a":[],"0":5,"01":6,"-":7},null,"ab",4]', '{"length":1,"x":{"length":2}}', '{}', '[]', '"abc"', '5', 'null', 'true', '{"a":{"a":{"a":{"a":{"a":1}}}}}', '{"constructor":{"a":1},"__proto__":{"a":2}}', '[0,1,2,3,4,5,6,7,8,9,10]'];
const TOK = ['', 'a', 'b', '0', '1', '2', '-', '01', '10', 'a~1b', 'm~0n', '~0', '~1', '~01', '~00', 'length', 'constructor', '__proto__', 'toString', 'x', ' ', '-1', '+1', '1e0', '0x1', '1.0'];
const SC = ['null', 'true', 'false', '0', '1', '-1', '2', '3', '4', '2.5', '0.5', '1e300', '""', '"a"', '"b"', '"ab"', '"aba"', '"\u{1f600}"', '"\u{1f600}a"'];
const AR = ['[]', '[1]', '["a"]', '[null]', '[1,1]', '[1,2]', '[2,1]', '["a",1]', '[1,"a"]', '["a","a"]', '[1,"1"]', '[0,false]', '[[1],[1]]', '[{"a":1},{"a":1}]', '[{"a":1,"b":2},{"b":2,"a":1}]', '[1,2,1]', '[1,2,3]', '["a","b","a"]', '[1,2,3,4]', '[[],{}]', '[[[1]]]', '[1,[1]]'];
const OB = ['{}', '{"a":1}', '{"a":"a"}', '{"b":1}', '{"a":null}', '{"a":1,"b":1}', '{"a":1,"b":"b"}', '{"b":1,"a":1}', '{"ab":1}', '{"ab":"a"}', '{"a":1,"ab":2}', '{"a":1,"b":2,"ab":3}', '{"a":{"a":1}}', '{"a":[1]}', '{"":1}', '{"toString":1}', '{"constructor":"a"}', '{"a":{"b":1,"a":"x"},"c":[]}'];
const ALL = [...SC, ...AR, ...OB], TYPES = ['null', 'boolean', 'number', 'integer', 'string', 'array', 'object'];
function* leaves() {
  yield true; yield false; yield {}; for (const t of TYPES) { yield { type: t }; yield { type: [t] }; } for (const a of TYPES) for (const b of TYPES) if (a < b) yield { type: [a, b] };
  for (const v of ALL) { yield { const: JSON.parse(v) }; yield { enum: [JSON.parse(v)] }; } for (let i = 0; i < ALL.length; i++) yield { enum: [JSON.parse(ALL[i]), JSON.parse(ALL[(i * 7 + 3) % ALL.length])] }; yield { enum: [] };
  for (const k of ['maximum', 'minimum', 'exclusiveMaximum', 'exclusiveMinimum']) for (const n of [-1, 0, 1, 2, 2.5, 1e300]) yield { [k]: n }; for (const n of [1, 2, 3, 0.5, 2.5]) yield { multipleOf: n };
  for (const k of ['maxLength', 'minLength', 'maxItems', 'minItems', 'maxProperties', 'minProperties']) for (const n of [0, 1, 2, 3]) yield { [k]: n };
  for (const p of ['a', '^a', 'a$', '^a$', '^(a|b)+$', 'b', '', '^$', '^.$', '[^a]', 'ba?']) yield { pattern: p };
  for (const u of [true, false]) yield { uniqueItems: u };
  for (const r of [[], ['a'], ['b'], ['a', 'b'], ['toString'], ['']]) yield { required: r };
}
const SUB = [true, false, { type: 'number' }, { type: 'string' }, { minimum: 2 }, { const: 1 }, { enum: ['a', 1, null] }, { type: ['array', 'object'] }, { pattern: 'a' }, { required: ['a'] }, { maxItems: 1 }, {}];
function* composites(Q) {
  const S = Q ? SUB : [...SUB, { minLength: 1 }, { not: { type: 'number' } }, { items: { type: 'number' } }, { properties: { a: { type: 'number' } } }, { uniqueItems: true }], few = S.slice(0, Q ? 6 : 10);
  for (const k of ['allOf', 'anyOf', 'oneOf']) { for (const a of S) yield { [k]: [a] }; for (const a of S) for (const b of S) yield { [k]: [a, b] }; for (const [a, b, c] of product(few, few, few)) yield { [k]: [a, b, c] }; }
  for (const k of ['not', 'items', 'contains', 'propertyNames', 'additionalProperties', 'unevaluatedProperties', 'unevaluatedItems', 'if', 'then', 'else']) for (const a of S) yield { [k]: a };
  for (const [a, b] of product(S, S)) { yield { if: a, then: b }; yield { if: a, else: b }; } for (const [a, b, c] of product(few, few, few)) yield { if: a, then: b, else: c };
  for (const a of S) for (const mi of [undefined, 0, 1, 2]) for (const ma of [undefined, 0, 1, 2]) yield JSON.parse(J({ contains: a, minContains: mi, maxContains: ma }));
  for (const mi of [0, 1]) { yield { minContains: mi }; yield { maxContains: mi }; }
  for (const [a, b] of product(S, S)) { yield { prefixItems: [a], items: b }; yield { prefixItems: [a, b] }; yield { prefixItems: [a], unevaluatedItems: b }; yield { items: a, unevaluatedItems: b }; yield { items: a, contains: b }; }
  for (const [a, b, c] of product(few, few, few)) { yield { prefixItems: [a, b], items: c }; yield { prefixItems: [a, b, c] }; }
  const PK = ['a', 'b', 'ab', 'toString', ''], PP = ['a', '^a', '^a$', 'b$', '.', '^$'];
  for (const k of PK) for (const a of S) { yield { properties: { [k]: a } }; for (const b of few) { yield { properties: { [k]: a }, additionalProperties: b }; yield { properties: { [k]: a }, unevaluatedProperties: b }; yield { properties: { [k]: a }, required: [k], minProperties: 2 }; } }
  for (const p of PP) for (const a of S) { yield { patternProperties: { [p]: a } }; for (const b of few) { yield { patternProperties: { [p]: a }, additionalProperties: b }; for (const k of PK.slice(0, 3)) { yield { properties: { [k]: b }, patternProperties: { [p]: a } }; yield { properties: { [k]: b }, patternProperties: { [p]: a }, additionalProperties: false }; } for (const p2 of PP) if (p < p2) yield { patternProperties: { [p]: a, [p2]: b } }; } }
  for (const k of ['a', 'b', 'toString']) { for (const l of [[], ['a'], ['b'], ['a', 'b'], ['toString']]) yield { dependentRequired: { [k]: l } }; for (const a of S) yield { dependentSchemas: { [k]: a } }; for (const a of few) for (const b of few) yield { dependentSchemas: { [k]: a, c: b }, propertyNames: { maxLength: 2 } }; }
  for (const a of S) { yield { properties: { a: { properties: { a } } } }; yield { items: { items: a } }; yield { items: { properties: { a } } }; yield { properties: { a: { items: a } } }; yield { not: { not: a } }; yield { allOf: [{ anyOf: [a, { type: 'array' }] }, { not: { const: 2 } }] }; yield { contains: { contains: a } }; }
}
function* pairs(Q) { // two keywords at once
  const ks = [{ type: 'number' }, { type: ['string', 'array'] }, { enum: [1, 'a', [1], {}] }, { const: 1 }, { minimum: 1 }, { maximum: 2 }, { exclusiveMinimum: 1 }, { multipleOf: 2 }, { minLength: 1 }, { maxLength: 1 }, { pattern: 'b' }, { minItems: 1 }, { maxItems: 2 }, { uniqueItems: true }, { contains: { const: 1 } }, { items: { type: 'number' } }, { prefixItems: [{ const: 1 }] }, { minProperties: 1 }, { maxProperties: 1 }, { required: ['a'] }, { properties: { a: { type: 'number' } } }, { patternProperties: { b: { type: 'string' } } }, { additionalProperties: false }, { propertyNames: { maxLength: 1 } }, { dependentRequired: { a: ['b'] } }, { allOf: [{ type: ['number', 'string'] }] }, { anyOf: [{ type: 'object' }, { minimum: 0 }] }, { oneOf: [{ type: 'object' }, { required: ['a'] }] }, { not: { const: 2 } }, { if: { type: 'object' }, then: { required: ['b'] } }, { dependentSchemas: { b: { minProperties: 2 } } }];
  for (let i = 0; i < ks.length; i++) for (let j = 0; j < i; j++) { yield { ...ks[j], ...ks[i] }; if (!Q) for (let k = 0; k < j; k++) yield { ...ks[k], ...ks[j], ...ks[i] }; }
}
const REFS = [{ $ref: '#/$defs/n', $defs: { n: { type: 'number' } } }, { properties: { a: { $ref: '#/$defs/n' }, b: { $ref: '#/$defs/s' } }, $defs: { n: { type: 'number' }, s: { type: 'string' } } }, { $defs: { n: { type: 'number' } }, items: { $ref: '#/$defs/n' } }, { items: { $ref: '#/$defs/x~1y' }, $defs: { 'x/y': { minimum: 2 } } }, { items: { $ref: '#/$defs/x~0y' }, $defs: { 'x~y': { minimum: 2 } } }, { items: { $ref: '#' } , type: ['array', 'number'] }, { properties: { a: { $ref: '#' } }, type: ['object', 'number'] }, { $ref: '#/$defs/a', $defs: { a: { $ref: '#/$defs/b' }, b: { type: 'object' } } }, { $defs: { a: { $ref: '#/$defs/b' }, b: { type: 'object' } }, $ref: '#/$defs/a' }, { $defs: { b: { type: 'object' }, a: { $ref: '#/$defs/b' } }, items: { $ref: '#/$defs/a' } }, { items: { $ref: '#/$defs/a' }, $defs: { a: { $ref: '#/$defs/b' }, b: { $ref: '#/$defs/c' }, c: { const: 1 } } }, { anyOf: [{ $ref: '#/$defs/l/0' }, { $ref: '#/$defs/l/1' }], $defs: { l: [{ type: 'string' }, { required: ['a'] }] } }, { $defs: { t: { type: 'array', items: { $ref: '#/$defs/t' } } }, $ref: '#/$defs/t' }, { not: { $ref: '#/$defs/n' }, $defs: { n: { type: ['number', 'string'] } } }];
const TABLE = [{ name: 'verbose', abbr: 'v' }, { name: 'version', argument: 'boolean', default: false }, { name: 'out', abbr: 'o', argument: 'string' }, { name: 'num', abbr: 'n', argument: 'number', default: 7 }, { name: 'int', argument: 'integer' }, { name: 'mode', abbr: 'm', argument: ['fast', 'slow'] }, { abbr: 'l', argument: { LOW: 1, HIGH: 0 }, default: 5 }, { name: 'outer', argument: 'string' }, { name: 'flag', abbr: 'b', argument: 'boolean' }];
const WORDS = ['--verbose', '-v', '--verb', '--ver', '--version', '--version=yes', '--version=maybe', '--out', '--out=x=y', '-o', '-ofile', '--oute', '--ou=1', '--num', '-n', '-n5', '--num=-2.5', '--num=x', '--int', '--int=12', '--int=q', '--mode', '--mode=fast', '-mslow', '-mnone', '-l', '-llow', '-lHigh', '-lmid', '--flag', '-b', '-bNO', '--flag=TRUE', '--nope', '-z', '--verbose=1', '-vx', 'file', 'fast', 'slow', 'true', 'no', '5', '-3', 'high', '-', ''];
const CORE = ['--verbose', '--version', '--out', '--out=x', '-n', '--num=3', '--int', '-m', '-mslow', '-l', '-lhigh', '-b', '--flag=no', 'file', 'fast', 'true', '5', 'low', '--nope', '-', '--ver'];
function* cases(Q, D) {
  for (const doc of DOCS) { const d = JSON.parse(doc), c = fr => { const v = d === undefined ? undefined : deref(d, toks(fr)); return { c: ['p', '#' + fr, doc], w: twice(v, '!TypeError'), cls: 'pointer' }; };
    for (let n = 0; n <= (Q ? 2 : 3); n++) for (const s of seqs(TOK, n)) yield c(s.map(t => '/' + t).join(''));
    for (let n = 0; n <= (Q ? 5 : 6); n++) for (const s of seqs(['/', '~0', '~1', 'a', '0', '1'], n)) if (n && s[0] === '/') yield c(s.join('')); yield { c: ['p', '', doc], w: twice(d, '!TypeError'), cls: 'pointer' }; }
  for (const s of ['', '#', '#/a']) yield { c: ['p', s], w: Array(4).fill('!TypeError').join(' '), cls: 'pointer without document' };
  for (const dirs of [[], ['d1'], ['d2'], ['d1', 'd2'], ['d2', 'd1'], ['d3'], ['d3', 'd1'], ['d3', 'd3', 'd2']]) for (const f of ['one.json', 'two.json', 'both.json', 'none.json']) {
    const has = { d1: ['one.json', 'both.json'], d2: ['two.json', 'both.json'], d3: [] }, at = dirs.find(x => has[x].includes(f)), ds = dirs.map(x => D + '/' + x);
    yield { c: ['l', f, ds], w: at ? V(D + '/' + at + '/' + f) : 'null', cls: 'lookup' };
    for (const fr of ['', '#', '#/a', '#/a/0', '#/x', '#/n']) { const v = at && deref({ a: [at, f], n: null }, toks(fr.slice(1))); yield { c: ['f', f + fr, ds, '{"a":0}'], w: !at ? '!TypeError !TypeError' : V(v) + ' ' + (v === undefined ? '!TypeError' : V(v)), cls: 'pointer into a file' }; }
  }
  const chunk = Q ? ALL : [...ALL, ...SC.map(s => `[${s}]`), ...SC.map(s => `[${s},1,${s}]`), ...SC.map(s => `{"a":${s}}`), ...SC.map(s => `{"b":${s},"ab":${s}}`)];
  const docs = chunk.map(x => JSON.parse(x));
  const sch = (s, cls) => ({ c: ['s', J(s), chunk], w: docs.map(v => valid(s, v) ? '1' : '0').join(''), cls });
  for (const s of leaves()) yield sch(s, 'schema keyword'); for (const s of composites(Q)) yield sch(s, 'schema with subschemas'); for (const s of pairs(Q)) yield sch(s, 'keyword pair');
  for (const s of ['1', '"a"']) yield { c: ['s', s, ['1']], w: '!TypeError', cls: 'not a schema' };
  let i = 0; for (const s of REFS) { const f = `${D}/ref${i++}.json`; fs.writeFileSync(f, J(s)); yield { c: ['r', f, ALL], w: docs.slice(0, ALL.length).map(v => valid(s, v, s) ? '1' : '0').join(''), cls: 'schema with references' }; }
  const opt = (words, stop) => ({ c: ['o', TABLE, words, stop], w: options(TABLE, words, stop), cls: 'options' });
  for (let n = 0; n <= 2; n++) for (const s of seqs(WORDS, n)) for (const st of n ? [-1, 0] : [-1]) yield opt(s, st); for (const s of seqs(Q ? CORE : WORDS, 3)) for (const st of Q ? [-1] : [-1, 1]) yield opt(s, st); if (!Q) for (const s of seqs(CORE, 4)) yield opt(s, -1);
  for (const [a, b] of product(TABLE, TABLE)) { const dup = (a.name && a.name === b.name) || (a.abbr && a.abbr === b.abbr); yield { c: ['o', [a, b], [], -1], w: dup ? '!AssertError' : ' true', cls: 'option table', tail: 1 }; }
  for (const ab of ['', 'xy', 'x']) yield { c: ['o', [{ name: 'q', abbr: ab }], [], -1], w: ab.length === 1 ? ' true' : '!AssertError', cls: 'option table', tail: 1 };
  for (const t of [...TABLE.map(t => [t]), TABLE, [{ name: 'lv', argument: { A: 1, B: 2 }, default: 2 }], [{ name: 'lv', argument: { A: 'x', B: 'y' }, default: 'x', description: 'dd' }], [{ name: 's', argument: 'string', default: 'z', description: 'the s' }], [{ abbr: 's', description: 'x' }]]) {
    const need = t.flatMap(o => [o.name && '--' + o.name, o.abbr && '-' + o.abbr, o.description, o.name === 'lv' && 'default=' + (o.default === 2 ? 'B' : 'A'), o.name === 's' && 'default=z'].filter(Boolean)); yield { c: ['d', t], need, w: 'mentions ' + need.join(' '), cls: 'option description' }; }
  for (const v of ['1', '"a"', '{}', '[]', 'true', '-1', '1n', 'Symbol()', '0', '""', 'null', 'undefined', 'NaN', 'false', '0n']) { const t = !!eval(v); yield { c: ['a', v], w: t ? 'U' : '!AssertErrorm', cls: 'assert' }; }
}
TABLE[6] = { abbr: 'l', argument: { LOW: 1, HIGH: 0 }, default: 1 };
const good = (c, r) => c.need ? typeof r === 'string' && r[0] !== '!' && c.need.every(n => r.includes(n)) : c.tail ? r === c.w || r === ' ' + c.w : r === c.w;
export async function main(tier) {
  const t0 = Date.now(), Q = tier !== 'thorough', REPO = process.env.REPO || '/repo';
  process.env.RATJS_EXE = '1'; const exe = path.join(path.dirname(buildVariant('plain')), 'ratjs_exe');
  const D = fs.mkdtempSync(path.join(OUT, 'c31.'));
  try {
    for (const d of ['d1', 'd2', 'd3']) fs.mkdirSync(`${D}/${d}`);
    for (const [d, f] of [['d1', 'one.json'], ['d1', 'both.json'], ['d2', 'two.json'], ['d2', 'both.json']]) fs.writeFileSync(`${D}/${d}/${f}`, J({ a: [d, f], n: null }));
    const list = [...cases(Q, D)], per = {}, mism = [], outc = new Set(); for (const c of list) per[c.cls] = (per[c.cls] || 0) + 1;
    let nb = 0;
    const batch = async cs => { const f = `${D}/b${nb++}.json`; fs.writeFileSync(f, J(cs.map(c => c.c)));
      const r = await new Promise(res => { const p = spawn(exe, ['-m', REPO + '/module', path.join(import.meta.dirname, '../harness/c31.js'), f], { cwd: D, stdio: ['ignore', 'pipe', 'pipe'], env: { PATH: '/usr/bin:/bin', LANG: 'C.UTF-8' } }); const o = [], e = []; const to = setTimeout(() => p.kill('SIGKILL'), 240000); p.stdout.on('data', d => o.push(d)); p.stderr.on('data', d => { if (e.length < 50) e.push(d); }); p.on('close', (st, sig) => { clearTimeout(to); res({ st: sig || st, o: Buffer.concat(o).toString(), e: Buffer.concat(e).toString() }); }); });
      fs.rmSync(f); const m = /^RESULT(.*)$/m.exec(r.o); if (m) try { return JSON.parse(m[1]); } catch {}
      if (cs.length === 1) return ['no result: ' + r.st + ' ' + r.e.slice(-300)];
      const h = cs.length >> 1; return [...await batch(cs.slice(0, h)), ...await batch(cs.slice(h))]; };
    const SZ = 2000, N = Math.ceil(list.length / SZ); let next = 0, unrep = 0;
    await Promise.all(Array.from({ length: NPROC }, async () => { while (next < N) { const a = next++ * SZ, cs = list.slice(a, a + SZ), rs = await batch(cs);
      for (let i = 0; i < cs.length; i++) { const c = cs[i]; let r = rs[i]; outc.add(c.cls + r); if (good(c, r)) continue;
        if (mism.length < 400) { const [r2] = await batch([c]); if (good(c, r2)) { unrep++; } else r = r2; }
        const k = { kind: 'mod', src: J(c.c).replaceAll(D, 'DIR') }; mism.push({ ...k, key: keyOf(k), cls: c.cls, want: c.w.replaceAll(D, 'DIR'), got: String(r).replaceAll(D, 'DIR'), alone: 'yes' }); } } }));
    const verdicts = list.filter(c => c.c[0] === 's' || c.c[0] === 'r').reduce((n, c) => n + c.w.length, 0);
    const cov = { evaluations: list.length, distinct_nontrivial: outc.size, schema_verdicts: verdicts, per_class: per, exhaustive: true, unreproduced_mismatches: unrep, rule: 'one case = one pointer resolved in one document by all four entry points, one schema against all documents of the space, one command line of the option table, or one lookup; run by the real modules in the ratjs command and compared with a model', bounds: Q ? 'quick' : 'thorough' };
    const rc = report('C31', tier, mism, cov, t0, {});
    console.log(`C31 ${tier}: ${list.length} cases, ${verdicts} schema verdicts, ${outc.size} distinct outcomes, ${mism.length} mismatches (${((Date.now() - t0) / 1000).toFixed(1)} s)`);
    if (process.env.VERBOSE) { const by = {}; for (const m of mism) (by[m.cls] ||= []).push(m); for (const k in by) { console.log('--', k, by[k].length); for (const m of by[k].slice(0, +process.env.VERBOSE)) console.log(m.src.slice(0, 200), '\n   want', m.want.slice(0, 160), '\n   got ', m.got.slice(0, 160)); } }
    return rc;
  } finally { fs.rmSync(D, { recursive: true, force: true }); }
}
export default { id: 'C31', title: 'Bundled modules', * gen() {}, bounds: { quick: 'all pointers of 2 tokens of 26 and all raw pointers of 5 symbols in 12 documents; every keyword alone, with subschemas (12) and in pairs on 59 documents; references; all command lines of 2 of 47 words and 3 of 21 words over 9 options', thorough: 'pointers of 3 tokens and 6 symbols; 17 subschemas, keyword triples, 135 documents; command lines of 3 of 47 and 4 of 21 words' } };
