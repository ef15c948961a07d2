// Serialization helpers that run inside the interpreter under test and inside the reference alike.
export const P0 = String.raw`
var __S = (function () {
  var apply = Reflect.apply, is = Object.is, gopd = Object.getOwnPropertyDescriptor, ownKeys = Reflect.ownKeys;
  function name(k) { return typeof k === 'symbol' ? '@' + String(k.description) : String(k); }
  function S(v, d) {
    if (d === undefined) d = 3;
    switch (typeof v) {
      case 'undefined': return 'undefined';
      case 'bigint': return String(v) + 'n';
      case 'symbol': return '@' + String(v.description);
      case 'string': return '"' + v + '"';
      case 'number': return is(v, -0) ? '-0' : String(v);
      case 'boolean': return String(v);
      case 'function': return 'fn';
    }
    if (v === null) return 'null';
    if (v === globalThis) return 'global';
    if (d <= 0) return '...';
    if (v instanceof Error) return 'E:' + v.name;
    if (Array.isArray(v)) {
      var o = '[', n = v.length, m = n > 40 ? 40 : n;
      for (var i = 0; i < m; i++) o += (i ? ',' : '') + (i in v ? S(v[i], d - 1) : '_');
      if (n > m) o += '..#' + n;
      var ks = ownKeys(v);
      if (ks.length < 100) for (var j = 0; j < ks.length; j++) { var k = ks[j]; if (typeof k === 'symbol' || (k !== 'length' && !(/^[0-9]+$/.test(k) && +k < m))) o += ' ' + name(k) + ':' + S(v[k], d - 1); }
      return o + ']';
    }
    var t = Object.prototype.toString.call(v);
    if (t === '[object Date]' && v instanceof Date) return 'D' + S(v.getTime());
    if (t === '[object RegExp]' && v instanceof RegExp) return '/' + v.source + '/' + v.flags;
    var s = t === '[object Object]' ? '' : t.slice(8, -1), ks2 = ownKeys(v), a = [];
    for (var q = 0; q < ks2.length && q < 60; q++) { var e = gopd(v, ks2[q]); if (e) a.push(name(ks2[q]) + ':' + ('value' in e ? S(e.value, d - 1) : 'acc')); }
    return s + '{' + a.join(',') + '}';
  }
  return S;
})();
function __E(e) { if (e === globalThis) return '!global'; if (e !== null && typeof e === 'object') { var c = e.constructor; return '!' + (typeof c === 'function' ? c.name : 'obj'); } return '!' + __S(e); }
function T(f) { try { __log(__S(f())); } catch (e) { __log(__E(e)); } }
function L(x) { __log(__S(x)); return x; }
function __C(f) { try { Reflect.construct(Object, [], f); return true; } catch (e) { return false; } }
// the surface of a built-in object, without the order of its keys
function SURF(o) { return Reflect.ownKeys(o).filter(k => !(typeof o === 'function' && (k === 'arguments' || k === 'caller')) && !/^(groupBy|difference|intersection|union|symmetricDifference|isSubsetOf|isSupersetOf|isDisjointFrom|withResolvers|isWellFormed|toWellFormed|fromAsync|transfer|transferToFixedLength|detached|maxByteLength|resize|resizable|grow|growable|waitAsync|try|captureStackTrace|stackTraceLimit|stack)$/.test(String(k))).map(k => { var d = Object.getOwnPropertyDescriptor(o, k), f = v => typeof v === 'function' ? 'F:' + v.name + '/' + v.length + (Object.hasOwn(v, 'prototype') ? 'P' : '') + (__C(v) ? 'N' : '') : Object(v) === v ? 'O' : __S(v); return (typeof k === 'symbol' ? '@' + k.description : k) + (d.writable ? 'w' : '') + (d.enumerable ? 'e' : '') + (d.configurable ? 'c' : '') + ('value' in d ? '=' + f(d.value) : '<' + f(d.get) + ',' + f(d.set) + '>'); }).sort().join(' '); }
// descriptors of all own properties, in order
function DESC(o) { return Reflect.ownKeys(o).filter(function (k) { return !(typeof o === 'function' && (k === 'arguments' || k === 'caller') && o[k] === null); }).map(function (k) { var d = Object.getOwnPropertyDescriptor(o, k); return (typeof k === 'symbol' ? '@' + k.description : k) + ':' + (d.writable ? 'w' : '') + (d.enumerable ? 'e' : '') + (d.configurable ? 'c' : '') + ('value' in d ? '=' + __S(d.value, 2) : (d.get ? 'G' : '') + (d.set ? 'S' : '')); }).join(' ') + (Object.isExtensible(o) ? '' : ' X'); }
`;
export function* product(...ls) { if (!ls.length) { yield []; return; } const [h, ...t] = ls; for (const x of h) for (const r of product(...t)) yield [x, ...r]; }
export function* seqs(alpha, n) { if (n === 0) { yield []; return; } for (const s of seqs(alpha, n - 1)) for (const a of alpha) yield [...s, a]; }
export function* seqsUpTo(alpha, n, from = 0) { for (let i = from; i <= n; i++) yield* seqs(alpha, i); }
// pack many small expressions in one script to keep the per-case cost low
export function* pack(gen, k, wrap = a => a.join('\n'), cls) { let b = []; for (const x of gen) { b.push(x); if (b.length === k) { yield { src: wrap(b), cls }; b = []; } } if (b.length) yield { src: wrap(b), cls }; }
export const permutations = a => a.length <= 1 ? [a] : a.flatMap((x, i) => permutations([...a.slice(0, i), ...a.slice(i + 1)]).map(r => [x, ...r]));
