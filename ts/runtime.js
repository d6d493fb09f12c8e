'use strict';
// The $ object instrumented code calls, and the global objects it sees.
const T = require('../engine/terms');
const V = require('./values');
const { isSym, truthy, same, SymNum, SymBig, SymBool, SymStr, SymHex, SymAddr, SymText, SymArr8, SymMap, SymSet, num, big, bool } = V;
let reg; const bad = m => V.bad(m);
function index(i, n, what) { // symbolic index -> concrete index in 0..n-1, or -1
  if (!isSym(i)) return i;
  const r = i instanceof SymBig ? { t: i.t, d: 1n } : V.ratio(i); if (!(i instanceof SymNum || i instanceof SymBig)) bad('index of kind ' + i.kind);
  for (let k = 0; k < n; k++) if (V.engine().decide(T.eq(r.t, T.mul(T.int(k), T.int(r.d))))) return k;
  return -1;
}
function bound(i, n, dflt) { // slice-style bound
  if (i === undefined) return dflt; if (!isSym(i)) return i;
  const E = V.engine(); const t = i.t; if (i.d !== 1n) bad('fractional bound');
  for (let k = -n; k <= n; k++) if (E.decide(T.eq(t, T.int(k)))) return k;
  return E.decide(T.lt(t, T.ZERO)) ? -n - 1 : n + 1;
}
function objKey(o, k) { // symbolic key of a plain object
  if (Array.isArray(o)) { const i = index(k, o.length); return i < 0 ? '-1' : i; }
  if (o && typeof o === 'object' && !isSym(o)) { for (const own of Object.keys(o)) { const c = k instanceof SymStr ? V.strEq(k, own) : /^-?\d+$/.test(own) ? T.eq(k.t, T.int(own)) : T.FALSE; if (V.engine().decide(c)) return own; } return '\u27e6absent\u27e7'; }
  bad('symbolic key');
}
function newKey(o, k) { // a key to write at: an array may grow by one
  const kk = objKey(o, k); if (kk !== '-1' && kk !== '\u27e6absent\u27e7') return kk;
  if (Array.isArray(o) && V.engine().decide(V.eqT(k, o.length))) return o.length;
  return bad('write at a symbolic key');
}
const cbool = v => truthy(v);
const arr = {
  includes(a, x, from = 0) { return bool(T.or(...a.slice(from).map(y => (!isSym(x) && !isSym(y)) ? T.bool(y === x || (x !== x && y !== y)) : V.eqT(y, x)))); },
  indexOf(a, x) { for (let i = 0; i < a.length; i++) if (truthy(bool(V.eqT(a[i], x)))) return i; return -1; },
  lastIndexOf(a, x) { for (let i = a.length - 1; i >= 0; i--) if (truthy(bool(V.eqT(a[i], x)))) return i; return -1; },
  some(a, f, t) { for (let i = 0; i < a.length; i++) if (cbool(f.call(t, a[i], i, a))) return true; return false; },
  every(a, f, t) { for (let i = 0; i < a.length; i++) if (!cbool(f.call(t, a[i], i, a))) return false; return true; },
  filter(a, f, t) { const r = []; for (let i = 0; i < a.length; i++) { const x = a[i]; if (cbool(f.call(t, x, i, a))) r.push(x); } return r; },
  find(a, f, t) { for (let i = 0; i < a.length; i++) if (cbool(f.call(t, a[i], i, a))) return a[i]; return undefined; },
  findIndex(a, f, t) { for (let i = 0; i < a.length; i++) if (cbool(f.call(t, a[i], i, a))) return i; return -1; },
  findLast(a, f, t) { for (let i = a.length - 1; i >= 0; i--) if (cbool(f.call(t, a[i], i, a))) return a[i]; return undefined; },
  findLastIndex(a, f, t) { for (let i = a.length - 1; i >= 0; i--) if (cbool(f.call(t, a[i], i, a))) return i; return -1; },
  sort(a, f) {
    if (!f) { if (a.some(isSym)) bad('default sort of symbolic values'); return a.sort(); }
    for (let i = 1; i < a.length; i++) { const x = a[i]; let j = i; while (j > 0) { const c = f(a[j - 1], x); if (!truthy(V.cmp('>', c, 0))) break; a[j] = a[j - 1]; j--; } a[j] = x; }
    return a;
  },
  toSorted(a, f) { return arr.sort([...a], f); },
  at(a, i) { return a.at(bound(i, a.length, 0)); },
  slice(a, s, e) { return a.slice(bound(s, a.length, 0), bound(e, a.length, a.length)); },
  splice(a, s, n, ...xs) { return n === undefined && !xs.length ? a.splice(bound(s, a.length, 0)) : a.splice(bound(s, a.length, 0), bound(n, a.length, 0), ...xs); },
  join(a, sep = ',') { if (!a.some(isSym)) return a.join(sep); const p = []; a.forEach((x, i) => { if (i) p.push(sep); p.push(x === undefined || x === null ? '' : x); }); return V.text(p); },
  toString(a) { return arr.join(a, ','); },
  with(a, i, v) { const r = [...a]; $.set(r, i, v); return r; },
};
const $ = {
  f(n) { const E = V.engine(); if (E) E.enter(n); },
  b: truthy,
  t(v) { reg = v; return truthy(v); }, v() { const r = reg; reg = undefined; return r; }, nn(v) { reg = v; return v !== null && v !== undefined; },
  not(v) { return isSym(v) ? bool(T.not(V.truthT(v))) : !v; },
  neg(v) { return isSym(v) ? (v instanceof SymBig ? big(T.mul(T.int(-1), v.t)) : v instanceof SymNum ? num(T.mul(T.int(-1), v.t), v.d) : bad('negation')) : -v; },
  pos(v) { return isSym(v) ? Num(v, true) : +v; },
  inc(op, v) { return V.isBigLike(v) ? V.bin(op, v, 1n) : V.bin(op, v, 1); },
  post(a) { return a; },
  bin: V.bin, cmp: V.cmp, tpl: V.tpl,
  eqop(op, a, b) { const r = bool(V.eqT(a, b, op.length === 2)); return op[0] === '!' ? $.not(r) : r; },
  in(k, o) { if (isSym(o)) throw new TypeError('in operator'); return isSym(k) ? objKey(o, k) in o : k in o; },
  key(k) { if (!isSym(k)) { if (V.tainted(k)) bad('stringified symbolic key'); return k; } if (k instanceof SymNum) { for (let i = 0; i < 64; i++) if (V.engine().decide(T.eq(k.t, T.int(i)))) return i; } return bad('symbolic property name'); },
  get(o, k) { if (isSym(k)) { if (o === null || o === undefined) throw new TypeError('Cannot read properties of ' + o); if (isSym(o)) bad('index into a symbolic string'); return o[objKey(o, k)]; } if (V.tainted(k)) bad('stringified symbolic key'); return o[k]; },
  set(o, k, v) { if (isSym(k)) { const kk = newKey(o, k); return (o[kk] = v); } if (V.tainted(k)) bad('stringified symbolic key'); return (o[k] = v); },
  del(o, k) { if (isSym(k)) { const kk = objKey(o, k); return delete o[kk]; } return delete o[k]; },
  cset(o, k, op, v) { if (isSym(k)) k = objKey(o, k); return (o[k] = V.bin(op, o[k], v)); },
  upd(o, k, op, post) { if (isSym(k)) k = objKey(o, k); const old = o[k]; o[k] = $.inc(op, old); return post ? old : o[k]; },
  typeof(v) { return isSym(v) ? (v instanceof SymArr8 ? 'object' : v.kind) : typeof v; },
  sw(v, cases) { for (let i = 0; i < cases.length; i++) { const c = cases[i](); if (!isSym(v) && !isSym(c) ? v === c : truthy(bool(V.eqT(v, c)))) return i; } return -1; },
  c(e) { if (e && e.engineAbort) throw e; const E = V.engine(); if (E && E.dead) throw E.dead; },
  callk(o, k, args) { if (isSym(k)) k = objKey(o, k); else if (V.tainted(k)) bad('stringified symbolic key'); return $.call(o, k, args); },
  call(o, m, args) {
    if (Array.isArray(o) && arr[m] && !(m in NATIVE_SAFE && !o.some(isSym) && !args.some(isSym))) {
      if ((m === 'toString' || m === 'join') && !o.some(isSym)) return o[m](...args);
      return arr[m](o, ...args);
    }
    if (typeof o === 'string' && (args.some(isSym))) return strMethod(o, m, args);
    if (o instanceof Set || o instanceof Map) { if (args.some(isSym) && (m === 'has')) return [...o.keys()].some(k => same(k, args[0])); }
    if (typeof o === 'number' && m === 'toString') return String(o);
    return o[m](...args);
  },
};
const NATIVE_SAFE = { includes: 1, indexOf: 1, lastIndexOf: 1 };
function strMethod(o, m, args) { if (m === 'concat') return V.text([o, ...args]); if (m === 'localeCompare' || m === 'includes' || m === 'startsWith') bad('string method ' + m); return bad('string method ' + m); }
// ---- globals
function Num(x, plus) {
  if (!isSym(x)) return Number(x);
  if (x instanceof SymNum) return x; if (x instanceof SymBig) { if (plus) throw new TypeError('Cannot convert a BigInt value to a number'); return num(x.t); }
  if (x instanceof SymBool) return num(T.ite(x.t, T.ONE, T.ZERO));
  if (x instanceof SymText && x.parts.length === 1 && (x.parts[0] instanceof SymNum || x.parts[0] instanceof SymBig)) return num(x.parts[0].t, x.parts[0].d || 1n);
  return bad('Number of a symbolic string');
}
function makeNumber() {
  const N = function Number(x) { return arguments.length ? Num(x) : 0; };
  for (const k of Object.getOwnPropertyNames(Number)) if (!(k in N) || typeof Number[k] === 'function' || typeof Number[k] === 'number') try { Object.defineProperty(N, k, Object.getOwnPropertyDescriptor(Number, k)); } catch {}
  N.isInteger = x => x instanceof SymNum ? x.d === 1n || bool(T.eq(T.mod(x.t, T.int(x.d)), T.ZERO)) : Number.isInteger(x);
  N.isSafeInteger = x => x instanceof SymNum ? (x.d === 1n ? bool(T.and(T.le(T.int(-((1n << 53n) - 1n)), x.t), T.le(x.t, T.int((1n << 53n) - 1n)))) : bad('isSafeInteger')) : Number.isSafeInteger(x);
  N.isFinite = x => x instanceof SymNum ? true : Number.isFinite(x); N.isNaN = x => isSym(x) ? false : Number.isNaN(x);
  N.parseInt = parseIntS; N.parseFloat = x => isSym(x) ? Num(x) : parseFloat(x);
  return N;
}
const parseIntS = (x, r) => x instanceof SymNum ? floor(x) : isSym(x) ? Num(x) : parseInt(x, r);
function makeBig() {
  const N = function BigInt(x) { if (!isSym(x)) return BigInt_(x); if (x instanceof SymBig) return x; if (x instanceof SymNum) { if (x.d !== 1n) bad('BigInt of a fraction'); return big(x.t); } if (x instanceof SymBool) return big(T.ite(x.t, T.ONE, T.ZERO)); if (x instanceof SymHex && x.b.k === 'w') return big(x.b.t); if (x instanceof SymAddr) return big(x.t); if (x instanceof SymText && x.parts.length === 1 && x.parts[0].t) return big(x.parts[0].t); return bad('BigInt of text'); };
  N.asUintN = BigInt.asUintN; N.asIntN = BigInt.asIntN; return N;
}
const BigInt_ = BigInt;
function makeString() { const S = function String(x) { return arguments.length ? (isSym(x) ? V.text([x]) : Array.isArray(x) && x.some(isSym) ? arr.join(x, ',') : String_(x)) : ''; }; for (const k of ['fromCharCode', 'fromCodePoint', 'raw']) S[k] = String_[k]; return S; }
const String_ = String;
function makeBoolean() { return function Boolean(x) { return isSym(x) ? bool(V.truthT(x)) : !!x; }; }
function floor(x) { if (!(x instanceof SymNum)) return isSym(x) ? floor(Num(x)) : Math.floor(x); return x.d === 1n ? x : num(T.div(x.t, T.int(x.d))); }
function makeMath() {
  const M = Object.create(Math);
  const two = (pickLeft) => (a, b) => {
    if (!isSym(a) && !isSym(b)) return pickLeft === 'max' ? Math.max(a, b) : Math.min(a, b);
    a = Num(a); b = Num(b);
    for (const [x, y] of [[a, b], [b, a]]) if (typeof x === 'number' && !Number.isFinite(x)) { if (Number.isNaN(x)) return NaN; return (x > 0) === (pickLeft === 'max') ? x : y; }
    const p = V.ratio(a), q = V.ratio(b); const l = T.mul(p.t, T.int(q.d)), r = T.mul(q.t, T.int(p.d));
    return num(pickLeft === 'max' ? T.ite(T.ge(l, r), l, r) : T.ite(T.le(l, r), l, r), p.d * q.d);
  };
  M.max = (...a) => a.length ? a.reduce(two('max'), -Infinity) : -Infinity; M.min = (...a) => a.length ? a.reduce(two('min'), Infinity) : Infinity;
  M.floor = floor; M.trunc = x => x instanceof SymNum ? (x.d === 1n ? x : num(V.truncDiv(x.t, T.int(x.d)))) : Math.trunc(x); M.ceil = x => x instanceof SymNum ? (x.d === 1n ? x : $.neg(floor($.neg(x)))) : Math.ceil(x);
  M.round = x => x instanceof SymNum ? (x.d === 1n ? x : floor(V.bin('+', x, 0.5))) : Math.round(x);
  M.abs = x => x instanceof SymNum ? num(T.ite(T.ge(x.t, T.ZERO), x.t, T.mul(T.int(-1), x.t)), x.d) : Math.abs(x);
  M.sign = x => x instanceof SymNum ? num(T.ite(T.eq(x.t, T.ZERO), T.ZERO, T.ite(T.gt(x.t, T.ZERO), T.ONE, T.int(-1)))) : Math.sign(x);
  M.pow = (a, b) => !isSym(a) && !isSym(b) ? Math.pow(a, b) : typeof b === 'number' && Number.isInteger(b) && b >= 0 && b < 8 ? (() => { let r = 1; for (let i = 0; i < b; i++) r = V.bin('*', r, a); return r; })() : bad('power');
  return M;
}
class JsonText extends SymStr { constructor(v) { super(); this.value = v; } toString() { return this; } } // data.toString() of a received text
function clone(v) { // what JSON would carry
  if (v instanceof SymBig) throw new TypeError('Do not know how to serialize a BigInt');
  if (v instanceof SymArr8) bad('JSON of bytes');
  if (isSym(v) || v === null || typeof v === 'string' || typeof v === 'boolean' || typeof v === 'number') return typeof v === 'number' && !Number.isFinite(v) ? null : v;
  if (typeof v === 'bigint') throw new TypeError('Do not know how to serialize a BigInt');
  if (v === undefined || typeof v === 'function' || typeof v === 'symbol') return undefined;
  if (typeof v.toJSON === 'function') return clone(v.toJSON());
  if (Array.isArray(v)) return v.map(x => { const c = clone(x); return c === undefined ? null : c; });
  if (v instanceof SymMap || v instanceof SymSet) return {};
  const o = {}; for (const k of Object.keys(v)) { const c = clone(v[k]); if (c !== undefined) o[k] = c; } return o;
}
function anySym(v, d = 0) { if (isSym(v)) return true; if (d > 12 || v === null || typeof v !== 'object') return false; return Array.isArray(v) ? v.some(x => anySym(x, d + 1)) : Object.keys(v).some(k => anySym(v[k], d + 1)); }
function revive(v, r) { const go = (h, k) => { const x = h[k]; if (x && typeof x === 'object' && !isSym(x)) for (const kk of Object.keys(x)) { const y = go(x, kk); if (y === undefined) delete x[kk]; else x[kk] = y; } return r.call(h, k, x); }; return go({ '': v }, ''); }
const JSON_ = { stringify(v, rep, sp) { if (!anySym(v)) return JSON.stringify(v, rep, sp); if (typeof rep === 'function') { const go = (h, k) => { let x = rep.call(h, k, h[k]); if (x && typeof x === 'object' && !isSym(x)) { const o = Array.isArray(x) ? [] : {}; for (const kk of Object.keys(x)) { const y = go(x, kk); if (y !== undefined) o[kk] = y; } return o; } return x; }; v = go({ '': v }, ''); } return new JsonText(clone(v)); }, parse(s, r) { if (s instanceof JsonText) { const c = clone(s.value); return r ? revive(c, r) : c; } if (isSym(s)) throw new SyntaxError('Unexpected token in JSON'); if (V.tainted(s)) bad('JSON of a stringified symbolic value'); return JSON.parse(s, r); } };
const quiet = new Proxy({}, { get: () => () => {} });
function symGlobals(env) {
  return { $, Map: SymMap, Set: SymSet, Number: makeNumber(), BigInt: makeBig(), String: makeString(), Boolean: makeBoolean(), Math: makeMath(), JSON: JSON_, parseInt: parseIntS, parseFloat: x => isSym(x) ? Num(x) : parseFloat(x), isNaN: x => isSym(x) ? false : isNaN(x), isFinite: x => isSym(x) ? true : isFinite(x), Date: env.Date, setTimeout: env.setTimeout, clearTimeout: env.clearTimeout, setInterval: env.setInterval, clearInterval: env.clearInterval, setImmediate: env.setImmediate, console: quiet, queueMicrotask, process: env.process };
}
function concGlobals(env) { return { $: null, Map, Set, Number, BigInt, String, Boolean, Math, JSON, parseInt, parseFloat, isNaN, isFinite, Date: env.Date, setTimeout: env.setTimeout, clearTimeout: env.clearTimeout, setInterval: env.setInterval, clearInterval: env.clearInterval, setImmediate: env.setImmediate, console: quiet, queueMicrotask, process: env.process }; }
module.exports = { $, symGlobals, floor, concGlobals, JsonText };
