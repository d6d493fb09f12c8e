'use strict';
// Symbolic JavaScript values and the operations instrumented code performs.
const T = require('../engine/terms');
const B = require('../engine/bytes');
const abi = require('../engine/abi');
const ethers = require('/repo/node_modules/ethers');
let E = null; // engine of the current path
const setEngine = e => { E = e; };
const engine = () => E;
const bad = m => E.unsupported(m);
const SILENT = new Set(['then', 'constructor', 'toJSON', 'asymmetricMatch', 'inspect', 'nodeType', 'tagName', '$$typeof', 'isTyped', '_typedSymbol', 'getAddress']);
class Sym {}
Object.setPrototypeOf(Sym.prototype, new Proxy(Object.create(null), { get(t, k, r) { if (typeof k === 'symbol' || SILENT.has(k)) return undefined; if (E) bad(`property ${String(k)} of a symbolic ${r && r.kind}`); return undefined; }, has() { return false; } }));
const PH = '\u27e6sym'; const phTable = new Map();
const placeholder = s => { const k = PH + (phTable.size) + '\u27e7'; phTable.set(k, s); return k; };
const tainted = s => typeof s === 'string' && s.includes(PH);
Object.defineProperty(Sym.prototype, Symbol.toPrimitive, { value: function (hint) { if (hint === 'number') bad('symbolic value used as a number by native code'); return placeholder(this); } });
Object.defineProperty(Sym.prototype, require('util').inspect.custom, { value: function () { return `<${this.kind}>`; } });
// integers or fractions t/d
class SymNum extends Sym { constructor(t, d = 1n) { super(); this.t = t; this.d = d; } get kind() { return 'number'; } toString() { return new SymText([this]); } valueOf() { return this; } toFixed() { return new SymText([this]); } }
class SymBig extends Sym { constructor(t) { super(); this.t = t; } get kind() { return 'bigint'; } toString() { return new SymText([this]); } valueOf() { return this; } }
class SymBool extends Sym { constructor(t) { super(); this.t = t; } get kind() { return 'boolean'; } toString() { return E.decide(this.t) ? 'true' : 'false'; } valueOf() { return this; } }
class SymStr extends Sym { toString() { return this; } valueOf() { return this; } trim() { return this; } get kind() { return 'string'; } }
class SymHex extends SymStr { constructor(b) { super(); this.b = b; } get length() { return num(T.add(T.int(2), T.mul(T.int(2), B.len(E, this.b)))); } toLowerCase() { return this; } }
class SymAddr extends SymStr { constructor(t) { super(); this.t = t; } get length() { return 42; } toLowerCase() { return new SymHex(B.word(this.t, 20)); } }
// the text of a hex string that contains letters, with these in upper case
class SymUpper extends SymStr { constructor(b) { super(); this.b = b; } get length() { return num(T.add(T.int(2), T.mul(T.int(2), B.len(E, this.b)))); } toLowerCase() { return new SymHex(this.b); } }
class SymText extends SymStr { constructor(parts) { super(); this.parts = parts; } }
class SymArr8 extends Sym { constructor(b) { super(); this.b = b; } get kind() { return 'Uint8Array'; } get length() { return num(B.len(E, this.b)); } toString() { return new SymText(['bytes ', new SymHex(this.b)]); } } // a Uint8Array
const isSym = x => x instanceof Sym;

// ---- numbers
function gcd(a, b) { a = a < 0n ? -a : a; b = b < 0n ? -b : b; while (b) [a, b] = [b, a % b]; return a; }
function num(t, d = 1n) {
  if (d < 0n) { t = T.mul(T.int(-1), t); d = -d; }
  if (d !== 1n) { // cancel common factors
    let g = d; const ks = t.op === 'int' ? [t.v] : t.op === 'lin' ? [t.k, ...t.ts.map(x => x[1])] : [1n];
    for (const k of ks) g = gcd(g, k);
    if (g > 1n) { t = t.op === 'int' ? T.int(t.v / g) : divLin(t, g); d /= g; }
  }
  if (t.op === 'int' && (d === 1n ? (t.v < (1n << 53n) && t.v > -(1n << 53n)) : true)) return Number(t.v) / Number(d);
  return new SymNum(t, d);
}
function divLin(t, g) { let r = T.int(t.k / g); for (const [x, c] of t.ts) r = T.add(r, T.mul(T.int(c / g), x)); return r; }
const big = t => t.op === 'int' ? t.v : new SymBig(t);
const bool = t => t === T.TRUE ? true : t === T.FALSE ? false : new SymBool(t);
function ratio(x) { // JS number -> {t,d}
  if (x instanceof SymNum) return x;
  if (x instanceof SymBool) return { t: T.ite(x.t, T.ONE, T.ZERO), d: 1n };
  if (typeof x === 'boolean') return { t: x ? T.ONE : T.ZERO, d: 1n };
  if (x === null) return { t: T.ZERO, d: 1n };
  if (typeof x !== 'number' || !Number.isFinite(x)) return null;
  if (Number.isInteger(x)) return { t: T.int(BigInt(x)), d: 1n };
  let d = 1n; while (!Number.isInteger(x * Number(d)) && d < 1n << 60n) d *= 2n;
  for (const k of [10n, 100n, 1000n, 10000n]) if (Math.abs(Math.round(x * Number(k)) / Number(k) - x) < 1e-15) { return { t: T.int(BigInt(Math.round(x * Number(k)))), d: k }; }
  return { t: T.int(BigInt(Math.round(x * Number(d)))), d };
}
const isNumLike = x => typeof x === 'number' || x instanceof SymNum || typeof x === 'boolean' || x instanceof SymBool || x === null || x === undefined;
const isBigLike = x => typeof x === 'bigint' || x instanceof SymBig;
const bigT = x => x instanceof SymBig ? x.t : T.int(x);
const isStrLike = x => typeof x === 'string' || x instanceof SymStr;
const plainValue = x => !isSym(x) && (typeof x === 'string' && !tainted(x) || x === undefined || (typeof x === 'object' && x !== null)); // converted to a number by arithmetic
function bin(op, a, b) {
  if (!isSym(a) && !isSym(b)) {
    switch (op) { case '+': return a + b; case '-': return a - b; case '*': return a * b; case '/': return a / b; case '%': return a % b; case '**': return a ** b; case '&': return a & b; case '|': return a | b; case '^': return a ^ b; case '<<': return a << b; case '>>': return a >> b; case '>>>': return a >>> b; }
  }
  if (op === '+' && (isStrLike(a) || isStrLike(b))) return text([a, b]);
  if (op !== '+') { if (plainValue(a)) a = Number(a); if (plainValue(b)) b = Number(b); }
  if (isStrLike(a) || isStrLike(b)) bad('arithmetic on strings');
  if (isBigLike(a) || isBigLike(b)) {
    if (!isBigLike(a) || !isBigLike(b)) throw new TypeError('Cannot mix BigInt and other types, use explicit conversions');
    const x = bigT(a), y = bigT(b);
    switch (op) {
      case '+': return big(T.add(x, y)); case '-': return big(T.sub(x, y)); case '*': return big(T.mul(x, y));
      case '/': if (E.decide(T.eq(y, T.ZERO))) throw new RangeError('Division by zero'); return big(truncDiv(x, y));
      case '%': if (E.decide(T.eq(y, T.ZERO))) throw new RangeError('Division by zero'); return big(T.sub(x, T.mul(y, truncDiv(x, y))));
      default: bad('bigint operator ' + op);
    }
  }
  if (!isNumLike(a) || !isNumLike(b)) bad(`operator ${op} on ${typeof a} and ${typeof b}`);
  const x = ratio(a), y = ratio(b);
  if (!x || !y) return nonFinite(op, a, b);
  switch (op) {
    case '+': return num(T.add(T.mul(x.t, T.int(y.d)), T.mul(y.t, T.int(x.d))), x.d * y.d);
    case '-': return num(T.sub(T.mul(x.t, T.int(y.d)), T.mul(y.t, T.int(x.d))), x.d * y.d);
    case '*': return num(T.mul(x.t, y.t), x.d * y.d);
    case '/': {
      if (y.t.op !== 'int') {
        if (E.decide(T.eq(y.t, T.ZERO))) return bin('/', a, 0);
        bad('division by a symbolic number');
      }
      if (y.t.v === 0n) return E.decide(T.eq(x.t, T.ZERO)) ? NaN : E.decide(T.gt(x.t, T.ZERO)) ? Infinity : -Infinity;
      return num(T.mul(x.t, T.int(y.d)), x.d * y.t.v);
    }
    case '%': {
      if (x.d !== 1n || y.d !== 1n) bad('fractional remainder');
      if (E.decide(T.eq(y.t, T.ZERO))) return NaN;
      return num(T.sub(x.t, T.mul(y.t, truncDiv(x.t, y.t))));
    }
    case '|': if (b === 0 && x.d === 1n) return a; bad('bit operation');
    default: bad('number operator ' + op);
  }
}
function truncDiv(x, y) {
  const neg = E.decide(T.lt(x, T.ZERO)), ny = E.decide(T.lt(y, T.ZERO));
  const ax = neg ? T.mul(T.int(-1), x) : x, ay = ny ? T.mul(T.int(-1), y) : y; const q = T.div(ax, ay);
  return neg !== ny ? T.mul(T.int(-1), q) : q;
}
function nonFinite(op, a, b) {
  const f = x => x instanceof SymNum || x instanceof SymBool ? null : Number(x);
  const x = f(a), y = f(b);
  if (Number.isNaN(x) || Number.isNaN(y)) return NaN;
  if (op === '+' || op === '-') return x !== null ? x : (op === '+' ? y : -y);
  if (op === '/' && y !== null) return 0;
  const o = ratio(x === null ? a : b), inf = x === null ? y : x;
  if (E.decide(T.eq(o.t, T.ZERO))) return op === '*' ? NaN : inf;
  return E.decide(T.gt(o.t, T.ZERO)) ? inf : -inf;
}
// the order of addresses as text: decided for the known parties only
function which(a) { if (!isSym(a)) return a; if (a instanceof SymAddr) { const { wallet } = require('../sol/replay'); for (let i = 0; i < 4; i++) if (E.decide(eqT(a, wallet(i).address))) return wallet(i).address; } return bad('ordering of symbolic strings'); }
function cmp(op, a, b) {
  if (!isSym(a) && !isSym(b)) { switch (op) { case '<': return a < b; case '<=': return a <= b; case '>': return a > b; case '>=': return a >= b; } }
  const r = x => isBigLike(x) ? { t: bigT(x), d: 1n } : isNumLike(x) && x !== undefined ? ratio(x) : typeof x === 'string' && /^\d+$/.test(x) ? { t: T.int(x), d: 1n } : null;
  if (isStrLike(a) && isStrLike(b)) return cmp(op, which(a), which(b));
  const x = r(a), y = r(b);
  if (!x || !y) {
    if (a === undefined || b === undefined || Number.isNaN(a) || Number.isNaN(b)) return false;
    if (a === Infinity || b === -Infinity) return op[0] === '>'; if (a === -Infinity || b === Infinity) return op[0] === '<';
    bad(`comparison of ${typeof a} and ${typeof b}`);
  }
  const l = T.mul(x.t, T.int(y.d)), q = T.mul(y.t, T.int(x.d));
  return bool(op === '<' ? T.lt(l, q) : op === '<=' ? T.le(l, q) : op === '>' ? T.gt(l, q) : T.ge(l, q));
}
// ---- strings
const HEXRE = /^0x([0-9a-f]{2})*$/;
function text(parts) { // concatenation of stringified values
  const out = [];
  for (const p0 of parts) {
    let p = p0 instanceof SymBool ? p0.toString() : p0;
    if (p instanceof SymText) { for (const q of p.parts) push(q); continue; }
    push(isSym(p) ? p : String(p));
  }
  function push(p) { if (typeof p === 'string') { if (!p) return; if (typeof out[out.length - 1] === 'string') { out[out.length - 1] += p; return; } } out.push(p); }
  if (!out.length) return ''; if (out.length === 1 && (typeof out[0] === 'string' || out[0] instanceof SymStr)) return out[0];
  return new SymText(out);
}
function tpl(strs, vals) {
  const parts = [strs[0]]; vals.forEach((v, i) => { parts.push(isSym(v) ? v : String(v)); parts.push(strs[i + 1]); });
  return text(parts);
}
function hexBytes(x) { // string-like -> SBytes, or null when it is not plain lower-case hex
  if (x instanceof SymHex) return x.b;
  if (typeof x === 'string' && HEXRE.test(x)) return B.lit(x);
  return null;
}
function bytesEq(a, b) {
  if (a.k === 'lit' && b.k === 'w') [a, b] = [b, a];
  if (a.k === 'w' && b.k === 'lit') return b.hex.length === 2 * a.width ? T.eq(a.t, T.int('0x' + b.hex)) : T.FALSE;
  if (a.k === 'w' && b.k === 'w' && a.width !== b.width) return T.FALSE;
  return B.eq(a, b);
}
function strEq(a, b) { // -> term
  if (typeof a === 'string' && typeof b === 'string') { if (tainted(a) || tainted(b)) bad('comparison of a stringified symbolic value'); return T.bool(a === b); }
  if (typeof a === 'string') [a, b] = [b, a];
  if (tainted(b)) bad('comparison of a stringified symbolic value');
  if (a instanceof SymAddr) {
    if (b instanceof SymAddr) return T.eq(a.t, b.t);
    if (typeof b === 'string') { if (!/^0x[0-9a-fA-F]{40}$/.test(b)) return T.FALSE; let c; try { c = ethers.getAddress(b); } catch { return T.FALSE; } return c === b ? T.eq(a.t, T.int(b)) : T.FALSE; }
    if (b instanceof SymHex) return T.FALSE; // checksummed against lower-case text
    bad('comparison of an address with text');
  }
  if (b instanceof SymUpper) [a, b] = [b, a];
  if (a instanceof SymUpper) { if (b instanceof SymUpper) return bytesEq(a.b, b.b); if (b instanceof SymHex || b instanceof SymAddr || (typeof b === 'string' && b === b.toLowerCase())) return T.FALSE; bad('comparison of upper case text'); }
  if (a instanceof SymHex) {
    if (b instanceof SymAddr) return T.FALSE;
    const y = hexBytes(b); if (y) return bytesEq(a.b, y);
    if (typeof b === 'string') return T.FALSE;
    bad('comparison of hex with text');
  }
  const pa = a.parts, pb = b instanceof SymText ? b.parts : [b];
  if (pa.length !== pb.length) { if (typeof b === 'string' && pa.length === 1 && pa[0].kind !== 'string') return /^-?\d+$/.test(b) ? T.eq(pa[0].t, T.int(b)) : T.FALSE; bad('comparison of differently shaped text'); }
  const cs = [];
  for (let i = 0; i < pa.length; i++) {
    const x = pa[i], y = pb[i];
    if (typeof x === 'string' && typeof y === 'string') { if (x !== y) { if (pa.length === 1) return T.FALSE; const same = i === 0 || i === pa.length - 1; if (same) return T.FALSE; bad('comparison of differently shaped text'); } continue; }
    if (typeof x === 'string' || typeof y === 'string') { const s = typeof x === 'string' ? x : y, o = s === x ? y : x; if (o.kind === 'string') cs.push(strEq(o, s)); else cs.push(/^-?\d+$/.test(s) ? T.eq(o.t, T.int(s)) : T.FALSE); continue; }
    if (x.kind === 'string' && y.kind === 'string') cs.push(strEq(x, y));
    else if (x.kind !== 'string' && y.kind !== 'string') cs.push(T.eq(T.mul(x.t, T.int(y.d || 1n)), T.mul(y.t, T.int(x.d || 1n))));
    else bad('comparison of differently shaped text');
  }
  return T.and(...cs);
}
// equality as a term; loose follows ==
function eqT(a, b, loose = false) {
  if (a === b && !Number.isNaN(a)) { if (tainted(a)) bad('comparison of a stringified symbolic value'); return T.TRUE; }
  if (!isSym(a) && !isSym(b)) { if (tainted(a) || tainted(b)) bad('comparison of a stringified symbolic value'); return T.bool(loose ? a == b : a === b); } // eslint-disable-line eqeqeq
  if (isStrLike(a) && isStrLike(b)) return strEq(a, b);
  if (a === null || b === null || a === undefined || b === undefined) return T.FALSE;
  const isN = x => typeof x === 'number' || x instanceof SymNum;
  if (isN(a) && isN(b)) { const x = ratio(a), y = ratio(b); if (!x || !y) return T.FALSE; return T.eq(T.mul(x.t, T.int(y.d)), T.mul(y.t, T.int(x.d))); }
  if (isBigLike(a) && isBigLike(b)) return T.eq(bigT(a), bigT(b));
  const isB = x => typeof x === 'boolean' || x instanceof SymBool;
  if (isB(a) && isB(b)) return T.eq(boolT(a), boolT(b));
  if (!loose) return T.FALSE;
  if (isB(a)) return eqT(num(ratio(a).t), b, true); if (isB(b)) return eqT(a, num(ratio(b).t), true);
  if (isN(a) && isBigLike(b)) { const x = ratio(a); return x ? T.eq(x.t, T.mul(bigT(b), T.int(x.d))) : T.FALSE; }
  if (isN(b) && isBigLike(a)) return eqT(b, a, true);
  if (isStrLike(a) && !isStrLike(b)) { if (typeof a === 'string') return /^\d+$/.test(a) ? eqT(BigInt(a), b, true) : a === '' ? eqT(0, b, true) : T.FALSE; if (a instanceof SymText && a.parts.length === 1 && isSym(a.parts[0])) return eqT(a.parts[0], b, true); bad('loose comparison of text'); }
  if (isStrLike(b)) return eqT(b, a, true);
  if (typeof a === 'object' || typeof b === 'object' || typeof a === 'function' || typeof b === 'function') { if (a instanceof SymArr8 || b instanceof SymArr8) return T.FALSE; return T.FALSE; }
  bad('comparison');
}
const boolT = x => x instanceof SymBool ? x.t : T.bool(!!x);
function truthT(x) {
  if (x instanceof SymBool) return x.t;
  if (x instanceof SymNum || x instanceof SymBig) return T.ne(x.t, T.ZERO);
  if (x instanceof SymText) return T.TRUE;
  if (isSym(x)) return T.TRUE;
  return T.bool(!!x);
}
const truthy = x => isSym(x) ? E.decide(truthT(x)) : !!x;
// SameValueZero, decided on this path
function same(a, b) { if (!isSym(a) && !isSym(b)) { if (tainted(a) || tainted(b)) bad('look-up of a stringified symbolic value'); return a === b || (a !== a && b !== b); } return E.decide(eqT(a, b)); }

// ---- Map and Set with symbolic keys
class SymMap {
  constructor(it) { this.es = []; if (it) for (const [k, v] of it) this.set(k, v); }
  find(k) { for (let i = 0; i < this.es.length; i++) if (same(this.es[i].k, k)) return i; return -1; }
  get(k) { const i = this.find(k); return i < 0 ? undefined : this.es[i].v; }
  has(k) { return this.find(k) >= 0; }
  set(k, v) { const i = this.find(k); if (i < 0) this.es.push({ k, v }); else this.es[i].v = v; return this; }
  delete(k) { const i = this.find(k); if (i < 0) return false; this.es[i].gone = true; this.es.splice(i, 1); return true; }
  clear() { for (const e of this.es) e.gone = true; this.es = []; }
  get size() { return this.es.length; }
  *iter(f) { const seen = new Set(); for (;;) { const e = this.es.find(e => !seen.has(e)); if (!e) return; const i = this.es.indexOf(e); seen.add(e); for (let j = 0; j < i; j++) seen.add(this.es[j]); yield f(e); } }
  keys() { return this.iter(e => e.k); } values() { return this.iter(e => e.v); } entries() { return this.iter(e => [e.k, e.v]); }
  forEach(f, t) { for (const e of this.iter(e => e)) f.call(t, e.v, e.k, this); }
  [Symbol.iterator]() { return this.entries(); }
  get [Symbol.toStringTag]() { return 'Map'; }
}
class SymSet {
  constructor(it) { this.m = new SymMap(); if (it) for (const k of it) this.m.set(k, k); }
  has(k) { return this.m.has(k); } add(k) { if (!this.m.has(k)) this.m.set(k, k); return this; } delete(k) { return this.m.delete(k); } clear() { this.m.clear(); } get size() { return this.m.size; }
  keys() { return this.m.keys(); } values() { return this.m.keys(); } entries() { return this.m.entries(); } forEach(f, t) { for (const k of this.m.keys()) f.call(t, k, k, this); } [Symbol.iterator]() { return this.m.keys(); }
  get [Symbol.toStringTag]() { return 'Set'; }
}
module.exports = { setEngine, engine, Sym, SymNum, SymBig, SymBool, SymStr, SymHex, SymAddr, SymUpper, SymText, SymArr8, SymMap, SymSet, isSym, num, big, bool, bin, cmp, text, tpl, strEq, bytesEq, eqT, boolT, truthT, truthy, same, hexBytes, ratio, bigT, tainted, isStrLike, isBigLike, isNumLike, truncDiv, bad };
