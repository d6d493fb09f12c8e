'use strict';
// What the code under test uses of ethers, over symbolic byte strings.
const real = require('/repo/node_modules/ethers');
const T = require('../engine/terms');
const B = require('../engine/bytes');
const abi = require('../engine/abi');
const V = require('./values');
const { isSym, SymNum, SymBig, SymBool, SymHex, SymAddr, SymText, SymArr8, big, bool } = V;
const err = (m, code) => Object.assign(new Error(m), { code: code || 'INVALID_ARGUMENT', shortMessage: m });
const PARSED = new Map();
function param(ty) { if (typeof ty !== 'string') return toTree(real.ParamType.from(ty)); let p = PARSED.get(ty); if (!p) PARSED.set(ty, p = toTree(real.ParamType.from(ty))); return p; }
function toTree(p) {
  if (p.baseType === 'tuple') { const cs = p.components.map(toTree); const t = abi.tup(cs, p.components.map(c => c.name)); return t; }
  if (p.baseType === 'array') return abi.arr(toTree(p.arrayChildren), p.arrayLength === -1 ? null : p.arrayLength);
  if (p.type === 'bytes') return abi.BYTES; if (p.type === 'string') return abi.STRING;
  const w = abi.word(p.type); if (!w) throw err('unsupported type ' + p.type); return w;
}
// JS value -> SBytes; null when it is not bytes-like
function bytesOf(v) {
  if (v instanceof SymHex || v instanceof V.SymUpper) return v.b; if (v instanceof SymArr8) return v.b; if (v instanceof SymAddr) return B.word(v.t, 20);
  if (typeof v === 'string' && /^0x([0-9a-fA-F]{2})*$/.test(v)) return B.lit(v);
  if (v instanceof Uint8Array) return B.lit(Buffer.from(v).toString('hex'));
  return null;
}
const hex = b => b.k === 'lit' ? '0x' + b.hex : b.k === 'w' && b.t.op === 'int' ? real.toBeHex(b.t.v, b.width) : new SymHex(b);
const addrJs = t => t.op === 'int' ? real.getAddress(real.toBeHex(t.v, 20)) : new SymAddr(t);
function coerce(ty, v, where) {
  const E = V.engine();
  if (ty.k === 'tup') {
    if (v === null || v === undefined || typeof v !== 'object' || isSym(v)) throw err('invalid tuple value ' + where);
    if (Array.isArray(v)) { if (v.length !== ty.comps.length) throw err('types/value length mismatch ' + where); return ty.comps.map((c, i) => coerce(c, v[i], where + '.' + i)); }
    return ty.comps.map((c, i) => { const n = ty.names[i]; if (!n) throw err('cannot encode object for signature with missing names ' + where); return coerce(c, v[n], where + '.' + n); });
  }
  if (ty.k === 'arr') { if (!Array.isArray(v)) throw err('expected array value ' + where); if (ty.n !== null && v.length !== ty.n) throw err('array is wrong length'); return v.map((x, i) => coerce(ty.el, x, where + '[' + i + ']')); }
  if (ty.k === 'bytes') {
    if (ty.name === 'string') {
      if (v instanceof SymHex) return B.utf8(v.b); if (typeof v === 'string') { if (V.tainted(v)) V.bad('string with a stringified symbolic value'); const l = B.lit(Buffer.from(v, 'utf8').toString('hex')); return /^0x([0-9a-f]{2})*$/.test(v) ? B.utf8(B.lit(v)) : l; }
      if (isSym(v) && v.kind === 'string') V.bad('encoding text'); throw err('invalid string value ' + where);
    }
    const b = bytesOf(v); if (!b) { if (isSym(v)) V.bad('encoding ' + v.kind + ' as bytes'); throw err('invalid BytesLike value ' + where); } return b;
  }
  const n = ty.name;
  if (n === 'address') {
    if (v instanceof SymAddr) return v.t; if (v instanceof SymHex) { if (v.b.k === 'w' && v.b.width === 20) return v.b.t; throw err('invalid address ' + where); }
    if (isSym(v)) throw err('invalid address ' + where);
    return T.int(BigInt(real.getAddress(v)));
  }
  if (/^bytes/.test(n)) {
    const w = +n.slice(5); const b = bytesOf(v); if (!b) throw err('invalid BytesLike value ' + where);
    if (b.k === 'w') { if (b.width !== w) throw err('incorrect data length ' + where); return b.t; }
    if (b.k === 'lit') { if (b.hex.length !== 2 * w) throw err('incorrect data length ' + where); return w === 32 ? T.int('0x' + b.hex) : T.int('0x' + b.hex.padEnd(64, '0')); }
    if (E.decide(T.eq(B.len(E, b), T.int(w)))) V.bad('opaque bytes of word length'); throw err('incorrect data length ' + where);
  }
  if (ty.isBool) return isSym(v) ? V.truthT(v) : T.bool(!!v);
  let t;
  if (v instanceof SymBig) t = v.t; else if (v instanceof SymNum) { if (v.d !== 1n) throw err('underflow'); t = v.t; }
  else if (v instanceof SymBool || isSym(v)) { if (v instanceof SymText && v.parts.length === 1 && v.parts[0].t) t = v.parts[0].t; else throw err('invalid BigNumberish ' + where); }
  else t = T.int(real.getBigInt(v, where));
  if (t.op === 'int') { if (t.v < ty.lo || t.v > ty.hi) throw err('value out-of-bounds ' + where); }
  else if (!E.decide(T.and(T.le(T.int(ty.lo), t), T.le(t, T.int(ty.hi))))) throw err('value out-of-bounds ' + where);
  return t;
}
function js(ty, v) {
  if (ty.k === 'tup') return real.Result.fromItems(ty.comps.map((c, i) => js(c, v[i])), ty.names.map(n => n || null));
  if (ty.k === 'arr') return real.Result.fromItems(v.map(x => js(ty.el, x)));
  if (ty.k === 'bytes') {
    if (ty.name === 'string') { if (v.k === 'utf8') return hex(v.b); if (v.k === 'lit') return real.toUtf8String('0x' + v.hex); if (v === B.EMPTY) return ''; V.bad('decoding ' + v.k + ' bytes as text'); }
    return hex(v);
  }
  if (ty.name === 'address') return addrJs(v);
  if (/^bytes/.test(ty.name)) { if (ty.name === 'bytes32') return hex(B.word(v, 32)); V.bad('decoding ' + ty.name); }
  if (ty.isBool) return v.sort === 'B' ? bool(v) : bool(T.ne(v, T.ZERO));
  if (v.sort === 'B') return v === T.TRUE ? 1n : v === T.FALSE ? 0n : big(T.ite(v, T.ONE, T.ZERO));
  return big(v);
}
function encode(types, values) {
  if (types.length !== values.length) throw err('types/values length mismatch');
  const tys = types.map(param); const vs = tys.map((t, i) => coerce(t, values[i], '' + i));
  return new SymHex(B.enc(tys, vs));
}
// an encoding whose every part is known, as it stands in memory
const typeStr = t => t.k === 'tup' ? `tuple(${t.comps.map((c, i) => typeStr(c) + (t.names && t.names[i] ? ' ' + t.names[i] : '')).join(',')})` : t.k === 'arr' ? typeStr(t.el) + (t.n === null ? '[]' : `[${t.n}]`) : t.name || 'bytes';
function known(b) {
  if (b.k === 'lit') return '0x' + b.hex; if (b.k !== 'enc' || B.flat(b).leaves.some(l => l.op !== 'int')) return null;
  const plain = v => v instanceof real.Result || Array.isArray(v) ? [...v].map(plain) : v; const vals = b.ty.map((t, i) => plain(js(t, b.vals[i]))); let ok = true; const see = v => { if (Array.isArray(v)) v.forEach(see); else if (isSym(v)) ok = false; }; see(vals);
  return ok ? real.AbiCoder.defaultAbiCoder().encode(b.ty.map(typeStr), vals) : null;
}
const encLen = b => { const h = known(b); return h ? T.int(real.dataLength(h)) : B.len(V.engine(), b); };
const moving = t => t.k === 'bytes' || (t.k === 'arr' ? t.n === null || moving(t.el) : t.k === 'tup' && t.comps.some(moving)); // found through an offset
// read as another type: with everything known as it is; otherwise only where the first offset leads outside
function crossed(tys, b) {
  const h = known(b); if (h) return real.AbiCoder.defaultAbiCoder().decode(tys.map(typeStr), h);
  const one = t => t.length === 1 && t[0].k === 'tup' && moving(t[0]) ? t[0].comps : null; const to = one(tys), from = one(b.ty);
  if (to && from && moving(to[0]) && !moving(from[0])) { let v = from[0], x = b.vals[0][0]; while (v.k === 'tup') { v = v.comps[0]; x = x[0]; } if (!/^(bytes32|uint256|uint)$/.test(v.name)) V.bad('decoding an encoding of another type'); if (V.engine().decide(T.le(B.len(V.engine(), b), x))) throw err('data out-of-bounds', 'BUFFER_OVERRUN'); }
  V.bad('decoding an encoding of another type');
}
function decode(types, data) {
  const b = bytesOf(data); if (!b) { if (isSym(data)) V.bad('decoding ' + data.kind); return real.AbiCoder.defaultAbiCoder().decode(types, data); }
  if (b.k === 'lit') return real.AbiCoder.defaultAbiCoder().decode(types, '0x' + b.hex);
  const tys = types.map(param);
  if (b.k === 'enc') { if (abi.sameList(tys, b.ty)) return real.Result.fromItems(tys.map((t, i) => js(t, b.vals[i])), tys.map(() => null)); return crossed(tys, b); }
  if (b.k === 'cat' && b.parts[0].k === 'enc' && abi.sameList(tys, b.parts[0].ty)) return decode(types, new SymHex(b.parts[0])); // bytes after the value are not looked at
  throw err('could not decode result data', 'BUFFER_OVERRUN');
}
const coder = { encode, decode, getDefaultValue: t => real.AbiCoder.defaultAbiCoder().getDefaultValue(t) };
function keccak256(d) { const b = bytesOf(d); if (!b) { if (isSym(d)) V.bad('hash of ' + d.kind); throw err('invalid BytesLike value'); } return hex(B.word(B.keccak(V.engine(), b), 32)); }
function hashMessage(m) {
  const b = typeof m === 'string' || m instanceof SymHex ? null : bytesOf(m); // strings are signed as text
  if (!b) { if (isSym(m)) { if (m instanceof SymHex && m.b.k === 'w' && m.b.width === 32) return hex(B.word(B.keccak(V.engine(), B.cat([B.lit('19457468657265756d205369676e6564204d6573736167653a0a3636'), B.utf8(m.b)])), 32)); return hex(B.word(B.keccak(V.engine(), B.cat([B.lit('19'), B.utf8(m.b || B.EMPTY)])), 32)); } return real.hashMessage(m); }
  const L = b.k === 'lit' ? T.int(b.hex.length / 2) : B.len(V.engine(), b); // known length: the prefix carries it
  const p = L.op === 'int' ? Buffer.from('\x19Ethereum Signed Message:\n' + L.v, 'latin1').toString('hex') : '19';
  return hex(B.word(B.keccak(V.engine(), B.cat([B.lit(p), b.k === 'lit' && b.hex.length === 64 ? B.word(T.int('0x' + b.hex)) : b])), 32));
}
function recoverAddress(digest, sig) {
  if (!isSym(sig) && typeof sig === 'string' && isSym(digest) === false) return real.recoverAddress(digest, sig);
  let s = bytesOf(sig); if (s && s.k === 'xsig') s = B.sig(s.t); if (!s || s.k !== 'sig') { if (isSym(sig) && !s) V.bad('signature of kind ' + sig.kind); throw err('invalid signature'); }
  const d = bytesOf(digest); return addrJs(B.recover(V.engine(), d.k === 'w' ? d.t : T.int('0x' + d.hex), s));
}
const verifyMessage = (m, sig) => recoverAddress(hashMessage(m), sig);
function getBytes(v) { const b = bytesOf(v); if (!b) { if (isSym(v)) V.bad('getBytes of ' + v.kind); throw err('invalid BytesLike value'); } return b.k === 'lit' ? real.getBytes('0x' + b.hex) : new SymArr8(b); }
function hexlify(v) { const b = bytesOf(v); if (!b) { if (isSym(v)) V.bad('hexlify of ' + v.kind); throw err('invalid BytesLike value'); } return hex(b); }
const over = {
  keccak256, hashMessage, recoverAddress, verifyMessage, getBytes, getBytesCopy: getBytes, hexlify, concat: l => hex(B.cat(l.map(bytesOf))),
  getAddress: a => a instanceof SymAddr ? a : a instanceof SymHex && a.b.k === 'w' && a.b.width === 20 ? new SymAddr(a.b.t) : isSym(a) ? (() => { throw err('invalid address'); })() : real.getAddress(a),
  isAddress: a => isSym(a) ? a instanceof SymAddr : real.isAddress(a), isHexString: (v, n) => isSym(v) ? v instanceof SymHex || v instanceof V.SymUpper || v instanceof SymAddr : real.isHexString(v, n),
  toUtf8Bytes: s => s instanceof SymHex ? new SymArr8(B.utf8(s.b)) : isSym(s) ? V.bad('utf8 of ' + s.kind) : real.toUtf8Bytes(s),
  dataLength: v => isSym(v) ? (b => { const l = encLen(b); return l.op === 'int' ? Number(l.v) : V.num(l); })(bytesOf(v)) : real.dataLength(v),
  getBigInt: v => v instanceof SymBig ? v : v instanceof SymNum ? big(v.t) : isSym(v) ? V.bad('getBigInt') : real.getBigInt(v), toBigInt: v => v instanceof SymBig ? v : isSym(v) ? (v.b && v.b.k === 'w' ? big(v.b.t) : V.bad('toBigInt')) : real.toBigInt(v),
  getNumber: v => isSym(v) && v.t ? V.num(v.t) : real.getNumber(v), toNumber: v => isSym(v) && v.t ? V.num(v.t) : real.toNumber(v),
  zeroPadValue: (v, n) => isSym(v) ? V.bad('zeroPadValue') : real.zeroPadValue(v, n), toBeHex: (v, n) => isSym(v) ? (n === 32 ? hex(B.word(v.t)) : V.bad('toBeHex')) : real.toBeHex(v, n),
};
const signature = t => ({ serialized: hex(B.sig(t)), compactSerialized: hex(B.xsig(t, 'compact')), toJSON() { return {}; } });
const Signature = new Proxy(real.Signature, { get(t, k) { if (k === 'from') return v => { const b = isSym(v) ? bytesOf(v) : null; if (b && (b.k === 'sig' || b.k === 'xsig')) return signature(b.t); if (isSym(v)) throw err('invalid signature'); return real.Signature.from(v); }; const x = t[k]; return typeof x === 'function' ? x.bind(t) : x; } });
class AbiCoder { static defaultAbiCoder() { return coder; } encode(...a) { return encode(...a); } decode(...a) { return decode(...a); } }
const inner = new Proxy({ ...over, Signature, AbiCoder }, { get(t, k) { return k in t ? t[k] : real[k]; }, has() { return true; } });
const mod = new Proxy({ ...over, Signature, AbiCoder, ethers: inner, __esModule: true }, { get(t, k) { return k in t ? t[k] : real[k]; } });
module.exports = { mod, ethers: inner, param, coerce, js, hex, addrJs, bytesOf, real };
