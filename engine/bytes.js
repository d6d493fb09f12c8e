'use strict';
// Structured symbolic byte strings shared by the Solidity and TypeScript front
// ends.  A byte string is
//   lit   concrete hex                       {k:'lit', hex}
//   atom  opaque non-empty blob              {k:'atom', t}
//   sig   an ECDSA signature blob            {k:'sig', t}
//   xsig  the same signature in another form {k:'xsig', t, form}: libraries read it, the contracts don't
//   enc   abi.encode(types, vals) ++ trail   {k:'enc', ty, vals, trail}   trail: Int term (0 = canonical)
//   call  selector ++ abi.encode(args)       {k:'call', sig, ty, vals}
//   w     one 32-byte word                   {k:'w', t}
//   utf8  the UTF-8 text of a 0x-hex string  {k:'utf8', b}
//   cat   concatenation                      {k:'cat', parts}
// Two values of different shape are different byte strings.
const T = require('./terms');
const abi = require('./abi');
class SBytes { constructor(o) { Object.assign(this, o); this._flat = null; } }
const lit = hex => new SBytes({ k: 'lit', hex: hex.toLowerCase().replace(/^0x/, '') });
const EMPTY = lit('');
const atom = t => new SBytes({ k: 'atom', t });
const sig = t => new SBytes({ k: 'sig', t });
const xsig = (t, form) => new SBytes({ k: 'xsig', t, form });
const word = (t, width = 32) => new SBytes({ k: 'w', t, width });
const enc = (ty, vals, trail = T.ZERO) => new SBytes({ k: 'enc', ty, vals, trail });
const call = (sg, ty, vals) => new SBytes({ k: 'call', sig: sg, ty, vals });
const utf8 = b => b.k === 'lit' ? lit(Buffer.from('0x' + b.hex).toString('hex')) : new SBytes({ k: 'utf8', b });
function cat(parts) {
  const ps = [];
  for (const p of parts) {
    if (p.k === 'cat') ps.push(...p.parts);
    else if (p.k === 'lit' && p.hex === '') continue;
    else if (p.k === 'lit' && ps.length && ps[ps.length - 1].k === 'lit') ps[ps.length - 1] = lit(ps[ps.length - 1].hex + p.hex);
    else ps.push(p);
  }
  if (ps.length === 0) return EMPTY; if (ps.length === 1) return ps[0];
  return new SBytes({ k: 'cat', parts: ps });
}
// flatten into a shape key and the list of Int leaves
function flat(b) {
  if (b._flat) return b._flat;
  const leaves = []; let key;
  switch (b.k) {
    case 'lit': key = 'L' + b.hex; break;
    case 'atom': key = 'A'; leaves.push(b.t); break;
    case 'sig': key = 'S'; leaves.push(b.t); break;
    case 'xsig': key = 'S' + b.form; leaves.push(b.t); break;
    case 'w': key = 'W' + b.width; leaves.push(b.t); break;
    case 'utf8': { const f = flat(b.b); key = 'U' + f.key; leaves.push(...f.leaves); break; }
    case 'cat': key = 'C[' + b.parts.map(p => { const f = flat(p); leaves.push(...f.leaves); return f.key; }).join('+') + ']'; break;
    case 'enc': case 'call': {
      const shp = (tys, vs) => tys.map((ty, i) => one(ty, vs[i])).join(',');
      const one = (ty, v) => {
        if (ty.k === 'arr') return '[' + v.map(x => one(ty.el, x)).join(',') + ']';
        if (ty.k === 'tup') return '(' + shp(ty.comps, v) + ')';
        if (ty.k === 'bytes') { const f = flat(v); leaves.push(...f.leaves); return '{' + f.key + '}'; }
        if (v.sort === 'B') { leaves.push(T.ite(v, T.ONE, T.ZERO)); return 'w'; }
        leaves.push(v); return 'w';
      };
      key = (b.k === 'enc' ? 'E' : 'F' + b.sig) + '<' + shp(b.ty, b.vals) + '>';
      if (b.k === 'enc') leaves.push(b.trail);
      break;
    }
    default: throw new Error('flat ' + b.k);
  }
  return (b._flat = { key, leaves });
}
function eq(a, b) {
  if (a === b) return T.TRUE;
  const fa = flat(a), fb = flat(b);
  if (fa.key !== fb.key) return T.FALSE;
  return T.and(...fa.leaves.map((x, i) => T.eq(x, fb.leaves[i])));
}
// byte length as an Int term
function len(E, b) {
  switch (b.k) {
    case 'lit': return T.int(b.hex.length / 2);
    case 'sig': return T.int(65);
    case 'xsig': return T.int(b.form === 'compact' ? 64 : 65);
    case 'w': return T.int(b.width);
    case 'cat': return b.parts.reduce((a, p) => T.add(a, len(E, p)), T.ZERO);
    default: {
      const f = flat(b); const l = T.app('len.' + shapeId(f.key), f.leaves, 'I', 1n, 1n << 64n);
      if (!E.memo.has('l' + l.id)) { E.memo.set('l' + l.id, 1); E.rangeAxiom(l); }
      return l;
    }
  }
}
const HASH_LO = 1n << 208n; // hashes are never small numbers
const MAX256 = (1n << 256n) - 1n;
const shapeIds = new Map();
function shapeId(key) { let i = shapeIds.get(key); if (i === undefined) { i = shapeIds.size + 1; shapeIds.set(key, i); } return i; }
// keccak256: injective on byte strings, axioms instantiated per term
function keccak(E, b) {
  const f = flat(b); const id = shapeId(f.key);
  const h = T.app('keccak.' + id, f.leaves, 'I', HASH_LO, MAX256);
  if (!E.memo.has('k' + h.id)) {
    E.memo.set('k' + h.id, { bytes: b, h });
    E.rangeAxiom(h);
    E.axiom(T.eq(T.app('keccak.tag', [h]), T.int(id)));
    f.leaves.forEach((l, i) => { if (!l.isConst || true) E.axiom(T.eq(T.app(`keccak.inv.${id}.${i}`, [h]), l)); });
    // no value contains its own hash
    for (const l of new Set(f.leaves)) if (!l.isConst && (l.hi === null || l.hi >= HASH_LO)) E.axiom(T.lt(T.app('keccak.rank', [l]), T.app('keccak.rank', [h])));
    if (!E.memo.has('hashes')) E.memo.set('hashes', []);
    E.memo.get('hashes').push({ bytes: b, h });
  }
  return h;
}
const ADDR_MAX = (1n << 160n) - 1n;
// signatures: an idealised scheme.  Signature s carries (signer(s), message(s));
// recovering it over another message yields an address that belongs to nobody.
const sigSigner = t => T.app('sig.signer', [t], 'I', 1n, ADDR_MAX);
const sigMsg = t => T.app('sig.msg', [t], 'I', 0n, MAX256);
function ensureSig(E, t) {
  if (E.memo.has('s' + t.id)) return;
  const sg = sigSigner(t), m = sigMsg(t);
  E.memo.set('s' + t.id, 1); E.rangeAxiom(sg); E.rangeAxiom(m);
  E.axiom(T.and(T.lt(T.ZERO, sg), T.lt(sg, T.int(NOBODY_LO))));
  if (!E.memo.has('sigs')) E.memo.set('sigs', []);
  E.memo.get('sigs').push(t);
}
function recover(E, digest, s) {
  if (s.k !== 'sig') return null;
  const sg = sigSigner(s.t), m = sigMsg(s.t);
  const junk = T.app('sig.junk', [digest, s.t], 'I', NOBODY_LO, NOBODY_HI);
  ensureSig(E, s.t);
  if (!E.memo.has('j' + junk.id)) {
    E.memo.set('j' + junk.id, 1); E.rangeAxiom(junk);
    E.axiom(T.and(T.eq(T.app('sig.junk.d', [junk]), digest), T.eq(T.app('sig.junk.s', [junk]), s.t)));
    for (const h of E.recHooks) h(digest, s.t, sg, m);
  }
  return T.ite(T.eq(m, digest), sg, junk);
}
const NOBODY_LO = 1n << 158n, NOBODY_HI = (1n << 159n) - 1n;
module.exports = { ensureSig, HASH_LO, SBytes, len, lit, EMPTY, atom, sig, xsig, word, enc, call, utf8, cat, flat, eq, keccak, recover, sigSigner, sigMsg, MAX256, ADDR_MAX, NOBODY_LO, NOBODY_HI, abi };
