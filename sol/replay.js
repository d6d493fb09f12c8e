'use strict';
// Turns a symbolic run of the contracts into concrete transactions and runs
// them on a real EVM with freshly compiled bytecode.
const T = require('../engine/terms');
const B = require('../engine/bytes');
const abi = require('../engine/abi');
const ethers = require('/repo/node_modules/ethers');
const LIBS = ['StateChannelUtilLibrary'];

// deterministic wallets whose addresses lie below the "nobody" range
const walletCache = [];
function wallet(i) {
  let n = walletCache.length ? walletCache[walletCache.length - 1].n + 1 : 1;
  while (walletCache.length <= i) {
    const w = new ethers.Wallet(ethers.keccak256(ethers.toUtf8Bytes('verif wallet ' + n)));
    if (BigInt(w.address) < B.NOBODY_LO) walletCache.push({ n, w });
    n++;
  }
  return walletCache[i].w;
}
const PARTY = i => T.int(BigInt(wallet(i).address)); // well-known parties used by scenarios
const PARTIES = 8;
const hex32 = v => ethers.toBeHex(v < 0n ? v + (1n << 256n) : v, 32);

class Conc {
  constructor(E, ev) {
    this.E = E; this.ev = ev; this.hash = new Map(); this.addr = new Map(); this.next = PARTIES; this.walletOf = new Map();
    this.instAddr = new Map(); this.fuzzy = false; this.instHole = new Map();
    for (let i = 0; i < PARTIES; i++) { const w = wallet(i); this.addr.set(BigInt(w.address), w.address); this.walletOf.set(w.address, w); }
    this.addr.set(0n, ethers.ZeroAddress);
    for (const h of E.memo.get('hashes') || []) this.hash.set(ev(h.h), h.bytes);
    this.realHash = new Map(); this.cache = new Map();
  }
  val(t) { let v = this.cache.get(t); if (v === undefined) { v = this.ev(t); this.cache.set(t, v); } return v; }
  address(t) {
    const v = this.val(t);
    if (this.instAddr.has(v)) return this.instAddr.get(v);
    if (v >= B.NOBODY_LO) { this.fuzzy = true; return ethers.toBeHex(v, 20); }
    if (!this.addr.has(v)) { const w = wallet(this.next++); this.addr.set(v, w.address); this.walletOf.set(w.address, w); }
    return this.addr.get(v);
  }
  digest(v) { // model value of a hash-valued term -> real value
    if (!this.hash.has(v)) return null;
    if (!this.realHash.has(v)) { this.realHash.set(v, null); this.realHash.set(v, BigInt(ethers.keccak256(this.bytes(this.hash.get(v))))); }
    const r = this.realHash.get(v); if (r === null) throw new Error('cyclic hash'); return r;
  }
  word(t, ty) {
    if (t.sort === 'B') return this.val(t) ? 1n : 0n;
    if (ty && ty.name === 'address') return BigInt(this.address(t));
    const v = this.val(t);
    if (v >= B.HASH_LO) { const r = this.digest(v); if (r !== null) return r; }
    return v;
  }
  js(ty, v) { // ethers-compatible value
    if (ty.k === 'w') { const x = this.word(v, ty); return ty.name === 'address' ? ethers.toBeHex(x, 20) : ty.isBool ? x !== 0n : /^bytes/.test(ty.name) ? hex32(x).slice(0, 2 + 2 * +ty.name.slice(5)) : x; }
    if (ty.k === 'bytes') return ty.name === 'string' ? ethers.toUtf8String(this.bytes(v)) : this.bytes(v);
    if (ty.k === 'arr') return v.map(x => this.js(ty.el, x));
    return ty.comps.map((c, i) => this.js(c, v[i]));
  }
  encode(tys, vs) { return ethers.AbiCoder.defaultAbiCoder().encode(tys.map(abi.canon), tys.map((t, i) => this.js(t, vs[i]))); }
  // words may be out of range for their type (raw words): encode them as uint256
  encodeRaw(tys, vs) { try { return this.encode(tys, vs); } catch (e) { const raw = tys.map(rawTy); return ethers.AbiCoder.defaultAbiCoder().encode(raw.map(abi.canon), raw.map((t, i) => this.js(t, vs[i]))); } }
  bytes(b) {
    switch (b.k) {
      case 'lit': return '0x' + b.hex;
      case 'atom': return ethers.dataSlice(ethers.keccak256(hex32(this.val(b.t))), 0, 13);
      case 'w': { const x = this.word(b.t, b.width === 20 ? { name: 'address' } : null); return '0x' + hex32(x).slice(2 + 64 - 2 * b.width); }
      case 'cat': return ethers.concat(b.parts.map(p => this.bytes(p)));
      case 'enc': { const tr = this.val(b.trail); return tr === 0n ? this.encodeRaw(b.ty, b.vals) : ethers.concat([this.encodeRaw(b.ty, b.vals), hex32(tr)]); }
      case 'call': return ethers.concat(['0x' + (/^[0-9a-f]{8}$/.test(b.sig) ? b.sig : 'ffffffff'), this.encodeRaw(b.ty, b.vals)]);
      case 'utf8': return ethers.hexlify(ethers.toUtf8Bytes(this.bytes(b.b)));
      case 'xsig': return otherForm(this.bytes(B.sig(b.t)), b.form);
      case 'sig': {
        const signer = this.address(B.sigSigner(b.t)); let m = this.val(B.sigMsg(b.t));
        const real = this.digest(m); if (real !== null) m = real;
        const w = this.walletOf.get(signer); if (!w) throw new Error('signer without wallet ' + signer);
        // a second signature by one signer over one message differs from the first (other nonce)
        const key = signer + hex32(m), v = this.val(b.t);
        if (!this.detsigs) { this.detsigs = new Map(); for (const t of this.E.memo.get('detsigs') || []) this.detsigs.set(this.address(B.sigSigner(t)) + ' ' + this.val(B.sigMsg(t)), this.val(t)); this.first = new Map(); }
        const det = this.detsigs.get(signer + ' ' + this.val(B.sigMsg(b.t)));
        if (det !== undefined) this.first.set(key, det);
        if (!this.first.has(key)) this.first.set(key, v);
        if (this.first.get(key) === v) return w.signingKey.sign(hex32(m)).serialized;
        return otherSig(w, hex32(m), v);
      }
      default: throw new Error('bytes ' + b.k);
    }
  }
}
function otherForm(s, form) { return form === 'compact' ? ethers.Signature.from(s).compactSerialized : ethers.concat([ethers.dataSlice(s, 0, 64), ethers.dataSlice(s, 64) === '0x1b' ? '0x00' : '0x01']); }
function otherSig(w, digest, v) {
  const { secp256k1 } = require(require.resolve('@noble/curves/secp256k1', { paths: ['/repo/node_modules/ethers'] }));
  const s = secp256k1.sign(ethers.getBytes(digest), ethers.getBytes(w.privateKey), { lowS: true, extraEntropy: ethers.getBytes(hex32(v)) });
  return ethers.Signature.from({ r: hex32(s.r), s: hex32(s.s), v: s.recovery ? 0x1c : 0x1b }).serialized;
}
function rawTy(t) { return t.k === 'w' ? abi.word('uint256') : t.k === 'arr' ? abi.arr(rawTy(t.el), t.n) : t.k === 'tup' ? abi.tup(t.comps.map(rawTy)) : t; }

// plan: everything evaluated under the current model, contract addresses left as holes
function plan(W, ev) {
  const C = new Conc(W.E, ev); const steps = []; const holes = [];
  for (const inst of W.instances.values()) { // recognisable placeholder, substituted at replay
    const h = ethers.dataSlice(ethers.id('instance ' + inst.addr), 0, 20); C.instAddr.set(inst.addr, h); holes.push(h);
  }
  for (const x of W.txs) {
    if (x.deploy) {
      const c = x.deploy; const k = c.linearizedBaseContracts && c.nodes.find(n => n.kind === 'constructor');
      const tys = k ? k.parameters.parameters.map(p => W.prog.abiType(W.prog.typeOf(p))) : [];
      steps.push({ deploy: c.name, src: c.__src, hole: C.instAddr.get(x.inst.addr), args: tys.length ? C.encode(tys, x.args) : '0x' });
      continue;
    }
    const f = x.f; C.fuzzy = false;
    let tys, rts = null, sel = f.functionSelector;
    if (f.nodeType === 'VariableDeclaration') { tys = x.args.map(() => abi.word('uint256')); }
    else { tys = f.parameters.parameters.map(p => W.prog.abiType(W.prog.typeOf(p))); rts = f.returnParameters.parameters.map(p => W.prog.typeOf(p)); }
    const plain = x.args.map((a, i) => plainArg(W, f.parameters ? W.prog.typeOf(f.parameters.parameters[i]) : null, a));
    const st = { to: C.instAddr.get(x.inst.addr), name: x.name, from: C.address(x.from), data: ethers.concat(['0x' + sel, C.encodeRaw(tys, plain)]), now: C.val(x.now).toString(), ok: x.ok, why: x.why || null };
    if (x.ok && rts && rts.length) { C.fuzzy = false; st.ret = C.encodeRaw(rts.map(t => W.prog.abiType(t)), x.ret.map((v, i) => W.prog.toAbi(rts[i], v))); if (C.fuzzy) st.ret = null; }
    steps.push(st);
  }
  return { steps, holes };
}
function plainArg(W, t, a) { return t ? W.prog.toAbi(t, W.prog.fromAbi(t, a, null)) : a; }

async function newEvm() {
  const { EVM, createEVM } = require('/repo/node_modules/@ethereumjs/evm');
  return createEVM ? createEVM({ allowUnlimitedContractSize: true, allowUnlimitedInitCodeSize: true }) : EVM.create({ allowUnlimitedContractSize: true, allowUnlimitedInitCodeSize: true });
}
// returns {agree, mismatches, results}
async function replay(p, code) {
  const { Address, hexToBytes, bytesToHex } = require('/repo/node_modules/@ethereumjs/util');
  const mk = h => new Address(hexToBytes(h.toLowerCase()));
  const evm = await newEvm(); const map = {}; const mism = []; const results = [];
  const subst = h => { for (const k in map) h = h.split(k.slice(2).toLowerCase()).join(map[k].slice(2)); return h; };
  const caller = mk(wallet(7).address); const GL = 0xffffffffffffn;
  const libAddr = {};
  const link = (key) => {
    const b = code[key]; if (!b) throw new Error('no bytecode for ' + key);
    let o = b.object;
    for (const src in b.links) for (const lib in b.links[src]) for (const { start, length } of b.links[src][lib])
      o = o.slice(0, 2 * start) + libAddr[src + ':' + lib].slice(2) + o.slice(2 * (start + length));
    return o;
  };
  let nonce = 0;
  const create = async (hex) => {
    const r = await evm.runCall({ caller, origin: caller, data: hexToBytes('0x' + hex.replace(/^0x/, '')), gasLimit: GL, block: block('1') });
    if (r.execResult.exceptionError) throw new Error('deployment failed ' + r.execResult.exceptionError.error);
    const acct = await evm.stateManager.getAccount(caller);
    return r.createdAddress.toString();
  };
  const block = now => ({ header: { number: 1n, coinbase: Address.zero ? Address.zero() : mk(ethers.ZeroAddress), timestamp: BigInt(now), difficulty: 0n, prevRandao: new Uint8Array(32), gasLimit: GL, baseFeePerGas: 0n, getBlobGasPrice: () => 1n } });
  for (const key in code) if (LIBS.includes(key.split(':')[1])) { libAddr[key] = await create(link(key)); }
  for (let i = 0; i < p.steps.length; i++) {
    const s = p.steps[i];
    if (s.deploy) { map[s.hole] = (await create(link(s.src + ':' + s.deploy) + subst(s.args.toLowerCase()).slice(2))).toLowerCase(); results.push('deployed'); continue; }
    const r = await evm.runCall({ caller: mk(s.from), origin: mk(s.from), to: mk(map[s.to]), data: hexToBytes(subst(s.data.toLowerCase())), gasLimit: GL, block: block(s.now) });
    const ok = !r.execResult.exceptionError;
    const ret = bytesToHex(r.execResult.returnValue);
    results.push({ name: s.name, ok, ret });
    if (ok !== s.ok) { mism.push({ step: i, name: s.name, predicted: s.ok ? 'success' : 'revert ' + s.why, actual: ok ? 'success' : 'revert ' + ret.slice(0, 200) + ' ' + r.execResult.exceptionError.error }); }
    else if (ok && s.ret && subst(s.ret.toLowerCase()) !== ret) mism.push({ step: i, name: s.name, predicted: subst(s.ret.toLowerCase()), actual: ret });
  }
  return { agree: mism.length === 0, mismatches: mism, results };
}
// contracts whose bytecode a plan needs
function needs(prog, p) {
  const m = new Map();
  for (const s of p.steps) if (s.deploy) m.set(s.src + ':' + s.deploy, { src: s.src, name: s.deploy });
  for (const c of prog.contracts) if (LIBS.includes(c.name)) m.set(c.__src + ':' + c.name, { src: c.__src, name: c.name });
  return [...m.values()];
}
module.exports = { otherForm, PARTY, plan, replay, needs, Conc, wallet };
