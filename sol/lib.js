'use strict';
// Scenario helpers for contract checks.
const T = require('../engine/terms');
const B = require('../engine/bytes');
const abi = require('../engine/abi');
const I = require('./interp');
const R = require('./replay');
const W_MAX = (1n << 256n) - 1n;
const TMAX = (1n << 40n) - 1n; // clocks and time spans

class Ctx {
  constructor(prog, E, opts = {}) {
    this.prog = prog; this.E = E; this.W = new I.World(prog, E); this.opts = opts; this.tier = opts.tier;
    E.concretise = ev => R.plan(this.W, ev);
    this.sigs = [];
  }
  // ---- types and values
  struct(name) {
    const p = this.prog; p.__structs = p.__structs || new Map();
    if (!p.__structs.has(name)) {
      let found = null;
      for (const [id, n] of p.nodes) if (n.nodeType === 'StructDefinition' && n.name === name && !n.__src.startsWith('@')) { if (!found || n.__src.startsWith('contracts/V1/D') || n.__src.startsWith('verif')) found = n; }
      if (!found) throw new Error('no struct ' + name);
      p.__structs.set(name, p.type(`t_struct$_${name}_$${found.id}_memory_ptr`));
    }
    return p.__structs.get(name);
  }
  val(t, o) { // object by field name -> ABI value; missing fields are zero
    if (t.k === 'struct') return t.decl.members.map((m, i) => this.val(t.fields[i], o === undefined || Array.isArray(o) ? (o || [])[i] : o[m.name]));
    if (t.k === 'array') return (o || []).map(x => this.val(t.el, x));
    if (o === undefined) return t.k === 'bytes' || t.k === 'string' ? B.EMPTY : t.k === 'bool' ? T.FALSE : T.ZERO;
    if (typeof o === 'number' || typeof o === 'bigint') return T.int(o);
    if (o === true || o === false) return T.bool(o);
    return o;
  }
  v(name, o) { return this.val(this.struct(name), o); }
  enc(name, o, trail = T.ZERO) { const t = this.struct(name); return B.enc([this.prog.abiType(t)], [this.val(t, o)], trail); }
  // ---- symbols
  u(label, hi = W_MAX, lo = 0n) { return this.E.fresh(label, 'I', BigInt(lo), BigInt(hi)); }
  time(label) { return this.u(label, TMAX); }
  addr(label) { return this.u(label, B.NOBODY_LO - 1n); }
  b32(label) { return this.u(label, W_MAX); }
  atom(label) { return B.atom(this.u(label, W_MAX)); }
  sig(label) { const t = this.u(label, W_MAX); B.ensureSig(this.E, t); return B.sig(t); }
  digest(b) { return B.keccak(this.E, B.cat([B.lit('19457468657265756d205369676e6564204d6573736167653a0a3332'), B.word(B.keccak(this.E, b))])); }
  hash(b) { return B.keccak(this.E, b); }
  // signature s is a genuine signature by a over b
  signed(s, b, a) { return s.k === 'sig' ? T.and(T.eq(B.sigSigner(s.t), a), T.eq(B.sigMsg(s.t), this.digest(b))) : T.FALSE; }
  signBy(a, b, label = 'gsig') { const s = this.sig(label); this.E.assume(this.signed(s, b, a), false); return s; }
  recovered(s, b) { return B.recover(this.E, this.digest(b), s); }
  // ---- contracts
  setup(o = {}) {
    const p = this.prog, W = this.W;
    this.P = [0, 1, 2, 3, 4, 5].map(i => R.PARTY(i));
    this.sm = W.deploy(p.contract(o.sm || 'HarnessStateMachine'));
    this.facet = W.deploy(p.contract('DisputeManagerFacet', 'contracts/'));
    this.m = W.deploy(p.contract(o.manager || 'HarnessManager'), [this.sm, this.facet]);
    this.ch = o.channel || T.int(0xc1);
    W.now = T.int(1000000);
    if (o.times !== null) {
      const t = o.times || [T.int(15), T.int(5), T.int(30), T.int(60)];
      this.times = t; this.must(W.tx(this.P[5], this.m, 'setTimes', t));
    }
    return this;
  }
  must(r) { if (!r.ok) throw new Error(`set-up call ${r.name} failed: ${r.why}`); return r; }
  tx(from, name, args) { return this.W.tx(from, this.m, name, args); }
  hstate(o) { return this.enc('HState', o); }
  open(n, o = {}) { // opens the channel with the first n parties; genesis clock may be symbolic
    this.n = n; this.parts = this.P.slice(0, n);
    this.genesis = o.genesis || this.hstate({ number: o.number === undefined ? T.int(n * 4) : o.number, participants: this.parts, balances: this.parts.map((_, i) => o.balances ? o.balances[i] : T.int(10 + i)) });
    if (o.now) this.W.now = o.now;
    this.genesisTime = this.W.now;
    const ch = o.channel || this.ch;
    if (o.fork) { // an arbitrary later fork; fork 0 started from another state
      this.fork = this.u('fork.current', 1n << 200n, 1n);
      const first = this.hstate({ number: T.int(424242), participants: [this.P[4], this.P[5]], balances: [T.ONE, T.ONE] });
      this.must(this.tx(this.P[5], 'openChannel', [ch, [first], []]));
      this.must(this.tx(this.P[5], 'setFork', [ch, this.fork, this.genesis]));
    } else { this.fork = T.ZERO; this.must(this.tx(this.P[5], 'openChannel', [ch, [this.genesis], []])); }
    return this;
  }
  block(o) { // a Block as nested object with defaults
    return { transaction: { header: { channelId: o.channelId || this.ch, participant: o.participant, forkCnt: o.forkCnt || this.fork || T.ZERO, transactionCnt: o.transactionCnt || T.ZERO, timestamp: o.timestamp || T.ZERO }, body: { transactionType: T.ZERO, encodedData: B.EMPTY, data: o.data || B.EMPTY } }, stateHash: o.stateHash || T.ZERO, previousStateHash: o.previousStateHash || T.ZERO };
  }
  encBlock(o, trail) { return this.enc('Block', this.block(o), trail); }
  // a block with symbolic fields; returns {f: fields, enc}
  symBlock(label, o = {}) {
    const f = { channelId: this.b32(label + '.channel'), participant: this.addr(label + '.author'), forkCnt: this.u(label + '.fork'), transactionCnt: this.u(label + '.height'), timestamp: this.time(label + '.time'), stateHash: this.b32(label + '.state'), previousStateHash: this.b32(label + '.prev'), ...o };
    return { f, enc: this.encBlock(f, o.trail) };
  }
  play(n) { return B.call(this.prog.byName(this.sm.c, 'play').functionSelector, [abi.word('uint256')], [n]); }
  // an equivocation by party p at a height nobody else uses: a proof that is always accepted once
  equivocation(p, fork = this.fork || T.ZERO, h = T.int(7777)) {
    const a = this.encBlock({ participant: p, forkCnt: fork, transactionCnt: h, stateHash: T.int(1) }), b = this.encBlock({ participant: p, forkCnt: fork, transactionCnt: h, stateHash: T.int(2) });
    return this.proof('DoubleSign', 'DoubleSignProof', { doubleSigns: [{ block1: { encodedBlock: a, signature: this.signBy(p, a, 'eqA') }, block2: { encodedBlock: b, signature: this.signBy(p, b, 'eqB') } }] });
  }
  enumIdx(en, member) { for (const [, n] of this.prog.nodes) if (n.nodeType === 'EnumDefinition' && n.name === en && !n.__src.startsWith('@')) { const i = n.members.findIndex(m => m.name === member); if (i >= 0) return T.int(i); } throw new Error('enum ' + en + '.' + member); }
  proof(kind, struct, o) { return [this.enumIdx('ProofType', kind), struct ? this.enc(struct, o) : o]; }
  // read the dispute record as an object of memory values
  dispute(channel = this.ch) { const r = this.must(this.tx(this.P[5], 'getDispute', [channel])); return this.obj(r.ret[0]); }
  obj(v) { if (v instanceof I.MStruct) { const o = {}; v.t.decl.members.forEach((m, i) => { o[m.name] = this.obj(v.f[i]); }); return o; } if (v instanceof I.MArr) return v.items.map(x => this.obj(x)); return v; }
  // snapshot of everything observable about a channel, for "nothing changed" checks
  snapshot(channel = this.ch, forks = 3) {
    const s = [];
    const q = (n, a) => { const r = this.must(this.tx(this.P[5], n, a)); s.push(...r.ret.map((v, i) => this.prog.encode([this.prog.typeOf(r.f.returnParameters.parameters[i])], [v]))); };
    q('getDispute', [channel]); q('getForkCnt', [channel]); q('getLatestState', [channel]); q('recorded', []);
    for (let f = 0; f < forks; f++) { q('stateAt', [channel, T.int(f)]); q('getGenesisTimestamp', [channel, T.int(f)]); }
    return s;
  }
  sameSnap(a, b) { return T.and(...a.map((x, i) => B.eq(x, b[i]))); }
  // a valid chain of L blocks from genesis; heights, times and final state are symbolic unless given
  chain(L, o = {}) {
    const votes = []; let prev = this.hash(this.genesis); let latest = this.genesis;
    for (let i = 0; i < L; i++) {
      const last = i === L - 1; const st = last ? (o.latest || this.hstate({ number: this.u('latest.number', 1000n), participants: this.parts, balances: o.balances || this.parts.map((_, j) => T.int(10 + j)) })) : null;
      const stateHash = st ? this.hash(st) : this.b32('mid.state' + i); if (st) latest = st;
      const author = o.authors ? o.authors[i] : this.parts[i % this.parts.length];
      const f = { channelId: this.ch, participant: author, forkCnt: o.fork || this.fork || T.ZERO, transactionCnt: o.heights ? o.heights[i] : T.int(i), timestamp: o.times ? o.times[i] : this.time('vote.time' + i), stateHash, previousStateHash: prev };
      const e = this.encBlock(f);
      votes.push({ f, enc: e, sigs: (o.signers ? o.signers[i] : [author]).map((a, j) => this.signBy(a, e, `vote${i}.${j}`)) });
      prev = stateHash;
    }
    return { votes, latest, confirmed: votes.map(v => [v.enc, v.sigs]) };
  }
  sjc(o, label = 'join') { // a join request signed by the joiner
    const e = this.enc('JoinChannel', o.request); const s = o.sig || this.signBy(o.request.participant, e, label);
    return { encodedJoin: e, sig: s, enc: this.enc('SignedJoinChannel', { encodedJoinChannel: e, signature: s }) };
  }
  // next participant to act in a harness state
  next(number, parts) { let r = parts[parts.length - 1]; const m = T.mod(number, T.int(parts.length)); for (let i = parts.length - 2; i >= 0; i--) r = T.ite(T.eq(m, T.int(i)), parts[i], r); return r; }
  isIn(a, list) { return T.or(...list.map(x => T.eq(x, a))); }
  check(p, msg, o) { this.E.check(p, msg, o); }
  iff(a, b, msg, o) { this.check(T.eq(a, b), msg, o); }
}
module.exports = { Ctx, T, B, abi, R, TMAX, W_MAX };
