'use strict';
// A channel on both sides: the real contracts (interpreted symbolically and
// replayed on an EVM) and the real off-chain code talking to them.  What the
// contracts answer is recorded, so that the off-chain part can be replayed
// on its own with the real ethers.
const K = require('./blocks'); const { node } = require('./node'); const SE = require('./ethers'); const B = require('../engine/bytes'); const { T } = require('../sol/lib');
const START = 1000000;
const str = (p, t, label) => { const l = label ? ' ' + label : ''; if (t.k === 'struct') return `tuple(${t.decl.members.map((m, i) => str(p, t.fields[i], m.name)).join(',')})` + l; if (t.k === 'array') return str(p, t.el, '') + '[]' + l; return (p.abiType(t).name || 'bytes') + l; };
// the ethers types of a function of the manager
function signature(X, name) {
  const p = X.prog; p.__sigs = p.__sigs || new Map();
  if (!p.__sigs.has(name)) { const c = [...p.nodes.values()].find(n => n.nodeType === 'ContractDefinition' && n.name === 'HarnessManager'); const f = p.byName(c, name); const ty = l => l.parameters.map(v => str(p, p.typeOf(v), v.name)); p.__sigs.set(name, { ins: ty(f.parameters), outs: ty(f.returnParameters), ret: f.returnParameters.parameters.map(v => p.typeOf(v)) }); }
  return p.__sigs.get(name);
}
// calls a function of the manager as ethers would: arguments are checked and encoded, the answer decoded
function bridge(X, S) {
  const log = [];
  const call = (who, name, args) => {
    const g = signature(X, name); if (args.length === g.ins.length + 1) args = args.slice(0, -1); // overrides
    K.coder(X).encode(g.ins, args);
    let r = null; if (S) { const tys = g.ins.map(SE.param); r = S.tx(S.P[who], name, args.map((a, i) => SE.coerce(tys[i], a))); }
    const ok = X.input(name + '.ok', () => r.ok), e = { who, name, args, ok, why: r && r.why, r, at: api.next }; log.push(e);
    if (!ok) { const er = new Error('execution reverted: ' + name); er.code = 'CALL_EXCEPTION'; throw er; }
    if (g.outs.length) { const ret = X.fromSol(name + '.ret', () => X.prog.encode(g.ret, r.ret)); const v = K.coder(X).decode(g.outs, ret); e.ret = g.outs.length === 1 ? v[0] : v; }
    return e.ret;
  };
  const api = { call, log, done: () => ({ hash: '0x', wait: async () => ({}) }), of: (who, name) => log.filter(e => e.who === who && e.name === name) };
  return api;
}
// n participants with len agreed moves of the harness game; o: fork, times (symbolic times), signers(h) additional signers
function world(X, n, len, o = {}) {
  let S = null; const f = o.fork || 0;
  if (X.sol) { S = X.sol.setup(); S.W.now = T.int(START); S.open(n, { number: T.ZERO }); if (f) { X.sol.must(S.tx(S.P[5], 'setFork', [S.ch, T.int(f), S.genesis])); S.fork = T.int(f); } S.W.now = T.int(START + 1000); }
  const C = bridge(X, S); const moves = Array.from({ length: len }, (_, h) => o.moves ? o.moves[h] : 1); const number = h => moves.slice(0, h + 1).reduce((a, b) => a + b, 0);
  const state = k => X.fromSol('state' + k, () => S.hstate({ number: T.int(k), participants: S.parts, balances: S.parts.map((_, i) => T.int(10 + i)) })); const states = new Map(); const at = k => { if (!states.has(k)) states.set(k, state(k)); return states.get(k); };
  const play = k => X.fromSol('play' + k, () => S.play(typeof k === 'number' ? T.int(k) : S.u('move'))); const turn = k => k % n;
  const times = []; const time = h => { if (times[h] === undefined) { if (!o.times) times[h] = BigInt(START + 1 + h); else { const t = X.big('time' + h, START + 200, START); X.assume(X.ge(t, h ? time(h - 1) : BigInt(START))); X.assume(X.le(t, X.add(h ? time(h - 1) : BigInt(START), 15n))); times[h] = t; } } return times[h]; };
  const lens = Array.from({ length: f + 1 }, (_, i) => i === f ? len : 0);
  const opts = { realHash: true, parts: n, forks: f + 1, lens, genesis: i => i === f ? at(0) : X.blob('old genesis' + i), genesisAt: START, state: (i, h) => at(number(h)), author: (i, h) => turn(number(h) - moves[h]), block: (X, l, x) => K.plain(X, l, { ...x, timestamp: time(Number(x.transactionCnt)), encodedData: '0x', data: play(moves[Number(x.transactionCnt)]) }) };
  // a node of participant me
  const peer = (me = 0, no = {}) => {
    const own = (name, fn) => async (...a) => { if (no.before) await no.before(name, a); return fn(C.call(me, name, a)); };
    const tx = name => own(name, () => C.done()), view = name => own(name, v => v);
    const N = node(X, { ...opts, me, ...no, contract: { createDispute: tx('createDispute'), challengeDispute: tx('challengeDispute'), postBlockCalldata: tx('postBlockCalldata'), getDispute: view('getDispute'), getBlockCallData: view('getBlockCallData'), getChainLatestBlockTimestamp: view('getChainLatestBlockTimestamp'), ...no.contract } });
    const M = N.machine; // the machine is the one the contract uses
    M.outcome = (s, t) => M.find(M.table, e => X.and(X.eq(e.s, s), X.eq(e.t, K.encTx(X, t))), () => { const r = C.call(5, 'executeStateTransitionOnState', [K.CH, s, t]); return { s, t: K.encTx(X, t), ok: r[0], next: r[1] }; });
    M.turn = s => M.find(M.turns, e => X.eq(e.s, s), () => ({ s, who: C.call(5, 'getNextToWrite', [K.CH, s]) })).who;
    N.chain = N.forks[f].blocks; N.genesis = N.forks[f].genesis; return N;
  };
  const manager = () => { const s = K.manager(X, opts); return { ...s, chain: s.forks[f].blocks, genesis: s.forks[f].genesis }; };
  // what participant `who` submits: the first k agreed blocks (signed by their authors) from genesis on
  const evidence = (chain, genesis, k) => [genesis, k ? chain[k - 1].state : genesis, chain.slice(0, k).map(e => ({ encodedBlock: K.enc(X, e.b), signatures: [e.sigs[0]] }))];
  const raise = (who, chain, genesis, k, r = {}) => C.call(who, 'createDispute', [K.CH, BigInt(f), ...evidence(chain, genesis, k), r.timeout === undefined ? K.ZERO : X.party(r.timeout), r.folded === undefined ? (r.timeout === undefined ? 0n : BigInt(k)) : r.folded, r.proofs || []]);
  const challenge = (who, cnt, chain, genesis, k, proofs) => C.call(who, 'challengeDispute', [K.CH, BigInt(f), cnt, proofs, ...(([a, b, v]) => [v, a, b])(evidence(chain, genesis, k))]);
  // an equivocation of p at an unused height: evidence that is accepted once
  const equivocation = p => { const bl = s => K.signedBy(X, K.plain(X, 'eq', { forkCnt: BigInt(f), transactionCnt: 7777n, participant: X.party(p), stateHash: '0x' + s.repeat(32), previousStateHash: '0x' + '33'.repeat(32), encodedData: '0x', data: '0x' }), p); return proof(1, signature_(X, 'DoubleSignProof'), { doubleSigns: [{ block1: bl('11'), block2: bl('22') }] }); };
  const proof = (t, ty, v) => ({ proofType: t, encodedProof: K.coder(X).encode([ty], [v]) });
  const dispute = () => C.call(5, 'getDispute', [K.CH]);
  return { S, C, f, n, len, at, number, turn: h => turn(number(h - 1) || 0), play, time, peer, manager, evidence, raise, challenge, equivocation, proof, dispute, opts };
}
const signature_ = (X, n) => X.solType(n);
// bytes of a TypeScript value for the contract side
const raw = x => x.b || B.lit(x.slice(2));
module.exports = { world, bridge, signature, raw, START };
