'use strict';
const K = require('../ts/blocks'); const { clock } = require('../ts/node'); const { world, START } = require('../ts/channel');
const job = (name, run, o) => ({ kind: 'ts', sol: true, name, run, samples: 3, ...o });
const NOW = (START + 1000) * 1000;
// a block the node judges incorrect leads to a proof the contract accepts
const incorrect = (n, len, fork, way) => job(`incorrect block, ${way}, ${n} participants, ${len} agreed, fork ${fork}`, async X => {
  const w = world(X, n, len, { fork, times: len > 1 }); const me = X.choose(2, 'me'); const N = w.peer(me); X.nowMs = NOW;
  const h = len - X.choose(Math.min(2, len + 1), 'back'); const a = X.choose(n, 'author'); X.assume(a !== me); if (a === me) return;
  const before = h ? N.chain[h - 1].state : N.genesis; const kind = X.choose(2, 'data');
  const c = K.plain(X, 'block', { forkCnt: BigInt(fork), transactionCnt: BigInt(h), participant: X.party(a), timestamp: X.big('time'), previousStateHash: X.eth.keccak256(before), encodedData: '0x', data: kind ? w.play() : '0x' });
  if (h < len && N.chain[h].a === a) return; // an equivocation: T03
  const sb = K.signedBy(X, c, a);
  if (way === 'message') { const r = await X.tryAsync(() => N.sm.onSignedBlock(sb)); X.check(r.ok, 'the block is handled'); await X.pump(3); } else { X.try(() => N.sm.collectOnChainBlock(sb, START + 900)); await X.pump(3); }
  const subs = w.C.of(me, 'createDispute'); X.obs('submitted', subs.map(s => s.args)); if (!subs.length) { X.reach('not disputed'); return; }
  X.reach(h === 0 ? 'first block' : h < len ? 'block of the wrong author' : 'next block'); X.check(X.unhandled.length === 0, 'nothing fails in the background');
  if (!w.S) return;
  X.check(subs[0].ok, 'the contract accepts the proof of an incorrect block'); const d = w.dispute(); X.check(d.slashedParticipants.length === 1 && X.is(X.eq(d.slashedParticipants[0], X.party(a))), 'exactly the author of the incorrect block is slashed'); X.reach('accepted');
}, { weight: n * (len + 2) });
// filtering keeps a proof exactly if the contract accepts it
const kinds = ['FoldRechallenge', 'DoubleSign', 'IncorrectData', 'NewerState', 'FoldPriorBlock', 'BlockTooFarInFuture'];
const filter = (kind, n, len, timeout) => job(`${kind} against a dispute, ${n} participants, ${len} agreed${timeout ? ', timeout' : ''}`, async X => {
  const w = world(X, n, len); const s = w.manager(); const am = s.am, chain = s.chain; X.nowMs = NOW; const me = 0;
  clock(X); const PM = X.load('@/ProofManager').default; const pm = new PM(am); const T_ = X.load('@/types/disputes').ProofType;
  chain.forEach((e, h) => { if (X.choose(2, 'everyone signed ' + h)) for (let p = 0; p < n; p++) if (p !== e.a) { const g = X.signBytes(p, K.enc(X, e.b)); am.confirmBlock(e.b, g); e.sigs.push(g); } });
  // somebody raises a dispute on the first k blocks
  const own = kind === 'FoldRechallenge' || kind === 'NewerState'; const who = own ? 1 + X.choose(n - 1, 'disputer') : X.choose(n, 'disputer'); // own disputes: T13
  const k = X.choose(len + 1, 'posted'); const next = w.turn(k); const other = n > 2 ? [1, 2].find(i => i !== who) : undefined;
  if (timeout) { if (next === who) return; w.raise(who, chain, s.genesis, k, { timeout: next, proofs: other !== undefined && X.choose(2, 'also') ? [w.equivocation(other)] : [] }); } else { const t = who === 1 ? (other === undefined ? me : other) : 1; if (t === me) return; w.raise(who, chain, s.genesis, k, { proofs: [w.equivocation(t)], folded: X.choose(2, 'folded') ? BigInt(k) : undefined }); }
  const d = w.dispute(); let p;
  if (kind === 'FoldRechallenge') { const h = X.choose(len + 1, 'height'); p = pm.createFoldRechallengeProof(w.f, h); }
  if (kind === 'NewerState') { const v = X.choose(n, 'signer'); p = pm.createNewerStateProof(w.f, X.party(v), X.choose(2, 'from') - 1); }
  if (kind === 'DoubleSign' || kind === 'IncorrectData' || kind === 'BlockTooFarInFuture') {
    const a = 1 + X.choose(n - 1, 'culprit'); const h = X.choose(len + 1, 'height'); const before = h ? chain[h - 1].state : s.genesis; if (kind === 'DoubleSign' && (h === len || chain[h].a !== a)) return;
    const c = K.plain(X, 'block', { forkCnt: BigInt(w.f), transactionCnt: BigInt(h), participant: X.party(a), timestamp: kind === 'BlockTooFarInFuture' ? X.big('time') : 1n, previousStateHash: X.eth.keccak256(before), encodedData: '0x', data: '0x' }); const sb = K.signedBy(X, c, a);
    p = kind === 'DoubleSign' ? pm.createDoubleSignProof([sb]) : kind === 'IncorrectData' ? pm.createIncorrectDataProof(sb) : PM.createBlockTooFarInFutureProof(sb);
  }
  if (kind === 'FoldPriorBlock') p = PM.createFoldPriorBlockProof(X.choose(len + 1, 'height'));
  if (!p) { X.reach('no proof'); return; }
  X.check(Number(p.proofType) === T_[kind], 'the proof carries its kind'); X.obs('proof', p);
  const kept = PM.filterValidProofs(d, [p]); X.check(kept.length <= 1 && kept.every(x => x === p), 'filtering only drops proofs'); X.obs('kept', kept.length);
  const mine = am.getFinalizedAndLatestWithVotes(BigInt(w.f), X.party(me));
  const r = X.try(() => w.C.call(me, 'challengeDispute', [K.CH, BigInt(w.f), d.challengeCnt, [p], mine.virtualVotingBlocks, mine.encodedLatestFinalizedState, mine.encodedLatestCorrectState]));
  let useful = false; if (r.ok) { const e = w.dispute(); useful = e.slashedParticipants.length > d.slashedParticipants.length || !X.is(X.eq(e.timedoutParticipant, d.timedoutParticipant)); }
  X.reach(kind + (useful ? ' useful' : ' useless'));
  X.check(!useful || kept.length === 1 || (kind === 'FoldPriorBlock' && !timeout), 'a proof that changes the verdict is kept'); X.check(useful || kept.length === 0, 'a proof the contract rejects or that changes nothing is dropped');
}, { weight: n * (len + 1) });
// one proof may name several equivocators: it is useful as long as one of them is not slashed yet
const several = (n, len) => job(`one proof of two equivocations, ${n} participants, ${len} agreed`, async X => {
  const w = world(X, n, len); const s = w.manager(); const am = s.am, chain = s.chain; X.nowMs = NOW; clock(X); const PM = X.load('@/ProofManager').default; const pm = new PM(am); const me = 0;
  const bad = h => { const a = chain[h].a; return K.signedBy(X, K.plain(X, 'block', { forkCnt: BigInt(w.f), transactionCnt: BigInt(h), participant: X.party(a), timestamp: 1n, previousStateHash: X.hash('prev'), encodedData: '0x', data: '0x' }), a); };
  const hs = Array.from({ length: len }, (_, h) => h).filter(h => chain[h].a !== me); const two = hs.slice(0, 2); if (X.choose(2, 'order')) two.reverse(); const extra = X.choose(2, 'with a harmless block') ? [{ encodedBlock: K.enc(X, chain[0].b), signature: chain[0].sigs[0] }] : [];
  const p = pm.createDoubleSignProof([...extra, ...two.map(bad)]); X.obs('proof', p);
  const slash = X.choose(n, 'slashed'); const who = Array.from({ length: n }, (_, i) => i).find(i => i !== slash && i !== me); if (slash === me) return; w.raise(who, chain, s.genesis, X.choose(2, 'posted'), { proofs: [w.equivocation(slash)] }); const d = w.dispute();
  const kept = PM.filterValidProofs(d, [p]); X.obs('kept', kept.length); const mine = am.getFinalizedAndLatestWithVotes(BigInt(w.f), X.party(me));
  const r = X.try(() => w.C.call(me, 'challengeDispute', [K.CH, BigInt(w.f), d.challengeCnt, [p], mine.virtualVotingBlocks, mine.encodedLatestFinalizedState, mine.encodedLatestCorrectState])); let more = 0; if (r.ok) more = w.dispute().slashedParticipants.length - d.slashedParticipants.length;
  X.check(r.ok && more > 0 ? kept.length === 1 : kept.length === 0, 'a proof is kept exactly if it gets somebody slashed'); X.reach(more ? 'several equivocators' : 'refused with several');
  if (!w.S) return; X.check(more === [...new Set(two.map(h => chain[h].a))].filter(a => a !== slash).length, 'every equivocator who is named is slashed');
}, { weight: 6 });
module.exports = {
  id: 'T14', level: 'model_checking',
  bounds: { participants: '2..3', agreed_chain: '0..2 blocks (thorough: 3)', incorrect_block: 'next or last agreed height, any author, any time, any move and claimed state, linked to the agreed predecessor', dispute: 'raised by any participant on any prefix of the agreed chain, with or without timeout, with at most one slashed participant', proofs: 'every kind built from the records' },
  outside: ['blocks not linked to an agreed state: the contract cannot judge them', 'join proofs (S14)', 'proofs against participants who joined later', 'prior-block proofs against disputes without a timeout (nodes never use them)', 'inclusion delays between clock reading and transaction'],
  mustReach: ['accepted', 'first block', 'next block', 'block of the wrong author', 'not disputed', 'several equivocators', ...kinds.flatMap(k => [k + ' useful', k + ' useless'])],
  jobs: tier => {
    const jobs = []; const th = tier === 'thorough';
    for (const [n, len, f] of th ? [[2, 0, 0], [2, 1, 0], [2, 2, 1], [3, 2, 0], [3, 3, 1]] : [[2, 0, 0], [2, 1, 0], [2, 2, 1], [3, 2, 0]]) for (const way of ['message', 'posting']) jobs.push(incorrect(n, len, f, way));
    for (const k of kinds) for (const [n, len] of th ? [[2, 1], [2, 2], [3, 2], [3, 3]] : [[2, 2], [3, 2]]) for (const t of [0, 1]) if (n > 2 || t || true) jobs.push(filter(k, n, len, t));
    jobs.push(several(3, 3)); if (th) jobs.push(several(4, 4));
    return jobs;
  },
};
