'use strict';
// Whatever proofs are bundled, a participant that followed the rules is not slashed.
const { T, B } = require('../sol/lib');
const abi = require('../engine/abi');
const KINDS = ['FoldRechallenge', 'DoubleSign', 'IncorrectData', 'NewerState', 'FoldPriorBlock', 'BlockTooFarInFuture', 'JoinChannel'];
// H = P1 follows the rules: it authored the first block, confirmed the second (by P2) and authored the third
function honest(X, p2p) {
  const H = X.P[1]; const bal = X.parts.map((_, j) => T.int(10 + j)); const st = n => X.hstate({ number: T.int(n), participants: X.parts, balances: bal });
  const S0 = X.genesis, S1 = st(2), S2 = st(4), S3 = st(7);
  const t0 = X.time('t0'), t1 = X.time('t1'), t2 = X.time('t2'); const within = (t, prev) => T.and(T.ge(t, prev), T.le(t, T.add(prev, p2p)));
  X.E.assume(T.and(within(t0, X.genesisTime), within(t1, t0), within(t2, t1), T.le(t2, X.W.now)));
  const b0 = X.encBlock({ participant: H, transactionCnt: T.int(0), timestamp: t0, stateHash: X.hash(S1), previousStateHash: X.hash(S0), data: X.play(T.int(1)) });
  const b1 = X.encBlock({ participant: X.P[2], transactionCnt: T.int(1), timestamp: t1, stateHash: X.hash(S2), previousStateHash: X.hash(S1), data: X.play(T.int(2)) });
  const b2 = X.encBlock({ participant: H, transactionCnt: T.int(2), timestamp: t2, stateHash: X.hash(S3), previousStateHash: X.hash(S2), data: X.play(T.int(3)) });
  const signedDigests = [b0, b1, b2].map(b => X.digest(b));
  // unforgeability: a signature recovering to H is over something H signed
  X.E.recHooks.push((d, s, signer, msg) => X.E.axiom(T.implies(T.eq(signer, H), T.or(...signedDigests.map(g => T.eq(msg, g))))));
  return { H, S: [S0, S1, S2, S3], b: [b0, b1, b2], t: [t0, t1, t2], joinedBefore: null };
}
// an arbitrary block or one that H signed
function anyBlock(X, l, hn, data) {
  const k = X.E.choose(4, l + '.which'); if (k < 3) return { enc: hn.b[k], height: T.int(k), which: k, time: hn.t[k] };
  const b = X.symBlock(l, { channelId: X.ch, forkCnt: X.fork, ...(data ? { data } : {}) }); return { enc: b.enc, height: b.f.transactionCnt, which: 3, f: b.f, time: b.f.timestamp };
}
function proof(X, kind, l, hn) {
  const sig = s => X.sig(l + s);
  if (kind === 'FoldRechallenge') { const b = anyBlock(X, l, hn); return X.proof(kind, 'FoldRechallengeProof', { encodedBlock: b.enc, signatures: X.parts.map((p, i) => p === hn.H ? sig('.s' + i) : X.signBy(p, b.enc, l + '.g' + i)) }); }
  if (kind === 'DoubleSign') { const a = anyBlock(X, l + '.a', hn), b = anyBlock(X, l + '.b', hn); return X.proof(kind, 'DoubleSignProof', { doubleSigns: [{ block1: { encodedBlock: a.enc, signature: sig('.sa') }, block2: { encodedBlock: b.enc, signature: sig('.sb') } }] }); }
  if (kind === 'IncorrectData') {
    const b = anyBlock(X, l + '.b', hn, X.play(X.u(l + '.k'))), a = anyBlock(X, l + '.a', hn); const st = hn.S[X.E.choose(3, l + '.state')];
    // listed: a predecessor substituted for the block H really built on
    hn.substituted = T.or(hn.substituted || T.FALSE, ...[1, 2].map(k => T.and(B.eq(b.enc, hn.b[k]), T.ne(a.time, hn.t[k - 1]))));
    return X.proof(kind, 'IncorrectDataProof', { block1: { encodedBlock: a.enc, signature: sig('.sa') }, block2: { encodedBlock: b.enc, signature: sig('.sb') }, encodedState: st });
  }
  if (kind === 'NewerState') { const b = anyBlock(X, l, hn); return X.proof(kind, 'NewerStateProof', { encodedBlock: b.enc, confirmationSignature: sig('.s') }); }
  if (kind === 'FoldPriorBlock') return X.proof(kind, 'FoldPriorBlockProof', { transactionCnt: X.u(l + '.target') });
  if (kind === 'BlockTooFarInFuture') { const b = anyBlock(X, l, hn); return X.proof(kind, 'BlockTooFarInFutureProof', { block1: { encodedBlock: b.enc, signature: sig('.s') } }); }
  const j = X.sjc({ request: { channelId: X.ch, participant: X.addr(l + '.newcomer'), amount: T.ONE, deadlineTimestamp: X.u(l + '.deadline') } }, l + '.join');
  return X.proof(kind, 'JoinChannelProof', { encodedSignedJoinChannel: j.enc, signatures: X.parts.map((p, i) => p === hn.H ? sig('.s' + i) : X.signBy(p, j.enc, l + '.g' + i)) });
}
function job(kinds, mode) {
  return { name: `${mode}: ${kinds.join(' + ') || 'nothing'}`, weight: 2 * kinds.length + kinds.filter(k => k === 'IncorrectData' || k === 'DoubleSign').length * 5, samples: 1, run(X) {
    const p2p = X.time('p2p'); X.setup({ times: [p2p, T.int(5), T.int(30), T.int(100)] }).open(3, { number: T.int(1), now: T.int(1000000) }); X.W.now = X.u('now', 1n << 41n, 1000000n);
    const hn = honest(X, p2p); const H = hn.H;
    let r;
    if (mode === 'create') r = X.tx(X.P[0], 'createDispute', [X.ch, X.fork, X.genesis, X.genesis, [], T.ZERO, T.ZERO, kinds.map((k, i) => proof(X, k, 'p' + i, hn))]);
    else {
      // a pending timeout raised by P0 against H, challenged by P2 with an arbitrary bundle
      const c = [[hn.b[0], [X.signBy(H, hn.b[0], 'c0')]], [hn.b[1], [X.signBy(X.P[2], hn.b[1], 'c1')]]];
      const r0 = X.tx(X.P[0], 'createDispute', [X.ch, X.fork, X.genesis, hn.S[2], c, mode === 'timeout' ? H : T.ZERO, T.int(2), mode === 'timeout' ? [] : [X.equivocation(X.P[0] === X.P[2] ? X.P[0] : X.P[2], X.fork, T.int(4444))]]);
      if (!r0.ok) X.E.abort('set-up rejected');
      X.check(T.not(X.isIn(H, X.dispute().slashedParticipants)), 'an honest participant is not slashed');
      r = X.tx(mode === 'timeout' ? X.P[2] : X.P[0], 'challengeDispute', [X.ch, X.fork, T.ZERO, kinds.map((k, i) => proof(X, k, 'p' + i, hn)), c, X.genesis, hn.S[2]]);
    }
    if (!r.ok) { X.E.reach('refused'); return; }
    const d = X.dispute(); const caller = mode === 'timeout' ? X.P[2] : X.P[0]; X.E.reach('completed');
    X.check(T.not(X.isIn(H, d.slashedParticipants)), 'an honest participant is not slashed', { known: hn.substituted ? X.known('S13-substituted-predecessor', hn.substituted) : [] });
    X.check(T.not(X.isIn(caller, d.slashedParticipants)), 'a caller that slashes itself cannot complete the call');
    if (d.slashedParticipants.length) X.E.reach('somebody slashed');
  } };
}
module.exports = {
  id: 'S13', bounds: { participants: '3, one of them honest with three signed blocks', proofs: 'every kind alone; every ordered pair of kinds (quick: pairs with the cheaper kinds)', words: 'all values of the blocks not signed by the honest participant' },
  outside: ['larger bundles', 'honest histories longer than three blocks'], assumptions: ['Bundles quote blocks of this channel and fork; other channels and forks are covered by the checks of the single proofs.'],
  mustReach: ['refused', 'completed', 'somebody slashed'],
  jobs(tier) {
    const js = []; for (const m of ['create', 'timeout', 'challenge']) for (const k of KINDS) js.push(job([k], m));
    const cheap = ['FoldRechallenge', 'NewerState', 'FoldPriorBlock', 'BlockTooFarInFuture'];
    for (const a of KINDS) for (const b of KINDS) if (tier === 'thorough' || (cheap.includes(a) && cheap.includes(b)) || (a === 'DoubleSign' && cheap.includes(b)) || (b === 'JoinChannel' && a === 'FoldPriorBlock')) js.push(job([a, b], 'timeout'));
    return js;
  },
};
