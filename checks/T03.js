'use strict';
const K = require('../ts/blocks'); const { world, START } = require('../ts/channel');
const job = (name, run, o) => ({ kind: 'ts', sol: true, name, run, samples: 3, ...o });
module.exports = {
  id: 'T03', level: 'model_checking',
  bounds: { participants: '2..3', agreed_chain: '1..2 blocks (thorough: 3), fork 0 or 1', conflicting_block: 'any height of the agreed chain, any author, every further field and the signature arbitrary', arrival: 'as a message of a peer or as an on-chain posting' },
  outside: ['several conflicting blocks at once', 'conflicts signed by the node itself (T09 excludes them)', 'blocks not encoded canonically'],
  mustReach: ['equivocation', 'no equivocation', 'accepted'],
  jobs: tier => {
    const jobs = []; const cases = [[2, 1, 0], [2, 2, 1], [3, 2, 0]]; if (tier === 'thorough') cases.push([3, 3, 0], [3, 3, 1], [4, 2, 0]);
    for (const [n, len, fork] of cases) for (const way of ['message', 'posting', 'records']) jobs.push(job(`${way}, ${n} participants, ${len} agreed, fork ${fork}`, async X => {
      const w = world(X, n, len, { fork }); const me = X.choose(2, 'me'); const N = w.peer(me); const h = X.choose(len, 'height'); X.nowMs = (START + 1000) * 1000;
      const a = X.choose(n, 'author'); const c = K.plain(X, 'conflict', { forkCnt: BigInt(fork), transactionCnt: BigInt(h), participant: X.party(a), timestamp: X.big('time') });
      const sb = K.signedAny(X, c, 'sig'); const ag = N.chain[h];
      const equivocation = X.and(K.genuine(X, c, sb.signature), X.not(K.sameBlock(X, c, ag.b)), ag.a === a); const eq = X.is(equivocation); X.reach(eq ? 'equivocation' : 'no equivocation'); X.assume(a !== me || !eq);
      if (!eq && way !== 'records') return;
      if (way === 'records') {
        if (X.choose(2, 'confirmed')) for (let p = 0; p < n; p++) if (p !== ag.a) N.am.confirmBlock(ag.b, X.signBytes(p, K.enc(X, ag.b)));
        const other = N.am.getDoubleSignedBlock(sb); X.check(!!other === X.is(X.and(X.not(K.sameBlock(X, c, ag.b)), ag.a === a)), 'the agreed block counts as the other half of an equivocation exactly if it is a different one of the same author');
        if (other) X.check(X.and(X.eq(other.encodedBlock, K.enc(X, ag.b)), X.eq(other.signature, ag.sigs[0])), 'the other half carries the signature of the author');
        X.check(N.am.getDoubleSignedBlock({ encodedBlock: K.enc(X, ag.b), signature: ag.sigs[0] }) === undefined, 'the agreed block itself is no equivocation');
        const next = K.plain(X, 'next', { forkCnt: BigInt(fork), transactionCnt: BigInt(len), participant: X.party(a) }); X.check(N.am.getDoubleSignedBlock(K.signedBy(X, next, a)) === undefined, 'a block at a height that is not agreed is no equivocation');
        const flag = N.am.checkBlock(sb); const F = X.load('@/types').AgreementFlag; X.check((flag === F.DOUBLE_SIGN) === eq, 'an equivocation is recognised'); if (!eq) return;
        await X.tryAsync(() => N.sm.disputeHandler.disputeDoubleSign([sb]));
      } else if (way === 'message') { await X.tryAsync(() => N.sm.onSignedBlock(sb)); await X.pump(3); } else { X.try(() => N.sm.collectOnChainBlock(sb, START + 900)); await X.pump(3); }
      const subs = w.C.of(me, 'createDispute'); X.obs('submitted', subs.map(s => s.args)); X.check(subs.length >= 1, 'the evidence is submitted');
      X.check(X.unhandled.length === 0, 'nothing fails in the background');
      if (!w.S) return;
      X.check(subs[0].ok, 'the contract accepts the evidence'); const d = w.dispute(); X.check(d.slashedParticipants.length === 1 && X.is(X.eq(d.slashedParticipants[0], X.party(a))), 'exactly the equivocating participant is slashed'); X.reach('accepted');
    }, { weight: n * (len + 1) }));
    return jobs;
  },
};
