'use strict';
const { T, B } = require('../sol/lib');
function job(n) {
  return { name: `future block n=${n}`, samples: 4, run(X) {
    X.setup().open(n, { fork: n > 2, number: T.int(0) }); X.W.now = X.time('now');
    X.E.assume(T.le(X.genesisTime, X.W.now));
    const b = X.symBlock('block', { timestamp: X.u('block.stamp'), trail: X.u('trail', 1000n) }), s = X.sig('sig'); const by = X.recovered(s, b.enc);
    const r = X.tx(X.P[0], 'createDispute', [X.ch, X.fork, X.genesis, X.genesis, [], T.ZERO, T.ZERO, [X.proof('BlockTooFarInFuture', 'BlockTooFarInFutureProof', { block1: { encodedBlock: b.enc, signature: s } })]]);
    const spec = T.and(T.eq(by, b.f.participant), X.isIn(by, X.parts), T.eq(b.f.channelId, X.ch), T.eq(b.f.forkCnt, X.fork), T.gt(b.f.timestamp, X.W.now), T.ne(by, X.P[0]));
    X.iff(T.bool(r.ok), spec, 'a future-block proof succeeds exactly against a participant that signed a future block');
    X.E.reach(r.ok ? 'accepted' : 'rejected');
    if (r.ok) { const d = X.dispute(); X.check(T.and(T.bool(d.slashedParticipants.length === 1), T.eq(d.slashedParticipants[0], by)), 'exactly the author is slashed'); }
  } };
}
function again() {
  return { name: 'in a challenge', weight: 3, samples: 3, run(X) {
    X.setup().open(4, { number: T.int(0) });
    X.must(X.tx(X.P[0], 'createDispute', [X.ch, X.fork, X.genesis, X.genesis, [], T.ZERO, T.ZERO, [X.equivocation(X.parts[2])]]));
    X.W.now = X.u('now', 1000059n, 1000000n);
    const b = X.symBlock('block', { timestamp: X.u('block.stamp') }), s = X.sig('sig'); const by = X.recovered(s, b.enc);
    const r = X.tx(X.P[1], 'challengeDispute', [X.ch, X.fork, T.ZERO, [X.proof('BlockTooFarInFuture', 'BlockTooFarInFutureProof', { block1: { encodedBlock: b.enc, signature: s } })], [], X.genesis, X.genesis]);
    const spec = T.and(T.eq(by, b.f.participant), X.isIn(by, [X.P[0], X.P[3]]), T.eq(b.f.channelId, X.ch), T.eq(b.f.forkCnt, X.fork), T.gt(b.f.timestamp, X.W.now));
    X.iff(T.bool(r.ok), spec, 'a participant already slashed is not slashed again');
    if (r.ok) { const d = X.dispute(); X.check(T.and(T.bool(d.slashedParticipants.length === 2), T.eq(d.slashedParticipants[1], by)), 'the author joins the slashed set'); X.E.reach('challenged'); }
  } };
}
module.exports = { id: 'S11', bounds: { participants: '2 to 4', words: 'all values of every block field; chain time below 2^40' }, outside: [], mustReach: ['accepted', 'rejected', 'challenged'], jobs: () => [job(2), job(3), again()] };
