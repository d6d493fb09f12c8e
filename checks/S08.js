'use strict';
const { T, B } = require('../sol/lib');
function nsp(X, label) { const b = X.symBlock(label, { trail: X.u(label + '.trail', 1000n) }), s = X.sig(label + '.sig'); return { b, s, by: X.recovered(s, b.enc), proof: X.proof('NewerState', 'NewerStateProof', { encodedBlock: b.enc, confirmationSignature: s }) }; }
function job(n, L) {
  return { name: `newer state n=${n} posted chain=${L}`, weight: 3, samples: 4, run(X) {
    X.setup().open(n, { fork: n > 2, number: T.int(0) });
    const hs = Array.from({ length: L }, (_, i) => X.u('height' + i));
    const c = X.chain(L, { heights: hs, latest: X.genesis });
    X.must(X.tx(X.P[0], 'createDispute', [X.ch, X.fork, X.genesis, c.latest, c.confirmed, T.ZERO, T.ZERO, [X.equivocation(X.parts[n - 1])]]));
    const p = nsp(X, 'newer'); const who = X.parts[X.E.choose(2, 'challenger')];
    const r = X.tx(who, 'challengeDispute', [X.ch, X.fork, T.ZERO, [p.proof], c.confirmed, X.genesis, c.latest]);
    const spec = T.and(T.eq(p.b.f.channelId, X.ch), T.eq(p.b.f.forkCnt, X.fork), T.eq(p.by, X.P[0]), L ? T.gt(p.b.f.transactionCnt, hs[L - 1]) : T.TRUE, T.ne(who, X.P[0]));
    X.iff(T.bool(r.ok), spec, 'a newer-state proof succeeds exactly when the poster signed a newer block');
    X.E.reach(r.ok ? 'accepted' : 'rejected');
    if (!r.ok) return;
    const d = X.dispute(); X.check(T.and(T.bool(d.slashedParticipants.length === 2), X.isIn(X.P[0], d.slashedParticipants), X.isIn(X.parts[n - 1], d.slashedParticipants)), 'exactly the poster is slashed');
  } };
}
// after a challenge the challenger is the poster, with the challenge's chain
function after(n) {
  return { name: 'poster changes with a challenge', weight: 5, samples: 3, run(X) {
    X.setup().open(n, { fork: n > 2, number: T.int(0) });
    const h = X.u('height'), h2 = X.u('height2');
    const c0 = X.chain(1, { heights: [h], latest: X.genesis }), c1 = X.chain(1, { heights: [h2], latest: X.genesis }); X.E.assume(T.ge(h2, h));
    X.must(X.tx(X.P[0], 'createDispute', [X.ch, X.fork, X.genesis, c0.latest, c0.confirmed, T.ZERO, T.ZERO, [X.equivocation(X.parts[n - 1])]]));
    X.must(X.tx(X.P[1], 'challengeDispute', [X.ch, X.fork, T.ZERO, [X.equivocation(X.parts[n - 2], X.fork, T.int(8888))], c1.confirmed, X.genesis, c1.latest]));
    const p = nsp(X, 'newer');
    const r = X.tx(X.P[0], 'challengeDispute', [X.ch, X.fork, T.ONE, [p.proof], c1.confirmed, X.genesis, c1.latest]);
    const spec = T.and(T.eq(p.b.f.channelId, X.ch), T.eq(p.b.f.forkCnt, X.fork), T.eq(p.by, X.P[1]), T.gt(p.b.f.transactionCnt, h2));
    X.iff(T.bool(r.ok), spec, 'a newer-state proof concerns the latest poster and chain');
    if (r.ok) { const d = X.dispute(); X.check(T.and(T.bool(d.slashedParticipants.length === 3), X.isIn(X.P[1], d.slashedParticipants), T.not(X.isIn(X.P[0], d.slashedParticipants))), 'exactly the latest poster is slashed'); X.E.reach('second poster'); }
  } };
}
module.exports = {
  id: 'S08', bounds: { participants: '3 and 4', chain: 'up to 2 posted blocks', words: 'all values of every block field' }, outside: ['longer posted chains'],
  mustReach: ['accepted', 'rejected', 'second poster'], jobs: () => [job(3, 0), job(3, 1), job(3, 2), job(4, 1), after(4)],
};
