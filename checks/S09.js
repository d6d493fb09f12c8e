'use strict';
const { T, B } = require('../sol/lib');
function rechallenge(X, k) {
  const b = X.symBlock('block', { trail: X.u('trail', 1000n) }), sigs = []; for (let i = 0; i < k; i++) sigs.push(X.sig('sig' + i));
  const recs = sigs.map(s => X.recovered(s, b.enc));
  return { b, sigs, all: T.and(...X.parts.map(p => T.or(...recs.map(x => T.eq(x, p))))), proof: X.proof('FoldRechallenge', 'FoldRechallengeProof', { encodedBlock: b.enc, signatures: sigs }) };
}
function job(n, L, k) {
  return { name: `rechallenge n=${n} chain=${L} sigs=${k}`, weight: n + k, samples: 3, run(X) {
    X.setup({ times: [T.ONE, T.ONE, T.ONE, T.int(10)] }).open(n, { fork: n > 2, number: L ? T.int(0) : T.int(1) });
    const hs = Array.from({ length: L }, (_, i) => X.u('height' + i));
    const c = X.chain(L, { heights: hs, times: hs.map(() => T.int(5)), latest: L ? X.hstate({ number: T.int(1), participants: X.parts, balances: X.parts.map(() => T.ONE) }) : undefined });
    X.W.now = T.int(2000000);
    const folded = L ? T.add(hs[L - 1], T.ONE) : T.ZERO;
    const r0 = X.tx(X.P[0], 'createDispute', [X.ch, X.fork, X.genesis, c.latest, c.confirmed, X.parts[1], folded, []]);
    if (!r0.ok) X.E.abort('set-up dispute rejected');
    const p = rechallenge(X, k); const who = X.parts[X.E.choose(n, 'challenger')];
    const r = X.tx(who, 'challengeDispute', [X.ch, X.fork, T.ZERO, [p.proof], c.confirmed, X.genesis, c.latest]);
    const spec = T.and(T.eq(p.b.f.channelId, X.ch), T.eq(p.b.f.forkCnt, X.fork), T.eq(p.b.f.transactionCnt, folded), p.all, T.ne(who, X.P[0]));
    X.iff(T.bool(r.ok), spec, 'a rechallenge succeeds exactly with a fully signed block at the timed-out height');
    X.E.reach(r.ok ? 'accepted' : 'rejected');
    if (!r.ok) return;
    const d = X.dispute();
    X.check(T.eq(d.timedoutParticipant, T.ZERO), 'the timeout is cancelled');
    X.check(T.and(T.bool(d.slashedParticipants.length === 1), T.eq(d.slashedParticipants[0], X.P[0])), 'exactly the party that raised the timeout is slashed');
  } };
}
function noTimeout(challenge) {
  return { name: `rechallenge without a timeout${challenge ? ' in a challenge' : ''}`, weight: 3, samples: 2, run(X) {
    X.setup().open(3, { number: T.int(0) });
    const p = rechallenge(X, 3);
    // a second, always successful proof in the same bundle
    const withOther = X.E.choose(2, 'other');
    let r;
    if (challenge) {
      X.must(X.tx(X.P[0], 'createDispute', [X.ch, X.fork, X.genesis, X.genesis, [], T.ZERO, T.ZERO, [X.equivocation(X.parts[2])]]));
      r = X.tx(X.P[1], 'challengeDispute', [X.ch, X.fork, T.ZERO, [p.proof], [], X.genesis, X.genesis]);
    } else r = X.tx(X.P[0], 'createDispute', [X.ch, X.fork, X.genesis, X.genesis, [], T.ZERO, T.ZERO, withOther ? [X.equivocation(X.parts[2]), p.proof] : [p.proof]]);
    X.check(T.bool(!r.ok), 'there is nothing to rechallenge without a timeout'); X.E.reach('nothing pending');
  } };
}
// a timeout of an earlier, finished dispute is not pending any more
function stale() {
  return { name: 'rechallenge of an old timeout', weight: 4, samples: 2, run(X) {
    X.setup({ times: [T.ONE, T.ONE, T.ONE, T.int(10)] }).open(4, { number: T.int(1) });
    X.W.now = T.int(2000000);
    X.must(X.tx(X.P[0], 'createDispute', [X.ch, X.fork, X.genesis, X.genesis, [], X.parts[1], T.ZERO, []]));
    X.W.now = T.int(3000000);
    const g1 = X.must(X.tx(X.P[5], 'getLatestState', [X.ch])).ret[0];
    const b = X.symBlock('block'); const left = [X.parts[0], X.parts[2], X.parts[3]];
    const sigs = left.map((p, i) => X.signBy(p, b.enc, 's' + i));
    const proof = X.proof('FoldRechallenge', 'FoldRechallengeProof', { encodedBlock: b.enc, signatures: sigs });
    const r0 = X.tx(X.P[2], 'createDispute', [X.ch, T.ONE, g1, g1, [], T.ZERO, T.ZERO, [X.equivocation(X.parts[3], T.ONE), proof]]);
    X.check(T.bool(!r0.ok), 'an old timeout cannot be rechallenged in a new dispute'); X.E.reach('old timeout');
  } };
}
// the poster changes before the rechallenge: it is still the party that raised the timeout that pays
function other() {
  return { name: 'rechallenge after another challenge', weight: 5, samples: 3, run(X) {
    X.setup({ times: [T.ONE, T.ONE, T.ONE, T.int(10)] }).open(4, { fork: true, number: T.int(1) }); X.W.now = T.int(2000000);
    X.must(X.tx(X.P[0], 'createDispute', [X.ch, X.fork, X.genesis, X.genesis, [], X.parts[1], T.ZERO, []]));
    X.must(X.tx(X.P[2], 'challengeDispute', [X.ch, X.fork, T.ZERO, [X.equivocation(X.parts[3])], [], X.genesis, X.genesis]));
    const p = rechallenge(X, 4); const who = X.parts[1 + X.E.choose(2, 'challenger')]; const r = X.tx(who, 'challengeDispute', [X.ch, X.fork, T.ONE, [p.proof], [], X.genesis, X.genesis]);
    X.iff(T.bool(r.ok), T.and(T.eq(p.b.f.channelId, X.ch), T.eq(p.b.f.forkCnt, X.fork), T.eq(p.b.f.transactionCnt, T.ZERO), p.all), 'a rechallenge succeeds exactly with a fully signed block at the timed-out height');
    if (!r.ok) return; const d = X.dispute();
    X.check(T.and(T.eq(d.timedoutParticipant, T.ZERO), T.bool(d.slashedParticipants.length === 2), X.isIn(X.P[0], d.slashedParticipants), X.isIn(X.P[3], d.slashedParticipants)), 'exactly the party that raised the timeout is slashed'); X.E.reach('after a challenge');
  } };
}
// the party that raised the timeout is already slashed: the timeout is still undone
function slashed() {
  return { name: 'rechallenge of a slashed party\'s timeout', weight: 5, samples: 3, run(X) {
    X.setup({ times: [T.ONE, T.ONE, T.ONE, T.int(10)] }).open(4, { fork: true, number: T.int(1) }); X.W.now = T.int(2000000);
    X.must(X.tx(X.P[0], 'createDispute', [X.ch, X.fork, X.genesis, X.genesis, [], X.parts[1], T.ZERO, []]));
    X.must(X.tx(X.P[2], 'challengeDispute', [X.ch, X.fork, T.ZERO, [X.equivocation(X.parts[0])], [], X.genesis, X.genesis])); const pending = X.dispute().timedoutParticipant;
    const p = rechallenge(X, 4); const who = X.parts[1 + X.E.choose(3, 'challenger')]; const r = X.tx(who, 'challengeDispute', [X.ch, X.fork, T.ONE, [p.proof], [], X.genesis, X.genesis]);
    X.iff(T.bool(r.ok), T.and(T.ne(pending, T.ZERO), T.eq(p.b.f.channelId, X.ch), T.eq(p.b.f.forkCnt, X.fork), T.eq(p.b.f.transactionCnt, T.ZERO), p.all), 'a rechallenge succeeds exactly with a fully signed block at the timed-out height');
    if (!r.ok) return; const d = X.dispute();
    X.check(T.and(T.eq(d.timedoutParticipant, T.ZERO), T.bool(d.slashedParticipants.length === 1), T.eq(d.slashedParticipants[0], X.P[0])), 'the timeout is cancelled and nobody else is slashed'); X.E.reach('disputer slashed before');
  } };
}
module.exports = {
  id: 'S09', bounds: { participants: '2 and 3', signatures: 'up to 3', words: 'all values of every block field' }, outside: ['more signatures than 4'],
  mustReach: ['accepted', 'rejected', 'nothing pending', 'old timeout', 'after a challenge', 'disputer slashed before'],
  jobs: tier => [job(2, 0, 1), job(2, 0, 2), job(2, 1, 2), job(2, 1, 3), job(3, 1, 3), noTimeout(false), noTimeout(true), stale(), other(), slashed(), ...(tier === 'thorough' ? [job(3, 0, 4), job(4, 1, 4)] : [])],
};
