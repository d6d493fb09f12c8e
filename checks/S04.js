'use strict';
const { T, B } = require('../sol/lib');
function common(X) { return [X.ch, T.ZERO]; }
function first(n) {
  return { name: `first create n=${n}`, samples: 3, run(X) {
    const t0 = X.time('opened'); X.setup({ times: [X.time('p2p'), X.time('agreement'), X.time('fallback'), X.time('challenge')] }).open(n, { fork: n > 2, now: t0, number: T.int(0) });
    X.W.now = X.time('now'); X.E.assume(T.le(t0, X.W.now));
    const who = X.addr('caller'), fork = X.u('fork'); const before = X.snapshot();
    const withProof = X.E.choose(2, 'proof'); const proofs = withProof ? [X.equivocation(X.parts[n - 1])] : [];
    const r = X.tx(who, 'createDispute', [X.ch, fork, X.genesis, X.genesis, [], T.ZERO, T.ZERO, proofs]);
    const spec = T.and(X.isIn(who, X.parts), T.eq(fork, X.fork), T.bool(withProof), T.ne(who, X.parts[n - 1]));
    X.iff(T.bool(r.ok), spec, 'a first dispute is created exactly by an eligible participant on the current fork with a successful proof');
    accepted(X, r, before, who, X.fork, n);
  } };
}
function accepted(X, r, before, who, fork, n, challengeCnt = 0) {
  if (!r.ok) { X.check(X.sameSnap(before, X.snapshot()), 'a rejected call changes nothing'); X.E.reach('rejected'); return; }
  X.E.reach('accepted');
  const d = X.dispute();
  const fk = X.must(X.tx(X.P[5], 'getForkCnt', [X.ch])).ret[0]; X.check(T.eq(fk, T.add(fork, T.ONE)), 'the fork advances by one');
  const gt = X.must(X.tx(X.P[5], 'getGenesisTimestamp', [X.ch, T.add(fork, T.ONE)])).ret[0]; X.check(T.eq(gt, X.W.now), 'the new fork starts now');
  const st = X.must(X.tx(X.P[5], 'stateAt', [X.ch, T.add(fork, T.ONE)])).ret[0]; X.check(B.eq(st, d.encodedLatestCorrectState), 'the new fork has the disputed state');
  X.check(T.and(T.eq(d.deadlineTimestamp, T.add(X.W.now, X.times[3])), T.eq(d.postedStateDisputer, who), T.eq(d.channelId, X.ch), T.eq(d.challengeCnt, T.int(challengeCnt))), 'window, poster and counters are recorded');
  if (challengeCnt === 0) X.check(T.and(T.eq(d.creationTimestamp, X.W.now), T.eq(d.forkCnt, fork), T.bool(d.participants.length === n), ...d.participants.map((p, i) => T.eq(p, X.curParts ? X.curParts[i] : X.parts[i]))), 'creation time, fork and participants are recorded');
}
function second() {
  return { name: 'create after an earlier dispute', weight: 3, samples: 3, run(X) {
    X.setup({ times: [T.int(15), T.int(5), T.int(30), X.time('challenge')] }).open(4, { number: T.int(0) });
    X.must(X.tx(X.P[0], 'createDispute', [X.ch, X.fork, X.genesis, X.genesis, [], T.ZERO, T.ZERO, [X.equivocation(X.parts[3])]]));
    const t1 = X.W.now; X.W.now = X.time('now'); X.E.assume(T.le(t1, X.W.now));
    const g1 = X.must(X.tx(X.P[5], 'getLatestState', [X.ch])).ret[0];
    X.curParts = X.parts.slice(0, 3);
    const who = X.addr('caller'), fork = X.u('fork'); const before = X.snapshot();
    const r = X.tx(who, 'createDispute', [X.ch, fork, g1, g1, [], T.ZERO, T.ZERO, [X.equivocation(X.parts[2], T.ONE)]]);
    const spec = T.and(X.isIn(who, X.curParts), T.ne(who, X.parts[2]), T.eq(fork, T.ONE), T.lt(T.add(t1, X.times[3]), X.W.now));
    X.iff(T.bool(r.ok), spec, 'a further dispute is created exactly on the current fork after the previous one ended');
    accepted(X, r, before, who, T.ONE, 3);
    if (r.ok) X.E.reach('second dispute');
  } };
}
function challenge(L0, L1) {
  return { name: `challenge chain ${L0}->${L1}`, weight: 5, samples: 3, run(X) {
    X.setup({ times: [T.int(15), T.int(5), T.int(30), X.time('challenge')] }).open(4, { fork: L0 !== L1, number: T.int(0) });
    const h0 = X.u('height0'), h1 = X.u('height1'), hs = (l, h) => [h, X.u('height' + l)].slice(0, l), ts = l => [T.int(5), T.int(5)].slice(0, l);
    const c0 = X.chain(L0, { heights: hs(L0, h0), latest: X.genesis, times: ts(L0) });
    X.must(X.tx(X.P[0], 'createDispute', [X.ch, X.fork, X.genesis, c0.latest, c0.confirmed, T.ZERO, T.ZERO, [X.equivocation(X.parts[3])]]));
    const t1 = X.W.now; X.W.now = X.time('now'); X.E.assume(T.le(t1, X.W.now));
    const c1 = X.chain(L1, { heights: hs(L1, h1), latest: X.genesis, times: ts(L1) });
    const who = X.addr('caller'), fork = X.u('fork'), cnt = X.u('challengeCnt'); const before = X.snapshot();
    const ok = X.E.choose(2, 'proof');
    const r = X.tx(who, 'challengeDispute', [X.ch, fork, cnt, ok ? [X.equivocation(X.parts[2], X.fork, T.int(8888))] : [], c1.confirmed, X.genesis, c1.latest]);
    const newer = L0 === 0 ? T.TRUE : L1 === 0 ? T.FALSE : T.ge(h1, h0);
    const spec = T.and(T.bool(ok), X.isIn(who, X.parts.slice(0, 2)), T.eq(fork, X.fork), T.eq(cnt, T.ZERO), T.lt(X.W.now, T.add(t1, X.times[3])), newer);
    X.iff(T.bool(r.ok), spec, 'a challenge is accepted exactly from an unslashed participant naming the current challenge in time with a successful proof');
    accepted(X, r, before, who, T.add(X.fork, T.ONE), 4, 1);
    if (r.ok) X.E.reach('challenge accepted');
  } };
}
function nodispute() {
  return { name: 'challenge without dispute / other channel', samples: 2, run(X) {
    X.setup().open(3, { number: T.int(0) });
    const other = T.int(0xc2); X.must(X.tx(X.P[5], 'openChannel', [other, [X.genesis], []]));
    const snap2 = X.snapshot(other);
    const who = X.addr('caller');
    const r = X.tx(who, 'challengeDispute', [X.ch, X.u('fork'), X.u('cnt'), [X.equivocation(X.parts[2])], [], X.genesis, X.genesis]);
    X.check(T.bool(!r.ok), 'there is nothing to challenge without a dispute');
    const r2 = X.tx(X.P[0], 'createDispute', [X.ch, X.fork, X.genesis, X.genesis, [], T.ZERO, T.ZERO, [X.equivocation(X.parts[2])]]);
    X.check(T.bool(r2.ok), 'a justified dispute is accepted'); X.check(X.sameSnap(snap2, X.snapshot(other)), 'other channels are not affected');
  } };
}
module.exports = {
  id: 'S04', bounds: { participants: '2 to 4', calls: 'create; create,create; create,challenge', chain: 'up to 2 blocks', words: 'all callers, fork and challenge numbers, heights; times below 2^40' },
  outside: ['longer sequences of disputes'], mustReach: ['accepted', 'rejected', 'second dispute', 'challenge accepted'],
  jobs: tier => [first(2), first(3), second(), challenge(0, 0), challenge(0, 1), challenge(1, 0), challenge(1, 1), challenge(1, 2), challenge(2, 1), challenge(2, 2), nodispute()],
};
