'use strict';
const { T, B } = require('../sol/lib');
function job(n, L, o = {}) {
  return { name: `prior block n=${n} chain=${L}${o.early ? ' early post' : ''}${o.late ? ' late post' : ''}${o.authors ? ' authors ' + o.authors : ''}`, weight: L + (o.early ? 3 : 0) + (o.late ? 3 : 0), samples: 3, run(X) {
    X.setup({ times: [T.ONE, T.ONE, T.ONE, T.int(1000)] }).open(n, { fork: n > 2, number: T.int(0) });
    const h0 = X.u('height0', 1n << 200n); const hs = Array.from({ length: L }, (_, i) => T.add(h0, T.int(i)));
    const authors = (o.authors || Array.from({ length: L }, (_, i) => i % n)).map(i => X.parts[i]);
    const c = X.chain(L, { heights: hs, authors, times: hs.map(() => T.int(5)), latest: X.hstate({ number: T.int(1), participants: X.parts, balances: X.parts.map(() => T.ONE) }) });
    const posts = [];
    const post = (i, t) => {
      X.W.now = t; const by = X.E.choose(2, 'poster' + i) ? X.parts[n - 1] : authors[0];
      const f = { participant: by, forkCnt: X.fork, transactionCnt: X.u('post.height' + i), timestamp: t }; const e = X.encBlock(f);
      X.must(X.tx(by, 'postBlockCalldata', [[e, X.signBy(by, e, 'post' + i)]])); posts.push({ ...f, time: t });
    };
    if (o.early) post(0, T.int(1500000));
    X.W.now = T.int(2000000); const created = X.W.now;
    const folded = T.add(hs[L - 1], T.ONE);
    if (!X.tx(X.P[0], 'createDispute', [X.ch, X.fork, X.genesis, c.latest, c.confirmed, X.parts[1], folded, []]).ok) X.E.abort('set-up dispute rejected');
    if (o.late) { const t = X.u('late', 2000500n, 2000000n); post(1, t); }
    const before = X.W.now; X.W.now = X.u('now', 2000900n, 2000000n); X.E.assume(T.le(before, X.W.now));
    const target = X.u('target'); const who = X.parts[X.E.choose(2, 'challenger') * (n - 1)];
    const r = X.tx(who, 'challengeDispute', [X.ch, X.fork, T.ZERO, [X.proof('FoldPriorBlock', 'FoldPriorBlockProof', { transactionCnt: target })], c.confirmed, X.genesis, c.latest]);
    const cases = hs.map((h, i) => {
      // a later posting for the same slot replaces the time of an earlier one
      let time = T.ZERO; for (const p of posts) time = T.ite(T.and(T.eq(p.transactionCnt, h), T.eq(p.participant, authors[i])), p.time, time);
      return { is: T.eq(target, h), free: T.or(T.eq(time, T.ZERO), T.gt(time, created)), author: authors[i] };
    });
    X.iff(T.bool(r.ok), T.or(...cases.map(k => T.and(k.is, k.free))), 'a prior-block timeout is accepted exactly for a posted-chain block that was not on chain before the dispute');
    X.E.reach(r.ok ? 'accepted' : 'rejected');
    if (!r.ok) return;
    const d = X.dispute();
    X.check(T.and(...cases.map(k => T.implies(k.is, T.eq(d.timedoutParticipant, k.author)))), 'the author of the named block is timed out');
    X.check(T.bool(d.slashedParticipants.length === 0), 'nobody is slashed');
  } };
}
module.exports = {
  id: 'S10', bounds: { participants: '2 and 3', chain: 'up to 3 blocks of consecutive symbolic heights', posts: 'one before and one after the dispute', words: 'all named heights' },
  outside: ['posted chains whose heights are not consecutive'], mustReach: ['accepted', 'rejected'],
  jobs: () => [job(2, 1), job(3, 2), job(3, 3), job(2, 2, { early: true }), job(3, 2, { late: true }), job(3, 2, { early: true, late: true }), job(3, 3, { authors: [2, 0, 1] }), job(3, 3, { authors: [1, 2, 0], early: true })],
};
