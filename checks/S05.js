'use strict';
const { T, B, TMAX } = require('../sol/lib');
function job(n, L, posts) {
  return { name: `timeout n=${n} chain=${L} posts=${posts}`, weight: 1 + L + posts * 3, samples: 3, run(X) {
    const tm = [X.time('p2p'), X.time('agreement'), X.time('fallback'), X.time('challenge')];
    X.setup({ times: tm }).open(n, { fork: n > 2, now: X.u('opened', TMAX, 1n), number: X.u('genesis.number', 100n) });
    const posted = [];
    for (let i = 0; i < posts; i++) {
      const before = X.W.now; X.W.now = X.time('postTime' + i); X.E.assume(T.le(before, X.W.now)); const poster = X.E.choose(2, 'poster' + i) ? X.addr('poster' + i) : X.parts[1];
      const f = { participant: poster, forkCnt: X.u('post.fork' + i), transactionCnt: X.u('post.height' + i), timestamp: X.time('post.ts' + i) };
      const e = X.encBlock(f); const r = X.tx(poster, 'postBlockCalldata', [[e, X.signBy(poster, e, 'post' + i)]]);
      if (!r.ok) X.E.abort('posting rejected');
      posted.push({ ...f, time: X.W.now });
    }
    const before = X.W.now; X.W.now = X.time('now'); X.E.assume(T.le(before, X.W.now));
    const c = X.chain(L, { heights: Array.from({ length: L }, (_, i) => X.u('height' + i)), latest: L ? X.hstate({ number: X.u('latest.number', 100n), participants: X.parts, balances: X.parts.map(() => T.ONE) }) : undefined });
    const who = X.addr('accused'), folded = X.u('folded'); const caller = X.parts[0];
    X.E.assume(T.ne(who, T.ZERO));
    const r = X.tx(caller, 'createDispute', [X.ch, X.fork, X.genesis, c.latest, c.confirmed, who, folded, []]);
    const number = c.latest.vals[0][0];
    const lastH = L ? c.votes[L - 1].f.transactionCnt : null;
    const ref = L ? c.votes[L - 1].f.timestamp : X.genesisTime;
    const span = T.add(T.add(tm[0], tm[1]), tm[2]);
    const spec = T.and(T.ne(who, caller), T.eq(who, X.next(number, X.parts)), L ? T.eq(folded, T.add(lastH, T.ONE)) : T.eq(folded, T.ZERO),
      ...posted.map(p => T.not(T.and(T.eq(p.forkCnt, X.fork), T.eq(p.transactionCnt, folded), T.eq(p.participant, who), T.ne(p.time, T.ZERO)))),
      T.ge(X.W.now, T.add(ref, span)), ...posted.map(p => T.implies(T.and(T.eq(p.forkCnt, X.fork), T.le(p.transactionCnt, folded)), T.ge(X.W.now, T.add(p.time, span)))));
    X.iff(T.bool(r.ok), spec, 'a timeout is accepted exactly against a genuinely late participant');
    X.E.reach(r.ok ? 'accepted' : 'rejected');
    if (r.ok) { const d = X.dispute(); X.check(T.and(T.eq(d.timedoutParticipant, who), T.eq(d.timeoutDisputer, caller), T.eq(d.foldedTransactionCnt, folded)), 'the accused, the accuser and the height are recorded'); }
  } };
}
module.exports = {
  id: 'S05', bounds: { participants: '2 and 3', chain: 'up to 2 blocks', posts: 'up to 2 earlier postings', words: 'all heights and accused addresses, times below 2^40' },
  outside: ['longer chains and posting histories', 'clock values above 2^40'], mustReach: ['accepted', 'rejected'],
  jobs: tier => [job(2, 0, 0), job(2, 1, 0), job(2, 2, 0), job(3, 0, 0), job(3, 1, 0), job(2, 0, 1), job(2, 1, 1), job(3, 1, 1), ...(tier === 'thorough' ? [job(2, 0, 2), job(2, 1, 2), job(3, 2, 1)] : [job(2, 0, 2)])],
};
