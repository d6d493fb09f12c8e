'use strict';
const { T, B } = require('../sol/lib');
function job(k, o = {}) {
  return { name: `${k} postings${o.chan ? ' in any channel' : ''}`, weight: 3 ** k, samples: 3, run(X) {
    X.setup().open(2, { number: T.int(0) }); X.W.now = T.int(1000);
    const ps = [];
    for (let i = 0; i < k; i++) {
      const b = X.W.now; X.W.now = X.time('time' + i); X.E.assume(T.le(b, X.W.now)); const by = X.E.choose(i === 0 ? 1 : 2, 'by' + i) ? X.parts[1] : X.parts[0];
      const f = { channelId: o.chan ? X.b32('channel' + i) : X.ch, participant: by, forkCnt: X.u('fork' + i), transactionCnt: X.u('height' + i), timestamp: X.W.now };
      const e = X.encBlock(f); X.must(X.tx(by, 'postBlockCalldata', [[e, X.signBy(by, e, 'p' + i)]])); ps.push({ ...f, time: X.W.now });
    }
    const fork = X.u('q.fork'), max = X.u('q.height');
    const r = X.must(X.tx(X.P[5], 'getChainLatestBlockTimestamp', [X.ch, fork, max])).ret[0];
    let want = T.ZERO; for (const p of ps) want = T.ite(T.and(T.eq(p.channelId, X.ch), T.eq(p.forkCnt, fork), T.le(p.transactionCnt, max)), p.time, want); // times only grow
    X.check(T.eq(r, want), 'the latest posting time is the maximum over the relevant postings');
    X.E.reach(X.E.decide(T.eq(r, T.ZERO)) ? 'none' : 'some');
  } };
}
module.exports = { id: 'S17', bounds: { postings: 'up to 3', words: 'all forks and heights; times below 2^40' }, outside: ['longer histories'], mustReach: ['none', 'some'], jobs: tier => [job(0), job(1, { chan: true }), job(2, { chan: true }), job(3), ...(tier === 'thorough' ? [job(3, { chan: true })] : [])] };
