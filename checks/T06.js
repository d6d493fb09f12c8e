'use strict';
const K = require('../ts/blocks');
const job = (name, run, o) => ({ kind: 'ts', name, run, samples: 4, ...o });
module.exports = {
  id: 'T06', level: 'model_checking',
  bounds: { chain: 'one fork with 0..2 agreed blocks, or two forks', postings: 'up to 2 (thorough: 3) arbitrary blocks with arbitrary chain times', query: 'arbitrary fork, height, address and limit' },
  outside: ['two postings of one slot with different chain times (the contract accepts one)', 'postings for a fork the node has not seen'],
  mustReach: ['recorded', 'rejected', 'posted', 'limited'],
  jobs: tier => {
    const jobs = []; const n = tier === 'thorough' ? 3 : 2;
    for (const lens of [[0], [1], [2], [1, 0]]) for (let k = 0; k <= n; k++) jobs.push(job(`${k} postings, chain ${lens.join('+')}`, async X => {
      const { AgreementFlag: A } = K.types(X); const s = K.manager(X, { forks: lens.length, lens, genesisTime: true, block: (X, l, o) => K.plain(X, l, { ...o, timestamp: X.big(l + '.time') }) }); const { am } = s; const rec = []; const bad = [A.INVALID_SIGNATURE, A.INCORRECT_DATA, A.DOUBLE_SIGN];
      for (let i = 0; i < k; i++) {
        const b = K.plain(X, 'post' + i, { maxFork: BigInt(lens.length - 1) }); const sb = K.signedAny(X, b, 'postSig' + i); const t = X.num('postTime' + i); const h = K.hdr(b);
        for (const r of rec) X.assume(X.or(X.not(X.and(K.sameSlot(X, r.b, b), X.eq(K.hdr(r.b).participant, h.participant))), X.eq(r.t, t)));
        const want = am.checkBlock(sb); const flag = am.collectOnChainBlock(sb, t); X.check(flag === want, 'collecting reports the verdict on the block'); X.obs('flag' + i, flag);
        if (bad.includes(flag)) X.reach('rejected'); else { rec.push({ b, t }); X.reach('recorded'); }
        const q = am.queueService.isBlockQueued(b); if (flag === A.READY || flag === A.NOT_READY) X.check(q, 'a posted block that is not processed yet is queued'); 
      }
      const f = X.num('askFork', BigInt(lens.length - 1)), h = X.num('askHeight'), a = X.addr('askAddress'), lim = X.num('limit');
      const slot = r => X.and(X.numEq(K.hdr(r.b).forkCnt, f), X.numEq(K.hdr(r.b).transactionCnt, h), X.eq(K.hdr(r.b).participant, a));
      const got = am.didParticipantPostOnChain(f, h, a); X.obs('posted', got); X.check(X.iff(got, X.or(...rec.map(slot))), 'a posting is reported exactly if one was collected for that fork, height and participant'); if (X.is(got)) X.reach('posted');
      let want = 0; for (const r of rec) want = X.max(want, X.ite(X.and(X.numEq(K.hdr(r.b).forkCnt, f), X.le(K.hdr(r.b).transactionCnt, lim)), r.t, 0));
      const latest = am.getChainLatestBlockTimestamp(f, lim); X.obs('latest', latest); X.check(X.eq(latest, want), 'the latest chain time up to a height is the maximum over the collected postings'); X.reach('limited');
      // combined reference times
      let ff = 0; while (ff < lens.length - 1 && !X.is(X.eq(f, ff))) ff++;
      const bl = s.forks[ff].blocks; const own = X.max(s.forks[ff].time, bl.length ? timeOf(X, bl[bl.length - 1].b) : 0);
      X.check(X.numEq(am.getLatestBlockTimestamp(ff), own), 'the latest agreed time is that of the newest block, at least the start of the fork'); X.check(X.numEq(am.getLatestTimestamp(ff, lim), X.max(own, want)), 'the reference time is the later of the agreed and the posted time');
      const o = X.num('otherFork', 1000n, BigInt(lens.length)); X.check(am.didParticipantPostOnChain(o, h, a) === false, 'nothing was posted in an unknown fork');
      K.agrees(X, am, s.m, 'collecting does not touch the chain');
    }, { weight: k }));
    return jobs;
  },
};
function timeOf(X, b) { const t = K.hdr(b).timestamp; return typeof t === 'bigint' ? Number(t) : require('../ts/values').num(t.t); }
