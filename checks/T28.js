'use strict';
const K = require('../ts/blocks'); const { node } = require('../ts/node');
const PAST = 5, FUTURE = 10; // seconds of tolerance on the own clock
module.exports = {
  id: 'T28', level: 'model_checking',
  bounds: { clocks: 'block time, own clock, agreed times, chain times and the configured message time arbitrary below 2^40', chain: 'one fork with 0..2 agreed blocks (thorough: 3)', postings: 'up to 1 (thorough: 2) for this, an earlier or a later height, by any participant', participants: '2 (thorough: 3), anybody next to act' },
  outside: ['numbers of 2^53 and more', 'the tolerance on the own clock applies to blocks that take the place of a move of this node only'],
  mustReach: ['old', 'ahead', 'fits', 'goes back', 'too late', 'chain allows', 'own turn'],
  jobs: tier => {
    const jobs = []; const deep = tier === 'thorough';
    jobs.push({ kind: 'ts', name: 'own clock', samples: 4, run: async X => {
      const { subjectiveTimingFlag: f } = X.load('@/utils'); const { ExecutionFlags: F } = K.types(X); const now = X.num('now'), ts = X.num('time'); const v = f(ts, now); X.obs('flag', v);
      const old = X.gt(X.sub(now, ts), PAST), ahead = X.gt(X.sub(ts, now), FUTURE);
      X.check(X.iff(v === F.NOT_ENOUGH_TIME, old), 'a time is reported as old exactly if it is more than the tolerance behind the clock'); X.check(X.iff(v === F.DISPUTE, ahead), 'a time is reported as too far ahead exactly if it is more than the tolerance ahead of the clock'); X.check([F.NOT_ENOUGH_TIME, F.DISPUTE, F.SUCCESS].includes(v), 'there are three verdicts');
      X.reach(X.is(old) ? 'old' : X.is(ahead) ? 'ahead' : 'fits');
      // monotone in both times
      const ts2 = X.num('later time'), now2 = X.num('later clock'); X.assume(X.and(X.ge(ts2, ts), X.le(now2, now))); const rank = x => x === F.NOT_ENOUGH_TIME ? 0 : x === F.SUCCESS ? 1 : 2; X.check(rank(f(ts2, now2)) >= rank(v), 'a later block or an earlier clock never makes a block older');
    } });
    for (const len of deep ? [0, 1, 2, 3] : [0, 1, 2]) for (let k = 0; k <= (deep ? 2 : 1); k++) for (const n of deep ? [2, 3] : [2]) jobs.push({ kind: 'ts', samples: 4, weight: len + 2 * k + n, name: `${len} agreed blocks, ${k} postings, ${n} participants`, run: async X => {
      const { ExecutionFlags: F, AgreementFlag: A } = K.types(X); const { ProofType: P } = X.load('@/types'); const chain = X.num('chain time'), p2p = X.num('message time', 1n << 20n); const disputes = []; let asked = 0;
      const N = node(X, { me: 0, parts: n, lens: [len], genesisTime: true, block: (X, l, q) => K.plain(X, l, { ...q, timestamp: X.big(l + '.time') }), times: { p2pTime: p2p, agreementTime: 5, chainFallbackTime: 30, challengeTime: 60 }, machine: { turns: n }, contract: { getChainLatestBlockTimestamp: (c, f, h) => { asked++; X.check(X.and(X.eq(c, K.CH), X.numEq(f, 0), X.numEq(h, len)), 'the contract is asked about this height'); return X.bigOf(chain); }, createDispute: async (...a) => { disputes.push(a); return { hash: '0x', wait: async () => ({}) }; }, getDispute: async () => ({ channelId: K.CH, forkCnt: 0n, challengeCnt: 0n, slashedParticipants: [], virtualVotingBlocks: [], foldedTransactionCnt: 0n, timedoutParticipant: K.ZERO, postedStateDisputer: N.me }) } });
      let last = N.top.time; for (const e of N.top.blocks) { const t = X.num0(K.hdr(e.b).timestamp); X.assume(X.ge(t, last)); last = t; }
      let ref = last; for (let i = 0; i < k; i++) { const a = X.choose(n, 'poster' + i), h = X.choose(3, 'posted height' + i) + Math.max(0, len - 1), t = X.num('posted time' + i); const b = h < len ? N.top.blocks[h].b : K.plain(X, 'posted' + i, { forkCnt: 0n, transactionCnt: BigInt(h), participant: X.party(a), encodedData: '0x7' + i, previousStateHash: h === len ? X.eth.keccak256(N.tip()) : '0x' + '11'.repeat(32) }); const s = h < len ? N.top.blocks[h].sigs[0] : X.signBytes(a, K.enc(X, b)); const by = h < len ? K.hdr(b).participant : X.party(a); const fresh = !N.am.didParticipantPostOnChain(0, h, by); const fl = N.am.collectOnChainBlock({ encodedBlock: K.enc(X, b), signature: s }, t); if (fresh && ![A.INVALID_SIGNATURE, A.INCORRECT_DATA, A.DOUBLE_SIGN].includes(fl) && h <= len) ref = X.max(ref, t); }
      const pre = N.machine.cur, next = X.blob('next'), who = N.machine.turn(pre), mine = X.is(X.eq(who, N.me)); const ts = X.big('time'); const t = X.num0(ts); const now = X.num('now'); X.nowMs = X.mul(1000, now); const clock = N.now();
      const b = K.plain(X, 'new', { forkCnt: 0n, transactionCnt: BigInt(len), participant: X.party(1), timestamp: ts, encodedData: '0x99', previousStateHash: X.eth.keccak256(pre), stateHash: X.eth.keccak256(next) }); N.machine.table.unshift({ s: pre, t: K.encTx(X, b.transaction), ok: true, next });
      const sb = K.signedBy(X, b, 1); const r = await X.tryAsync(() => N.sm.onSignedBlock(sb)); await X.pump(6); X.check(r.ok, 'handling does not fail'); X.obs('flag', r.value); X.obs('disputes', disputes.length);
      const back = X.lt(t, last), late = X.gt(t, X.add(X.max(ref, chain), p2p)); const window = X.not(X.or(back, late)); const old = X.gt(X.sub(clock, t), PAST), ahead = X.gt(X.sub(t, clock), FUTURE);
      const grown = N.am.getBlock(0, len) !== undefined; const turnOk = X.eq(who, X.party(1)); X.check(X.iff(grown, X.and(window, turnOk)), 'a block is accepted exactly inside the window'); X.check((r.value === F.SUCCESS) === grown, 'and reported so');
      const types = disputes.flatMap(a => a[7].map(p => Number(p.proofType))); X.obs('proofs', types);
      if (!X.is(window)) { X.reach(X.is(back) ? 'goes back' : 'too late'); X.check(r.value === F.DISPUTE, 'a time outside the window is reported as such'); X.check(types.length === 1 && types[0] === P.IncorrectData, 'and disputed as incorrect'); }
      else {
        if (X.is(X.gt(t, X.add(ref, p2p)))) { X.reach('chain allows'); X.check(asked === 1, 'the contract is asked before a block is refused'); }
        if (mine) { X.reach('own turn'); X.check(X.iff(r.value === F.NOT_ENOUGH_TIME, old), 'an old block in place of an own move is reported as old'); if (X.is(old)) X.check(types.length === 0, 'and not disputed'); else { X.check(r.value === F.DISPUTE && types.length === 1, 'a block in place of an own move is disputed'); X.check(X.iff(types[0] === P.BlockTooFarInFuture, ahead), 'the reason fits the violated bound'); } }
        else if (X.is(turnOk)) X.check(types.length === 0, 'an accepted block is not disputed'); else X.check(r.value === F.DISPUTE && types.length === 1 && types[0] === P.IncorrectData, 'a block of the wrong author is incorrect, not ill-timed');
        if (X.is(turnOk)) X.reach(X.is(old) ? 'old' : X.is(ahead) ? 'ahead' : 'fits');
      }
    } });
    return jobs;
  },
};
