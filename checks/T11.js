'use strict';
const K = require('../ts/blocks'); const { node } = require('../ts/node');
const job = (name, run, o) => ({ kind: 'ts', name, run, samples: 4, ...o });
const run = async (X, N, f = t => t.delay === 0) => { for (let i = 0; i < 5; i++) { for (const t of X.liveTimers().filter(f)) X.fire(t); await X.pump(2); } };
// author A (party 0) and peers with the same agreed chain, over the same deterministic state machine
function setup(X, n, lens, o = {}) {
  const p2p = X.num('p2p time', 1n << 20n, 1n); const W = { posted: X.num('chain time'), posts: [] }; const kept = new Map(); const keep = (k, mk) => { if (!kept.has(k)) kept.set(k, mk()); return kept.get(k); };
  const base = { parts: n, lens, times: { p2pTime: p2p, agreementTime: 5, chainFallbackTime: 30, challengeTime: 60 }, genesis: f => keep('genesis' + f, () => X.blob('genesis' + f)), genesisAt: keep('start', () => X.num('start')), state: (f, h) => keep(`state${f}.${h}`, () => X.blob(`state${f}.${h}`)), block: (X, l, q) => keep(l, () => K.plain(X, l, { ...q, timestamp: X.big(l + '.time') })), contract: { getChainLatestBlockTimestamp: () => X.bigOf(W.posted), postBlockCalldata: sb => { W.posts.push(sb); const at = X.num('posted at'); X.assume(X.ge(at, W.now)); X.assume(X.gt(at, W.last)); W.posted = X.max(W.posted, at); return { hash: '0x', wait: async () => ({}) }; } } };
  const A = W.A = node(X, { ...base, me: 0, machine: { turns: n, ...o.machine }, fault: o.fault, hooks: o.hooks }); W.peers = [];
  for (let i = 1; i < n; i++) { const B = node(X, { ...base, me: i, machine: { turns: n } }); B.machine.table = A.machine.table; B.machine.turns = A.machine.turns; W.peers.push(B); }
  let t = X.bigOf(A.top.time); for (const e of A.top.blocks) { X.assume(X.ge(K.hdr(e.b).timestamp, t)); t = K.hdr(e.b).timestamp; } W.last = X.num0(t); W.ref = X.max(W.last, W.posted); W.p2p = p2p;
  const now = X.num('now'); X.nowMs = X.mul(1000, now); const { clock } = require('../ts/node'); clock(X); W.now = now; return W; // the clock is set anew for the time of the scenario
}
// everything the author sent reaches the peers, their confirmations reach the author
async function spread(X, W, from) { const out = []; for (let i = from; i < W.A.sent.length; i++) { const [k, sb, sig] = W.A.sent[i]; if (k === 'onSignedBlock') for (const B of W.peers) { const r = await X.tryAsync(() => B.sm.onSignedBlock(sb)); await X.pump(3); out.push(r); } else if (k === 'onBlockConfirmation') { const r = await X.tryAsync(() => W.A.sm.onBlockConfirmation(sb, sig)); await X.pump(3); out.push(r); } } return out; }
module.exports = {
  id: 'T11', level: 'model_checking',
  bounds: { agreed_chain: '0..2 agreed blocks (thorough: 3, and a second fork)', participants: '2..3', transaction: 'arbitrary data', times: 'start, block, chain and local times and the peer-to-peer window arbitrary, the window at least one second', machine: 'any deterministic state machine', failures: 'a refused transaction, a failing signature, state machine call or hook before a second attempt; two transactions at once' },
  outside: ['peers with another clock than the author', 'a fork that is being disputed', 'numbers of 2^53 and more'],
  mustReach: ['accepted', 'late', 'only on chain', 'refused here', 'failed once', 'second attempt', 'at once'],
  jobs: tier => {
    const jobs = []; const cases = [[[0], 2], [[1], 2], [[2], 2], [[1], 3], [[1, 1], 2]]; if (tier === 'thorough') cases.push([[3], 2], [[2], 3], [[1, 2], 3]);
    const author = async (X, W, data, sent) => { // what came of a transaction
      const A = W.A, h = A.am.getNextBlockHeight(), pre = A.tip(); const s0 = A.sent.length; const r = await X.tryAsync(() => A.sm.p2pManager.p2pSigner.sendTransaction({ data })); await X.pump(3); const grown = A.am.getNextBlockHeight() > h; return { A, h, pre, s0, r, grown, b: grown ? A.am.getBlock(A.fork, h) : null };
    };
    const accepted = async (X, W, q, data) => {
      const { A, b, pre, h } = q; const out = A.sent.slice(q.s0).filter(s => s[0] === 'onSignedBlock'); X.check(out.length === 1, 'an authored block is sent to the others once'); const sb = out[0][1]; const hd = K.hdr(b);
      const o = A.machine.outcome(pre, b.transaction); X.check(X.is(o.ok), 'only a transaction that runs is authored'); X.check(X.and(X.eq(sb.encodedBlock, K.enc(X, b)), K.genuine(X, b, sb.signature)), 'the block is sent as it is kept, signed by its author');
      X.check(X.and(X.eq(hd.channelId, K.CH), X.numEq(hd.forkCnt, A.fork), X.numEq(hd.transactionCnt, h), X.eq(hd.participant, A.me), X.eq(b.transaction.body.data, data), X.eq(b.transaction.body.encodedData, data)), 'channel, fork, height, author and transaction of an authored block');
      X.check(X.and(X.eq(b.previousStateHash, X.eth.keccak256(pre)), X.eq(b.stateHash, X.eth.keccak256(o.next)), X.eq(A.machine.cur, o.next), X.eq(A.tip(), o.next)), 'the states an authored block commits to');
      const ts = X.num0(hd.timestamp); X.check(X.ge(ts, W.last), 'an authored block is not older than the agreed chain'); const late = X.is(X.gt(W.now, X.add(W.ref, W.p2p)));
      const has = B => { const g = B.am.getBlock(B.fork, h); return g !== undefined && X.is(K.sameBlock(X, g, b)); };
      // a late block goes on chain before anybody gets it - otherwise it would convict its author; what is not confirmed goes on chain after the time to agree
      X.check(W.posts.length === (late ? 1 : 0), 'only a late block is on chain at once'); const whole = p => X.check(X.and(X.eq(p.encodedBlock, sb.encodedBlock), X.eq(p.signature, sb.signature)), 'the block itself goes on chain'); const seen = () => { const at = X.bigOf(W.posted); for (const B of W.peers) B.sm.collectOnChainBlock(sb, at); A.sm.collectOnChainBlock(sb, at); };
      const how = X.choose(late ? 3 : 2, 'delivery'); if (late) { whole(W.posts[0]); X.reach('late'); } // the message, the event first, only the event
      const s1 = A.sent.length; if (how === 1 && late) { seen(); await X.pump(2); } let rs = []; if (how < (late ? 2 : 1)) rs = await spread(X, W, q.s0); if (late && how !== 1) { seen(); await X.pump(2); }
      await run(X, A); await run(X, A, t => t.delay === 5000);
      if (!late) { X.check(W.posts.length === how, 'a block goes on chain exactly if somebody did not sign it'); if (how === 1) { whole(W.posts[0]); seen(); X.reach('only on chain'); } }
      else X.check(W.posts.length === 1, 'a block is not posted twice'); await X.pump(2); await run(X, A); rs.push(...await spread(X, W, s1));
      for (const r of rs) X.check(r.ok, 'handling the block and its confirmations does not fail'); for (const B of W.peers) { X.check(has(B), 'an authored block is adopted by every peer'); X.check(B.calls('createDispute').length === 0, 'nobody disputes an authored block'); } X.check(A.am.didEveryoneSignBlock(b), 'the author holds the confirmations of all peers'); X.reach('accepted');
      for (const N of [A, ...W.peers]) { X.check(!N.locked(), 'no node is left locked'); X.check(X.eq(N.machine.cur, N.tip()), 'every state machine is at the agreed state'); }
    };
    const nothing = (X, W, q) => { X.check(W.A.sent.length === q.s0, 'nothing is sent without an authored block'); X.check(X.eq(W.A.machine.cur, q.pre), 'without an authored block the state machine stays where it was'); X.check(!W.A.locked(), 'the node is not left locked'); };
    for (const [lens, n] of cases) jobs.push(job(`${n} participants, ${lens.join('+')} agreed`, async X => {
      const W = setup(X, n, lens); const data = X.blob('data'); const q = await author(X, W, data); const turn = X.is(X.eq(W.A.machine.turn(q.pre), W.A.me)); X.obs('authored', q.grown);
      if (q.grown) { X.check(turn, 'a block is authored only in turn'); X.check(q.r.ok, 'authoring reports success'); await accepted(X, W, q, data); } else { X.reach('refused here'); const ran = W.A.machine.table.find(e => X.is(X.eq(e.s, q.pre))); X.check(!turn || (ran && !X.is(ran.ok)), 'a valid transaction in turn is authored'); X.check(!q.r.ok, 'refusing is reported'); nothing(X, W, q); }
    }, { weight: n * 2 + lens[0] }));
    // a first attempt that fails somewhere does not spoil the next one
    for (const what of ['sign', 'stateTransition', 'getState', 'getNextToWrite', 'runs', 'onTurn']) for (const lens of tier === 'thorough' ? [[0], [1], [2]] : [[1]]) jobs.push(job(`${what} fails first, ${lens.join('+')} agreed`, async X => {
      let left = 1, count = 0; const at = { getState: 4, getNextToWrite: 2 }[what]; const k = at ? X.choose(at, 'failing call') : 0; const fault = w => left > 0 && w === what && count++ === k && (left--, true); const hooks = what === 'onTurn' ? { onTurn: () => { if (left > 0) { left--; throw new Error('hook failed'); } } } : {};
      const W = setup(X, 2, lens, { machine: { fault }, fault, hooks }); const A = W.A; X.assume(X.le(W.now, X.add(W.ref, W.p2p))); X.assume(X.eq(A.machine.turn(A.tip()), A.me)); const d1 = X.blob('first data'), d2 = X.blob('second data'); if (what === 'runs') left = 0;
      const q = await author(X, W, d1); if (q.grown) { if (what === 'onTurn' || left > 0) X.check(q.r.ok, 'an authored block is reported as success'); await accepted(X, W, q, d1); return; }
      X.check(!q.r.ok, 'refusing is reported'); nothing(X, W, q); X.reach('failed once'); left = 0;
      const q2 = await author(X, W, d2); if (q2.grown) { X.check(q2.r.ok, 'the second attempt succeeds'); await accepted(X, W, q2, d2); X.reach('second attempt'); } else nothing(X, W, q2);
    }, { weight: 4 }));
    // two transactions at once: the second is authored only if it still is the next one
    for (const lens of [[0], [1]]) jobs.push(job(`two transactions at once, ${lens.join('+')} agreed`, async X => {
      const W = setup(X, 2, lens); const A = W.A, h = A.am.getNextBlockHeight(), pre = A.tip(); X.assume(X.le(W.now, X.add(W.ref, W.p2p))); X.assume(X.eq(A.machine.turn(pre), A.me)); const d = [X.blob('first data'), X.blob('second data')];
      const rs = await Promise.all(d.map(data => X.tryAsync(() => A.sm.p2pManager.p2pSigner.sendTransaction({ data })))); await X.pump(3); const n = A.am.getNextBlockHeight() - h; X.check(n <= 1 && rs.filter(r => r.ok).length === n, 'at most one of them is authored, and reported'); X.check(A.sent.length === n, 'exactly it is sent'); X.reach('at once');
      if (n) { const b = A.am.getBlock(A.fork, h); await accepted(X, W, { A, b, pre, h, s0: 0 }, b.transaction.body.data); } else X.check(X.eq(A.machine.cur, pre), 'without an authored block the state machine stays where it was');
    }, { weight: 3 }));
    return jobs;
  },
};
