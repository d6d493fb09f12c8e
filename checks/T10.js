'use strict';
const K = require('../ts/blocks'); const { node } = require('../ts/node');
const job = (name, run, o) => ({ kind: 'ts', name, run, samples: 4, ...o });
// runs fn to its end; whether it settled, and how
async function settle(X, fn) { const s = { done: false }; const p = X.tryAsync(fn).then(r => { s.done = true; s.r = r; }); await X.pump(3); if (s.done) await p; return s; }
module.exports = {
  id: 'T10', level: 'model_checking',
  bounds: { agreed_chain: '1 agreed block, 2 participants', operations: '1..2 (thorough: 3) of: any received block, any received confirmation, any local transaction, started one after another or at once; any of them (twice) before the channel opens', failures: 'one failure at any call into the state machine, the signer or the contract', contents: 'all block fields, signatures and outcomes of the state machine' },
  outside: ['calls into the state machine that never return', 'more than one failure'],
  mustReach: ['failed', 'succeeded', 'fault', 'probe adopted', 'concurrent', 'opened'],
  jobs: tier => {
    const jobs = []; const kinds = ['block', 'confirmation', 'transaction']; const pairs = [];
    for (const a of kinds) { pairs.push([a]); for (const b of kinds) { pairs.push([a, b]); if (tier === 'thorough' && a !== b) for (const c of kinds) pairs.push([a, b, c]); } }
    for (const ops of pairs) jobs.push(job(ops.join(', '), async X => {
      let left = 1; const at = [];
      const fault = w => { if (!left || !X.choose(2, 'failure of ' + w)) return false; left--; at.push(w); X.reach('fault'); return true; };
      const N = node(X, { lens: [1], fault: w => fault(w), machine: { fault: w => fault(w), turns: 2 } }); const start = N.machine.cur; const running = [];
      const exec = (k, i) => {
        const simple = ops.length > 1; // several operations: the block continues the chain
        const b = K.plain(X, 'new' + i, { forkCnt: 0n, timestamp: simple ? 6n : X.big('time' + i), ...(simple ? { transactionCnt: 1n, previousStateHash: X.eth.keccak256(start) } : {}), participant: X.party(1) }); const sb = K.signedBy(X, b, 1);
        if (k === 'block') return N.sm.onSignedBlock(sb);
        if (k === 'confirmation') return N.sm.onBlockConfirmation(sb, X.sig('conf' + i));
        return N.sm.p2pManager.p2pSigner.sendTransaction({ data: '0x1234' });
      };
      X.nowMs = 7000; const together = ops.length > 1 && X.choose(2, 'at once'); if (together) X.reach('concurrent');
      for (let i = 0; i < ops.length; i++) { const s = settle(X, () => exec(ops[i], i)); if (!together) { running.push(await s); } else running.push(s); }
      const ends = await Promise.all(running);
      for (const s of ends) { X.check(s.done, 'handling always ends'); X.reach(s.r.ok ? 'succeeded' : 'failed'); }
      X.obs('ends', ends.map(s => s.r.ok)); X.check(!N.locked(), 'the lock is released when handling ends');
      // later work is processed
      left = 0; const h = N.am.getNextBlockHeight(); const tip = N.tip(); const agreed = X.is(X.eq(N.machine.cur, tip)); const next = X.blob('later state'); const b = { ...K.plain(X, 'later', { forkCnt: 0n, transactionCnt: BigInt(h), participant: X.party(1), timestamp: 1n << 41n, encodedData: '0x77', previousStateHash: X.eth.keccak256(tip), stateHash: X.eth.keccak256(next) }) };
      N.times.p2pTime = 2 ** 42; const t = X.eth.AbiCoder.defaultAbiCoder().encode([K.TX], [b.transaction]); N.machine.table.unshift({ s: tip, t, ok: true, next }); if (agreed) X.assume(X.eq(N.machine.turn(tip), X.party(1)));
      const last = await settle(X, () => N.sm.onSignedBlock(K.signedBy(X, b, 1))); X.check(last.done && !N.locked(), 'a later block is handled');
      if (agreed && !N.sm.disputeHandler.isForkDisputed(0)) { X.check(last.r.ok && N.am.getBlock(0, h) !== undefined, 'a later valid block is adopted'); X.reach('probe adopted'); }
    }, { weight: ops.length * 2 + (ops.includes('confirmation') ? 1 : 0) }));
    // what arrives before the channel opens
    for (const k of kinds) jobs.push(job(k + ' before the channel opens', async X => {
      let left = 1; const fault = w => { if (!left || !X.choose(2, 'failure of ' + w)) return false; left--; X.reach('fault'); return true; };
      const N = node(X, { fault, machine: { fault, turns: 2 } }); N.machine.cur = X.blob('start'); X.nowMs = 7000;
      const b = K.plain(X, 'early', { forkCnt: 0n, timestamp: 6n, transactionCnt: 0n, participant: X.party(1) }); const sb = K.signedBy(X, b, 1);
      const n = X.choose(2, 'how often') + 1; for (let i = 0; i < n; i++) {
        const s = await settle(X, () => (k === 'block' ? N.sm.onSignedBlock(sb) : k === 'confirmation' ? N.sm.onBlockConfirmation(sb, X.sig('conf')) : N.sm.p2pManager.p2pSigner.sendTransaction({ data: '0x1234' })));
        X.check(s.done, 'handling always ends'); if (!s.done) return; X.reach(s.r.ok ? 'succeeded' : 'failed'); X.check(!N.locked(), 'the lock is released when handling ends');
      }
      left = 0; const s = await settle(X, () => N.sm.setState(X.blob('genesis'), 0n, 5n)); X.check(s.done && s.r.ok && N.am.getNextForkCnt() === 1, 'the channel opens'); X.check(!N.locked(), 'the lock is released when handling ends'); X.reach('opened');
    }, { weight: 1 }));
    return jobs;
  },
};
