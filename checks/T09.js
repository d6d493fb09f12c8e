'use strict';
const K = require('../ts/blocks'); const { node } = require('../ts/node');
const job = (name, run, o) => ({ kind: 'ts', name, run, samples: 4, ...o });
// every block the node signed, as (fork, height, encoding)
function signedBlocks(X, N) {
  return N.signed.map(m => { const d = X.preimage(X.eth.hexlify(m)); X.check(d !== undefined, 'the node signs hashes of blocks only'); const b = X.load('@/utils').EvmUtils.decodeBlock(d); return { d, h: K.hdr(b) }; });
}
module.exports = {
  id: 'T09', level: 'model_checking',
  bounds: { agreed_chain: '0..1 agreed blocks, 2 participants', operations: 'every pair of local transactions, received blocks and new states from the chain, two transactions and a third operation (thorough: every triple)', interleavings: 'every order in which calls into the state machine complete and operations start', contents: 'hashes, signers and outcomes of transactions arbitrary' },
  outside: ['more concurrent operations', 'preemption elsewhere than at calls into the state machine (JavaScript has none)', 'one key used by several nodes'],
  mustReach: ['authored', 'confirmed', 'interleaved', 'new fork'],
  jobs: tier => {
    const jobs = []; const kinds = ['transaction', 'block', 'state']; const sets = [];
    for (let i = 0; i < 3; i++) for (let j = 0; j < 3; j++) { if (i <= j) sets.push([kinds[i], kinds[j]]); for (let k = 0; k < 3; k++) if ((tier === 'thorough' || (i === 0 && j === 0)) && i <= j && j <= k) sets.push([kinds[i], kinds[j], kinds[k]]); }
    for (const ops of sets) for (const len of tier === 'thorough' || ops.length < 3 ? [0, 1] : [0]) jobs.push(job(`${ops.join(', ')}, ${len} agreed`, async X => {
      const gates = []; let gated = false;
      const N = node(X, { lens: [len], times: { p2pTime: 100, agreementTime: 5, chainFallbackTime: 30, challengeTime: 60 }, machine: { turns: 2, gate: w => gated ? new Promise(r => gates.push(r)) : null } }); X.nowMs = 7000;
      const start = N.machine.cur; const sent = i => {
        if (ops[i] === 'transaction') return N.sm.p2pManager.p2pSigner.sendTransaction({ data: '0x100' + i });
        if (ops[i] === 'state') return N.sm.setState(X.blob('set state' + i), BigInt(1 + ops.slice(0, i).filter(k => k === 'state').length), 6n);
        const b = K.plain(X, 'new' + i, { forkCnt: 0n, timestamp: 6n, transactionCnt: BigInt(len), previousStateHash: X.eth.keccak256(start), participant: X.party(1), encodedData: '0x200' + i }); return N.sm.onSignedBlock(K.signedBy(X, b, 1));
      };
      gated = true; let next = 0; const running = []; let overlap = false;
      for (;;) { // start an operation or let one waiting call complete
        await X.pump(); const can = (next < ops.length ? 1 : 0) + gates.length; if (!can) break;
        const k = X.choose(can, 'next'); if (next < ops.length && k === can - 1) { if (gates.length) overlap = true; const i = next++; running.push(X.tryAsync(() => sent(i))); } else gates.splice(k, 1)[0]();
      }
      const ends = await Promise.all(running); gated = false; X.obs('ends', ends.map(e => e.ok)); if (overlap) X.reach('interleaved');
      const sb = signedBlocks(X, N);
      for (let i = 0; i < sb.length; i++) for (let j = 0; j < i; j++) X.check(X.implies(X.and(X.eq(sb[i].h.forkCnt, sb[j].h.forkCnt), X.eq(sb[i].h.transactionCnt, sb[j].h.transactionCnt)), X.eq(sb[i].d, sb[j].d)), 'the node never signs two different blocks of one height');
      for (const s of sb) { const b = N.am.getBlock(X.num0(s.h.forkCnt), X.num0(s.h.transactionCnt)); X.check(b !== undefined && X.is(X.eq(K.enc(X, b), s.d)), 'what the node signed is what it agreed to'); }
      if (N.sent.some(s => s[0] === 'onSignedBlock')) X.reach('authored'); if (N.sent.some(s => s[0] === 'onBlockConfirmation')) X.reach('confirmed'); if (N.am.getLatestForkCnt() > 0) X.reach('new fork');
      X.check(X.eq(N.machine.cur, N.tip()), 'the state machine is in the agreed state'); X.check(!N.locked(), 'the node is not left locked');
    }, { weight: ops.length + len, ...(ops.filter(o => o !== 'state').length > 2 ? {} : {}) }));
    return jobs;
  },
};
