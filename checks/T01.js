'use strict';
const K = require('../ts/blocks');
const job = (name, run, o) => ({ kind: 'ts', name, run, samples: 4, ...o });
// one arbitrary operation on the manager and on the model
function step(X, am, m, i, ops) {
  const { AgreementFlag: A } = K.types(X); const op = ops[X.choose(ops.length, 'operation ' + i)]; X.reach(op);
  if (op === 'fork') {
    const n = X.num('fork number' + i, 4n), genesis = X.blob('new genesis' + i), time = X.num('new time' + i); const parts = [X.party(0), X.party(1), X.party(2)].slice(0, 1 + X.choose(3, 'participants' + i));
    X.try(() => am.newFork(genesis, parts, n, time));
    if (X.is(X.numEq(n, m.forks.length))) m.forks.push({ genesis, parts, time, blocks: [] });
  } else if (op === 'receive') { // what a node does with a block: add it when it is ready
    const b = K.plain(X, 'new' + i, {}); const sb = K.signedAny(X, b, 'newSig' + i); const state = X.blob('new state' + i);
    const h = K.hdr(b); const flag = am.checkBlock(sb);
    if (flag === A.READY) {
      am.addBlock(b, sb.signature, state); let ok = false;
      m.forks.forEach((f, k) => { if (!ok && X.is(X.eq(h.forkCnt, BigInt(k)))) {
        const link = f.blocks.length ? f.blocks[f.blocks.length - 1].b.stateHash : X.eth.keccak256(f.genesis);
        X.check(X.and(X.eq(h.transactionCnt, BigInt(f.blocks.length)), K.genuine(X, b, sb.signature), X.eq(b.previousStateHash, link)), 'a block enters the chain only at the next height of its fork, signed by its author, linked to the previous state');
        f.blocks.push({ b, sigs: [sb.signature], state }); ok = true; X.reach('accepted');
      } });
      X.check(ok, 'a block enters the chain of an existing fork only');
    }
  } else if (op === 'add') { // adding a block for a taken slot or an unknown fork is refused
    const b = K.plain(X, 'forced' + i, {}); const h = K.hdr(b); const sig = X.sig('forcedSig' + i), state = X.blob('forced state' + i);
    const next = X.or(...m.forks.map((f, k) => X.and(X.eq(h.forkCnt, BigInt(k)), X.eq(h.transactionCnt, BigInt(f.blocks.length)))));
    X.assume(X.not(next)); const r = X.try(() => am.addBlock(b, sig, state)); X.obs('refused' + i, !r.ok);
    X.check(!r.ok, 'a block for another place than the next height of an existing fork is refused');
  } else if (op === 'confirm') {
    const f = m.forks[X.choose(m.forks.length, 'confirmed fork' + i)]; const own = f && f.blocks.length && X.choose(2, 'own' + i); const e = own ? f.blocks[X.choose(f.blocks.length, 'confirmed height' + i)] : null;
    const b = e ? e.b : K.plain(X, 'confirmed' + i, {}); const sig = X.sig('confSig' + i);
    const r = X.try(() => am.confirmBlock(b, sig));
    let hit = null; for (const ff of m.forks) for (const x of ff.blocks) if (!hit && X.is(K.sameBlock(X, x.b, b))) hit = x;
    const dup = hit && X.is(X.or(...hit.sigs.map(s => X.eq(s, sig))));
    X.check(r.ok === (!!hit && !dup), 'a confirmation is recorded exactly for an agreed block and a new signature');
    if (r.ok) { hit.sigs.push(sig); X.reach('confirmed'); }
  } else { // observe: queue, dequeue and collect do not touch the chain
    const b = K.plain(X, 'other' + i, {}); const sb = K.signedAny(X, b, 'otherSig' + i);
    X.try(() => am.queueBlock(sb)); X.try(() => am.collectOnChainBlock(sb, X.num('posted' + i))); X.try(() => am.queueConfirmation({ originalSignedBlock: sb, confirmationSignature: X.sig('otherConf' + i) })); X.try(() => am.tryDequeueBlocks(X.num('df' + i, 3n), X.num('dh' + i, 4n)));
  }
}
module.exports = {
  id: 'T01', level: 'model_checking',
  bounds: { start: 'no fork; one fork with 0..2 agreed blocks; two forks with 1 and 1', operations: 'every sequence of 2 (thorough: 3) operations out of opening a fork, receiving a block, forcing a block in, confirming, queueing/collecting', contents: 'all numbers, hashes, signatures and participants of new blocks arbitrary' },
  outside: ['longer histories', 'numbers of 2^53 and more', 'a caller that adds a block without checking it first at the next height'],
  mustReach: ['announced', 'announced out of turn', 'accepted', 'confirmed', 'fork', 'add', 'observe'],
  jobs: tier => {
    const starts = [[], [0], [1], [2], [1, 1]]; const jobs = []; const all = ['fork', 'receive', 'add', 'confirm', 'observe'];
    for (const lens of starts) for (const first of all) {
      if (first === 'confirm' && !lens.length) continue;
      jobs.push(job(`${first} first, start ${lens.join('+') || 'empty'}`, async X => {
        const AMc = X.load('@/agreementManager').default; let am, m;
        if (lens.length) { const s = K.manager(X, { forks: lens.length, lens, genesisTime: true }); am = s.am; m = s.m; } else { am = new AMc(); m = new K.Model(X); }
        K.agrees(X, am, m, 'set-up');
        const ops = tier === 'thorough' ? 3 : 2;
        for (let i = 0; i < ops; i++) { step(X, am, m, i, i === 0 ? [first] : all.filter(o => o !== 'confirm' || m.forks.length)); K.agrees(X, am, m, 'afterwards'); }
        X.obs('next', am.getNextBlockHeight()); X.obs('forks', am.forkService.getNextForkIndex());
      }, { weight: first === 'receive' || first === 'observe' ? 3 : 1 }));
    }
    // the same through the node: states the contract announces open the channel and its further forks
    const { node } = require('../ts/node');
    for (const k of [1, 2, ...(tier === 'thorough' ? [3, 4] : [3])]) for (const together of k > 1 ? [false, true] : [false]) jobs.push(job(`${k} announced states${together ? ' at once' : ''}`, async X => {
      const N = node(X, { parts: 2 }); X.nowMs = 5000; const want = []; let ends = [], opened = 0; N.hooks.onSetState = () => { opened++; };
      const list = Array.from({ length: k }, (_, i) => ({ f: X.big('fork number' + i, 4n), s: X.blob('state' + i), t: X.num('time' + i) }));
      for (const e of list) { ends.push(X.tryAsync(() => N.sm.setState(e.s, e.f, X.bigOf(e.t)))); if (!together) await X.pump(2); } await X.pump(4);
      for (const r of await Promise.all(ends)) X.check(r.ok, 'taking over a state does not fail');
      for (const e of list) if (X.is(X.eq(e.f, BigInt(want.length)))) { want.push({ genesis: e.s, parts: N.parts, time: e.t, blocks: [] }); X.reach('announced'); } else X.reach('announced out of turn');
      K.agrees(X, N.am, { forks: want }, 'afterwards'); X.check(opened === want.length, 'every new fork is reported once'); if (want.length) X.check(X.eq(N.machine.cur, want[want.length - 1].genesis), 'the state machine is at the latest state'); X.check(!N.locked(), 'the node is not left locked'); X.obs('forks', want.length);
    }, { weight: k }));
    return jobs;
  },
};
