'use strict';
const K = require('../ts/blocks');
const job = (name, run) => ({ kind: 'ts', name, run, samples: 5 });
// classification a reader of the protocol expects
function expected(X, F, s, b, sig) {
  const { AgreementFlag: A } = K.types(X); const h = K.hdr(b);
  if (!X.is(K.genuine(X, b, sig))) return 'INVALID_SIGNATURE';
  for (const q of s.queued) if (X.is(K.sameBlock(X, q, b))) return 'DUPLICATE';
  for (let f = 0; f < s.forks.length; f++) if (X.is(X.eq(h.forkCnt, BigInt(f)))) {
    const bl = s.forks[f].blocks;
    for (let k = 0; k < bl.length; k++) if (X.is(X.eq(h.transactionCnt, BigInt(k)))) {
      if (X.is(K.sameBlock(X, bl[k].b, b))) return 'DUPLICATE';
      return X.is(X.eq(h.participant, K.hdr(bl[k].b).participant)) ? 'DOUBLE_SIGN' : 'INCORRECT_DATA';
    }
    if (!X.is(X.eq(h.transactionCnt, BigInt(bl.length)))) return 'NOT_READY';
    const link = bl.length ? bl[bl.length - 1].b.stateHash : X.eth.keccak256(s.forks[f].genesis);
    return X.is(X.eq(b.previousStateHash, link)) ? 'READY' : 'INCORRECT_DATA';
  }
  return 'NOT_READY';
}
module.exports = {
  id: 'T02', level: 'model_checking',
  bounds: { forks: '0..2', agreed_blocks: 'up to 3 in one fork (thorough: 4), 1 in another', queued_blocks: '0..1', incoming_block: 'every field and the signature arbitrary (numbers below 2^40)', participants: 2 },
  outside: ['encodings with trailing bytes', 'numbers of 2^53 and more'],
  mustReach: ['INVALID_SIGNATURE', 'DUPLICATE', 'DOUBLE_SIGN', 'INCORRECT_DATA', 'READY', 'NOT_READY', 'agreed already'],
  jobs: tier => {
    const jobs = []; const shapes = [[], [0], [1], [2], [3], [0, 0], [1, 1], [2, 0], [1, 2]]; if (tier === 'thorough') shapes.push([4], [3, 1], [2, 2]);
    for (const lens of shapes) jobs.push(job(`chains of ${lens.join(' and ') || 'no fork'}`, async X => {
      const { AgreementFlag: A } = K.types(X); const s = K.manager(X, { forks: lens.length || 1, lens, block: (X, l, x) => K.block(X, l, { channelId: K.CH, timestamp: 5n, ...x }), ...(lens.length ? {} : { none: 1 }) });
      let am = s.am, forks = s.forks; if (!lens.length) { am = new (X.load('@/agreementManager').default)(); forks = []; }
      const queued = [];
      if (X.choose(2, 'queued')) { const q = K.block(X, 'queued', { channelId: K.CH }); am.queueBlock(K.signedAny(X, q, 'queuedSig')); queued.push(q); }
      const b = K.block(X, 'in', { transactionType: X.big('in.type', 9n) }); const sig = X.sig('inSig'); const sb = { encodedBlock: K.enc(X, b), signature: sig };
      const want = expected(X, A, { forks, queued }, b, sig);
      const got = am.checkBlock(sb); X.obs('flag', got); X.reach(want);
      X.check(got === A[want], `a block that is ${want} is reported as such`);
      // the other views of the same question agree
      const inChain = X.or(...forks.flatMap(f => f.blocks.map(e => K.sameBlock(X, e.b, b))));
      X.check(X.iff(am.isBlockInChain(b), inChain), 'a block is in the chain exactly if the agreed block of its slot is the same');
      X.check(X.iff(am.isBlockDuplicate(b), X.or(inChain, ...queued.map(q => K.sameBlock(X, q, b)))), 'a block is a duplicate exactly if it is agreed or queued'); if (X.is(inChain)) X.reach('agreed already');
      const d = am.getDoubleSignedBlock(sb);
      const slot = forks.flatMap(f => f.blocks).find(e => X.is(X.and(K.sameSlot(X, e.b, b), X.eq(K.hdr(e.b).participant, K.hdr(b).participant), X.not(K.sameBlock(X, e.b, b)))));
      X.check(!!d === !!slot, 'a conflicting agreed block is found exactly if the author already signed another block for the slot');
      if (d) { X.check(X.eq(d.encodedBlock, K.enc(X, slot.b)), 'the conflicting block is the agreed one'); X.check(X.signed(d.signature, d.encodedBlock, K.hdr(b).participant), 'the conflicting block comes with its author\'s signature'); }
      if (lens.length) K.agrees(X, am, s.m, 'classifying a block changes nothing');
    }));
    return jobs;
  },
};
