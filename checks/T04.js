'use strict';
const K = require('../ts/blocks'); const { node } = require('../ts/node');
const job = (name, run, o) => ({ kind: 'ts', name, run, samples: 4, ...o });
module.exports = {
  id: 'T04', level: 'model_checking',
  bounds: { participants: '1..3', held_signatures: "the author's and up to 2 (thorough: 3) arbitrary ones on the queried block, 1 on a neighbouring block", queried_block: 'the agreed block and an arbitrary other block', collection: 'up to 3 (thorough: 4) insertions under 2 keys, arbitrary signers' },
  outside: ['malformed signatures already stored', 'more participants'],
  mustReach: ['all signed', 'not all signed', 'foreign', 'collected by all', 'adopted on the way', 'new confirmation', 'known confirmation'],
  jobs: tier => {
    const jobs = []; const kmax = tier === 'thorough' ? 3 : 2;
    for (const n of [1, 2, 3]) for (let k = 0; k <= kmax; k++) jobs.push(job(`${n} participants, ${k} confirmations`, async X => {
      const s = K.manager(X, { parts: n, lens: [2] }); const { am } = s; const [e0, e] = s.forks[0].blocks;
      for (let i = 0; i < k; i++) { const g = X.sig('conf' + i); const r = X.try(() => am.confirmBlock(e.b, g)); const dup = X.or(...e.sigs.map(x => X.eq(x, g))); X.check(X.iff(r.ok, X.not(dup)), 'a confirmation is recorded exactly if the same signature is not held yet'); if (r.ok) e.sigs.push(g); }
      const g0 = X.sig('elsewhere'); if (X.try(() => am.confirmBlock(e0.b, g0)).ok) e0.sigs.push(g0);
      const held = (b, sigs, p) => X.or(...sigs.map(x => X.signed(x, K.enc(X, b), p)));
      // the agreed block
      const all = X.and(...s.parts.map(p => held(e.b, e.sigs, p)));
      const every = am.didEveryoneSignBlock(e.b); X.obs('everyone', every); X.check(X.iff(every, all), 'a block counts as signed by everyone exactly if every participant\'s genuine signature over it is held'); X.reach(every ? 'all signed' : 'not all signed');
      const missing = am.getParticipantsWhoHaventSignedBlock(e.b); X.obs('missing', missing);
      for (const p of s.parts) X.check(X.iff(X.or(...missing.map(x => X.eq(x, p))), X.not(held(e.b, e.sigs, p))), 'the missing signers are exactly the participants whose signature is not held');
      X.check(missing.every(x => s.parts.includes(x)) && new Set(missing).size === missing.length, 'only participants are missing, and once');
      const q = X.addr('anybody'); const d = am.didParticipantSign(e.b, q); X.check(X.iff(d.didSign, held(e.b, e.sigs, q)), 'an address signed exactly if its genuine signature over the block is held');
      if (X.is(d.didSign)) X.check(X.and(X.signed(d.signature, K.enc(X, e.b), q), X.or(...e.sigs.map(x => X.eq(x, d.signature)))), 'the signature returned for an address is its own, over that block');
      const o = am.getOriginalSignature(e.b); X.check(X.signed(o, K.enc(X, e.b), K.hdr(e.b).participant), 'the original signature is the author\'s');
      const ask = X.sig('asked'); X.check(X.iff(am.doesSignatureExist(e.b, ask), X.or(...e.sigs.map(x => X.eq(x, ask)))), 'a signature is known exactly if it is held for that block');
      K.agrees(X, am, s.m, 'queries change nothing');
      // another block of any slot
      const b = K.plain(X, 'other', {}); X.assume(X.not(X.or(K.sameBlock(X, b, e.b), K.sameBlock(X, b, e0.b)))); X.reach('foreign');
      X.check(am.didEveryoneSignBlock(b) === false, 'a block that is not agreed never counts as signed by everyone');
      X.check(am.didParticipantSign(b, q).didSign === false, 'nobody signed a block that is not agreed');
      const before = [...e.sigs]; const r = X.try(() => am.confirmBlock(b, X.sig('late'))); X.check(!r.ok, 'a confirmation of a block that is not agreed is refused'); X.check(X.same([...am.getSigantures(e.b)], before), 'and does not count for the agreed block');
      const sl = am.getLatestSignedBlockByParticipant(0, q); const h1 = held(e.b, e.sigs, q), h0 = held(e0.b, e0.sigs, q);
      X.check(X.iff(!!sl, X.or(h0, h1)), 'a latest signed block is reported exactly for an address that signed'); if (sl) X.check(X.is(h1) ? X.and(K.sameBlock(X, sl.block, e.b), X.signed(sl.signature, K.enc(X, e.b), q)) : X.and(K.sameBlock(X, sl.block, e0.b), X.signed(sl.signature, K.enc(X, e0.b), q)), 'the latest signed block is the newest one the address signed');
    }, { weight: n * k + 1 }));
    jobs.push(job('membership', async X => {
      const s = K.manager(X, { forks: 2, parts: 2, lens: [0, 0] }); const q = X.addr('anybody'); const last = [X.party(2), X.party(3), X.party(4)].slice(0, 1 + X.choose(3, 'size'));
      s.am.newFork(X.blob('g'), last, 2, 1); X.check(X.iff(s.am.isParticipantInLatestFork(q), X.or(...last.map(p => X.eq(p, q)))), 'membership follows the latest fork');
    }));
    // through the node: what a peer sends as a confirmation
    for (const [n, len] of tier === 'thorough' ? [[2, 1], [2, 2], [3, 1], [3, 2]] : [[2, 1], [2, 2], [3, 1]]) jobs.push(job(`node, ${n} participants, ${len} agreed`, async X => {
      const N = node(X, { parts: n, lens: [len], times: { p2pTime: 100, agreementTime: 5, chainFallbackTime: 30, challengeTime: 60 } }); X.nowMs = 7000;
      const b = K.plain(X, 'named', { timestamp: 6n, channelId: X.hash('channel') }); const sb = K.signedAny(X, b, 'namedSig'); const conf = X.sig('conf');
      X.assume(X.not(X.and(K.genuine(X, b, sb.signature), X.eq(K.hdr(b).participant, N.me), X.not(X.or(...N.top.blocks.map(e => K.sameBlock(X, e.b, b))))))); // nobody else signs as this node
      const had = N.top.blocks.map(e => [...e.sigs]); const r = await X.tryAsync(() => N.sm.onBlockConfirmation(sb, conf)); await X.pump(); X.obs('flag', r.ok && r.value); X.check(r.ok, 'handling a confirmation does not fail');
      const grown = N.am.getBlock(0, len) !== undefined; if (grown) { const nb = N.am.getBlock(0, len); X.check(K.sameBlock(X, nb, b), 'only the named block is adopted'); N.top.blocks.push({ b, sigs: [...N.am.getSigantures(b)], state: N.machine.cur }); X.reach('adopted on the way'); }
      const chain = K.hdr(b).channelId; const authentic = X.and(X.eq(chain, K.CH), K.genuine(X, b, sb.signature)); const by = X.or(...N.parts.map(p => X.signed(conf, sb.encodedBlock, p)));
      N.top.blocks.forEach((e, i) => {
        const now = [...N.am.getSigantures(e.b)]; const old = i < len ? had[i] : [sb.signature, ...N.sent.filter(s => s[0] === 'onBlockConfirmation').map(s => s[2])]; const same = K.sameBlock(X, e.b, b);
        for (const g of old.slice(0, 1)) X.check(X.or(...now.map(x => X.eq(x, g))), 'held signatures are kept');
        for (const g of now) X.check(X.or(...old.map(x => X.eq(x, g)), X.and(same, X.eq(g, conf), by, authentic)), 'a confirmation is recorded only if it is a participant\'s genuine signature over that agreed block');
        const fits = X.and(same, authentic, by); X.check(X.implies(fits, X.or(...now.map(x => X.eq(x, conf)))), 'a genuine confirmation of an agreed block is recorded');
        for (let j = 0; j < now.length; j++) for (let k = 0; k < j; k++) X.check(X.not(X.eq(now[j], now[k])), 'a signature is recorded once');
        if (X.is(fits)) X.reach(X.is(X.or(...old.map(x => X.eq(x, conf)))) ? 'known confirmation' : 'new confirmation');
        e.sigs = now;
      });
      K.agrees(X, N.am, N.m, 'afterwards');
    }, { weight: n * len * 2 }));
    const K2 = tier === 'thorough' ? 4 : 3;
    jobs.push(job('collected signatures', async X => {
      const { SignatureCollectionMap } = X.load('@/utils/SignatureCollectionMap'); const c = new SignatureCollectionMap(); const keys = [X.blob('key0'), X.blob('key1')]; X.assume(X.not(X.eq(keys[0], keys[1])));
      const model = [[], []]; const steps = X.choose(K2 + 1, 'insertions');
      for (let i = 0; i < steps; i++) {
        const k = X.choose(2, 'key' + i); const v = { signerAddress: X.addr('signer' + i), signature: X.sig('sig' + i) }; c.tryInsert(keys[k], v);
        if (!model[k].some(x => X.is(X.eq(x.signerAddress, v.signerAddress)))) model[k].push(v);
      }
      if (X.choose(2, 'remove')) { c.remove(keys[0]); model[0] = []; }
      for (const k of [0, 1]) {
        X.check(X.same([...(c.get(keys[k]) || [])], model[k]), 'the first signature of every distinct signer is kept per key');
        const parts = [X.party(0), X.party(1)].slice(0, 1 + X.choose(2, 'asked' + k)); const all = X.and(...parts.map(p => X.or(...model[k].map(x => X.eq(x.signerAddress, p)))));
        const got = c.didEveryoneSign(keys[k], parts); X.obs('everyone' + k, got); X.check(X.iff(got, all), 'everyone signed exactly if each participant is among the collected signers of that key'); if (X.is(all)) X.reach('collected by all');
      }
    }));
    return jobs;
  },
};
