'use strict';
const K = require('../ts/blocks'); const { node } = require('../ts/node');
const job = (name, run, o) => ({ kind: 'ts', name, run, samples: 4, ...o });
module.exports = {
  id: 'T07', level: 'model_checking',
  bounds: { operations: 'up to 3 arrivals mixed with 2 hand-outs in any order (thorough: 4 arrivals)', items: 'arbitrary fork, height, author and content; confirmations with arbitrary signatures', hand_out: 'arbitrary fork and height' },
  outside: ['numbers of 2^53 and more', 'an earlier item of the same author (confirmer) for the same fork and height: the later one replaces it'],
  mustReach: ['handed out', 'kept', 'replaced', 'delivered', 'forged', 'opened'],
  jobs: tier => {
    const jobs = []; const n = tier === 'thorough' ? 4 : 3;
    for (const kind of ['blocks', 'confirmations']) for (let k = 1; k <= n; k++) jobs.push(job(`${k} ${kind}`, async X => {
      const am = new (X.load('@/agreementManager').default)(); let q = []; // model, in order of arrival of the slot
      const other = []; const HIh = 1000n;
      const take = (f, h) => kind === 'blocks' ? am.tryDequeueBlocks(f, h) : am.tryDequeueConfirmations(f, h);
      const handOut = i => {
        const f = X.num('takeFork' + i, HIh), h = X.num('takeHeight' + i, HIh); const got = take(f, h); const hit = e => X.and(X.numEq(K.hdr(e.b).forkCnt, f), X.numEq(K.hdr(e.b).transactionCnt, h));
        const want = q.filter(e => X.is(hit(e))); q = q.filter(e => !want.includes(e)); if (want.length) X.reach('handed out'); if (q.length) X.reach('kept'); X.obs('out' + i, got);
        X.check(got.length === want.length, 'exactly the items queued for the fork and height are handed out');
        for (const e of want) X.check(X.or(...got.map(g => X.same(g, e.item))), 'a queued item is handed out unchanged when its fork and height come up');
        for (const g of got) X.check(X.or(...want.map(e => X.same(g, e.item))), 'only queued items are handed out');
      };
      for (let i = 0; i < k; i++) {
        const b = K.plain(X, 'item' + i, { maxFork: HIh, maxHeight: HIh }); const sb = K.signedAny(X, b, 'itemSig' + i); let who, item;
        if (kind === 'blocks') { am.queueBlock(sb); who = K.hdr(b).participant; item = sb; } else { item = { originalSignedBlock: sb, confirmationSignature: X.sig('confSig' + i) }; am.queueConfirmation(item); who = X.signerOf(sb.encodedBlock, item.confirmationSignature); }
        const j = q.findIndex(e => X.is(X.and(K.sameSlot(X, e.b, b), X.eq(e.who, who)))); if (j >= 0) { q[j] = { b, item, who }; X.reach('replaced'); } else q.push({ b, item, who });
        if (kind === 'blocks') X.check(X.iff(am.queueService.isBlockQueued(b), true), 'a queued block is known as queued');
        if (i < k - 1 && X.choose(2, 'hand out between ' + i)) handOut('m' + i);
      }
      handOut('z'); handOut('y');
      // what is left comes out once, and nothing afterwards
      for (const e of [...q]) { const h = K.hdr(e.b); const f = num(h.forkCnt), t = num(h.transactionCnt); const got = take(f, t); if (q.includes(e)) { X.check(X.or(...got.map(g => X.same(g, e.item))), 'an item that was never handed out is still there'); q = q.filter(x => !X.is(K.sameSlot(X, x.b, e.b))); } X.check(take(f, t).length === 0, 'an item is handed out once'); if (kind === 'blocks') X.check(X.iff(am.queueService.isBlockQueued(e.b), false), 'a block handed out is not queued any more'); }
    }, { weight: k * k }));
    // blocks and confirmations do not mix
    jobs.push(job('independent queues', async X => {
      const am = new (X.load('@/agreementManager').default)(); const b = K.plain(X, 'item', {}); const sb = K.signedAny(X, b, 'itemSig'); const c = { originalSignedBlock: sb, confirmationSignature: X.sig('confSig') };
      am.queueBlock(sb); am.queueConfirmation(c); const f = num(K.hdr(b).forkCnt), h = num(K.hdr(b).transactionCnt);
      const first = X.choose(2, 'first'); if (first) { X.check(X.same([...am.tryDequeueConfirmations(f, h)], [c]), 'the confirmation comes out'); X.check(X.same([...am.tryDequeueBlocks(f, h)], [sb]), 'the block comes out'); } else { X.check(X.same([...am.tryDequeueBlocks(f, h)], [sb]), 'the block comes out'); X.check(X.same([...am.tryDequeueConfirmations(f, h)], [c]), 'the confirmation comes out'); }
    }));
    // through the node: whatever the order of arrival, everything valid ends up in the agreed chain
    const sets = [['b0', 'c0'], ['b0', 'b1'], ['b0', 'b1', 'c1'], ['b0', 'c0', 'd0'], ['b0', 'b1', 'c0', 'c1'], ['s1', 'f0'], ['s1', 'f0', 'g0'], ['s1', 'f0', 'f1'], ['s0', 'b0'], ['s0', 'b0', 'x0'], ['s0', 'b0', 'c0'], ['s0', 'b0', 'c0', 'y0']]; if (tier === 'thorough') sets.push(['b0', 'b1', 'b2'], ['b0', 'b1', 'c0', 'c1', 'd1'], ['s1', 'f0', 'f1', 'g1'], ['b0', 'b1', 'x1'], ['s0', 'b0', 'b1', 'x1'], ['s0', 's1', 'b0', 'f0'], ['s0', 'b0', 'b1', 'c1']);
    for (const set of sets) for (const gated of [false, true]) if (!gated || set.length < (tier === 'thorough' && !set.includes('s0') ? 4 : 3)) jobs.push(job(`node receives ${set.join(', ')}${gated ? ', interleaved' : ''}`, async X => {
      const gates = []; const shut = set.includes('s0'); const N = node(X, { parts: 3, lens: shut ? undefined : [0], machine: { gate: w => gated && w === 'stateTransition' ? new Promise(r => gates.push(r)) : null }, times: { p2pTime: 100, agreementTime: 5, chainFallbackTime: 30, challengeTime: 60 } }); X.nowMs = 7000;
      const fork1 = X.blob('fork1 genesis'), fork0 = shut ? X.blob('genesis') : N.machine.cur; const chains = [{ pre: fork0, blocks: [] }, { pre: fork1, blocks: [] }]; const forged = []; const coder = X.eth.AbiCoder.defaultAbiCoder();
      const mk = (f, h) => { const c = chains[f]; for (let i = c.blocks.length; i <= h; i++) { const pre = i ? c.blocks[i - 1].next : c.pre, a = 1 + i % 2, next = X.blob(`after ${f}.${i}`); const b = K.plain(X, `block ${f}.${i}`, { forkCnt: BigInt(f), transactionCnt: BigInt(i), participant: X.party(a), timestamp: 6n, encodedData: '0x' + (f * 16 + i + 1).toString(16).padStart(2, '0'), previousStateHash: X.eth.keccak256(pre), stateHash: X.eth.keccak256(next) }); c.blocks.push({ b, next, a, pre, sb: K.signedBy(X, b, a), want: [] }); } return c.blocks[h]; };
      const all = set.map(m => { const f = 'bcdxy'.includes(m[0]) ? 0 : 1, h = Number(m[1]); if (m[0] === 's') return () => m === 's0' ? N.sm.setState(fork0, 0n, 5n) : N.sm.setState(fork1, 1n, 6n); const e = mk(f, h); e.used = true; if ('bf'.includes(m[0])) return () => N.sm.onSignedBlock(e.sb);
        // somebody else's bytes under the name of the author
        if (m[0] === 'x' || m[0] === 'y') { const sig = X.sig('forged'); X.assume(X.not(X.signed(sig, e.sb.encodedBlock, X.party(e.a)))); const fake = { encodedBlock: e.sb.encodedBlock, signature: sig }; forged.push(1); return () => X.tryAsync(() => m[0] === 'x' ? N.sm.onSignedBlock(fake) : N.sm.onBlockConfirmation(fake, X.signBytes(3 - e.a, e.sb.encodedBlock))); }
        const who = m[0] === 'd' ? 0 : 3 - e.a; const sig = m[0] === 'd' ? X.sig('any') : X.signBytes(who, e.sb.encodedBlock); e.want.push(m[0] === 'd' ? null : sig); return () => N.sm.onBlockConfirmation(e.sb, sig); });
      const states = [chains[0].pre, fork1]; for (const c of chains) for (const e of c.blocks) { states.push(e.next); N.machine.table.push({ s: e.pre, t: coder.encode([K.TX], [e.b.transaction]), ok: true, next: e.next }); N.machine.turns.push({ s: e.pre, who: X.party(e.a) }); }
      for (let i = 0; i < states.length; i++) for (let j = 0; j < i; j++) X.assume(X.not(X.eq(states[i], states[j]))); for (const c of chains) { const l = c.blocks.length; N.machine.turns.push({ s: l ? c.blocks[l - 1].next : c.pre, who: X.party(0) }); }
      const soon = () => X.liveTimers().filter(t => t.delay === 0); const ends = []; const left = [...all];
      for (;;) {
        await X.pump(); const ts = soon(); const can = left.length + (ts.length ? 1 : 0) + gates.length; if (!can) break; const k = X.choose(can, 'next');
        if (left[k] === all[set.indexOf('s1')] && left.includes(all[set.indexOf('s0')])) return; // events come in their order
        if (k < left.length) { const op = left.splice(k, 1)[0]; ends.push(X.tryAsync(op)); } else if (k < left.length + gates.length) gates.splice(k - left.length, 1)[0](); else X.fire(ts[0]);
      }
      for (const r of await Promise.all(ends)) X.check(r.ok, 'handling an early message does not fail');
      const last = all.length && set.includes('s1') ? 1 : 0; const c = chains[last].blocks; let h = 0;
      for (const e of c) { if (!e.used) break; const got = N.am.getBlock(last, h); X.check(got !== undefined && X.is(K.sameBlock(X, got, e.b)), 'a valid block is adopted whatever the order of arrival'); const sigs = [...N.am.getSigantures(e.b)]; for (const w of e.want) if (w) X.check(X.or(...sigs.map(g => X.signed(g, e.sb.encodedBlock, X.party(3 - e.a)))), 'a valid confirmation is recorded whatever the order of arrival'); h++; }
      X.reach('delivered'); if (forged.length) X.reach('forged'); if (shut) X.reach('opened'); X.check(X.eq(N.machine.cur, N.tip()), 'the machine is at the agreed state');
    }, { weight: set.length * 3 + gated }));
    return jobs;
  },
};
const V = require('../ts/values');
const num = x => typeof x === 'bigint' ? Number(x) : V.num(x.t);
