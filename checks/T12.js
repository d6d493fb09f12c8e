'use strict';
const K = require('../ts/blocks'); const { node } = require('../ts/node');
const T0 = 1000000; const TIMES = { p2pTime: 15, agreementTime: 5, chainFallbackTime: 30, challengeTime: 60 }; const WAIT = 50;
module.exports = {
  id: 'T12', level: 'model_checking',
  bounds: { participants: '2..3, anybody next to act', history: 'a fork opened by the chain, then up to 2 events (thorough: 3): the awaited block, a posting by another participant for this or the next height, a new fork', interleavings: 'every order of events, timers and answers of the contract; a posting lookup may be answered late', times: 'fork, block and posting times arbitrary within 100 s of the clock' },
  outside: ['events of the chain that are not delivered to the node', 'timers that fire early', 'more than one late answer', 'states that repeat', 'blocks authored by the node itself while a timeout is being decided (T09)'],
  mustReach: ['timeout raised', 'no timeout', 'block arrived', 'posting arrived', 'fork replaced', 'found on chain', 'waited longer'],
  jobs: tier => {
    const jobs = []; const kinds = ['block', 'posting', 'fork']; const sets = [[]]; for (const a of kinds) { sets.push([a]); for (const b of kinds) if (!(a === 'fork' && b === 'fork')) { sets.push([a, b]); } }
    if (tier === 'thorough') for (const a of kinds) for (const b of kinds) for (const c of kinds) if (new Set([a, b, c]).size > 1) sets.push([a, b, c]);
    for (const n of [2, 3]) for (const ev of sets) if (n === 2 || ev.length < (tier === 'thorough' ? 3 : 2)) jobs.push({ kind: 'ts', samples: 3, weight: ev.length * 4 + n, name: `${ev.join(', ') || 'nothing'} happens, ${n} participants`, run: async X => {
      const me = 0; const lookups = []; const raised = []; const posted = []; const found = [], asked = []; let N; let late = 0;
      const turnOf = s => N.machine.turn(s);
      const verdicts = []; const ought = (c, m) => verdicts.push([c, m]); // judged at the end: the node catches errors
      const judge = args => {
        const who = args[5]; if (X.is(X.eq(who, K.ZERO))) return; const f = N.am.getLatestForkCnt(), h = N.am.getNextBlockHeight();
        ought(X.is(X.numEq(args[1], f)), 'a timeout concerns the current fork'); ought(X.is(X.numEq(args[6], h)), 'a timeout concerns the awaited height'); ought(X.not(X.eq(who, N.me)), 'a node does not time itself out'); ought(X.eq(who, turnOf(N.tip())), 'a timeout concerns the participant next to act');
        const mine = posted.filter(p => p.f === f); for (const p of mine) ought(X.not(X.and(X.numEq(p.h, h), X.eq(p.who, who))), 'no timeout after the block was posted');
        ought(found.some(q => !q.found && q.f === f && q.h === h && X.is(X.eq(q.who, who))), 'the contract was asked for a posting');
        let latest = N.am.getBlock(f, h - 1) ? X.num0(K.hdr(N.am.getBlock(f, h - 1)).timestamp) : N.start[f]; for (const p of mine) if (p.h <= h) latest = X.max(latest, p.t);
        ought(X.ge(X.floor(X.div(X.nowMs, 1000)), X.add(latest, WAIT)), 'no timeout before the full window has passed'); raised.push({ f, h });
      };
      X.nowMs = T0 * 1000;
      N = node(X, { me, parts: n, lens: [0], genesisAt: T0 - 500, times: TIMES, machine: { turns: n }, contract: {
        createDispute: async (...a) => { judge(a); return { hash: '0x', wait: async () => ({}) }; }, getDispute: async () => ({ channelId: K.CH, forkCnt: BigInt(N.am.getLatestForkCnt()), challengeCnt: 0n, slashedParticipants: [], virtualVotingBlocks: [], foldedTransactionCnt: 0n, timedoutParticipant: K.ZERO, postedStateDisputer: N.me, timeoutDisputer: K.ZERO }),
        getBlockCallData: async (c, f, h, who) => { const q = { f: Number(f), h: Number(h), who, found: asked.some(q => q.found && q.f === Number(f) && q.h === Number(h) && X.is(X.eq(q.who, who))) || X.choose(2, 'found') === 1 }; asked.push(q); if (late < 1 && X.choose(2, 'answered late')) { late++; await new Promise(r => lookups.push(r)); } found.push(q); if (q.found) X.reach('found on chain'); return { found: q.found }; },
        getChainLatestBlockTimestamp: async () => 0n } });
      N.start = [T0 - 500]; let forks = 0; const time = l => { const t = X.num(l, BigInt(T0 + 100), BigInt(T0 - 100)); return t; };
      const states = [N.tip()]; const fresh = l => { const b = X.blob(l); for (const s of states) X.assume(X.not(X.eq(s, b))); states.push(b); return b; };
      const open = () => { forks++; const t = time('fork time' + forks); N.start[forks] = t; const p = N.sm.setState(fresh('fork' + forks), BigInt(forks), X.bigOf(t)); N.start[forks] = t; return p; };
      await open(); await X.pump(4); let own = 0;
      const event = async (k, i) => {
        const f = N.am.getLatestForkCnt(), h = N.am.getNextBlockHeight(); const pre = N.tip();
        if (k === 'fork') { await open(); X.reach('fork replaced'); return; }
        if (k === 'posting') { const a = 1 + (n > 2 ? X.choose(n - 1, 'poster') : 0), dh = X.choose(2, 'posted height'); const t = time('posted' + i); if (posted.some(p => p.f === f && p.h === h + dh && X.is(X.eq(p.who, X.party(a))))) return; const b = K.plain(X, 'posted' + i, { forkCnt: BigInt(f), transactionCnt: BigInt(h + dh), participant: X.party(a), timestamp: BigInt(T0), encodedData: '0x77', previousStateHash: X.eth.keccak256(pre) }); posted.push({ f, h: h + dh, who: X.party(a), t }); X.reach('posting arrived'); X.try(() => N.sm.collectOnChainBlock(K.signedBy(X, b, a), X.bigOf(t))); return; }
        const who = turnOf(pre); const a = [...Array(n).keys()].find(j => X.is(X.eq(who, X.party(j)))); if (a === undefined || a === me) return;
        const next = fresh('after' + i); const t = X.big('block time' + i, BigInt(T0 + 200)); const b = K.plain(X, 'block' + i, { forkCnt: BigInt(f), transactionCnt: BigInt(h), participant: who, timestamp: t, encodedData: '0x5' + i, previousStateHash: X.eth.keccak256(pre), stateHash: X.eth.keccak256(next) });
        N.machine.table.push({ s: pre, t: K.encTx(X, b.transaction), ok: true, next });
        await X.tryAsync(() => N.sm.onSignedBlock(K.signedBy(X, b, a))); if (N.am.getBlock(f, h)) X.reach('block arrived');
      };
      const left = [...ev]; let rounds = 0; const quiet = () => X.liveTimers().filter(t => t.delay === 0);
      for (;;) {
        for (const t of quiet()) { X.fire(t); await X.pump(2); } await X.pump(2);
        const ts = X.liveTimers(); const can = (left.length ? 1 : 0) + (lookups.length ? 1 : 0) + (ts.length ? 1 : 0); if (!can || rounds > 10) break;
        let k = X.choose(can, 'next'); if (left.length && k-- === 0) { const e = left.shift(); await event(e, ev.length - left.length); await X.pump(4); continue; }
        if (lookups.length && k-- === 0) { lookups.shift()(); await X.pump(6); continue; }
        rounds++; const t = ts[0]; const due = X.add(t.at, t.delay); X.nowMs = X.max(X.nowMs, due); X.fire(t); await X.pump(6);
      }
      await X.pump(6); if (rounds > 2) X.reach('waited longer'); X.obs('raised', raised.length); X.obs('unhandled', X.unhandled.map(e => String(e && e.message || e))); for (const [c, m] of verdicts) X.check(c, m); X.check(X.unhandled.length === 0, 'nothing fails in the background');
      const f = N.am.getLatestForkCnt(), h = N.am.getNextBlockHeight(); const who = turnOf(N.tip()); const hit = raised.some(r => r.f === f && r.h === h); X.reach(hit ? 'timeout raised' : 'no timeout');
      if (!hit && rounds <= 10) X.check(X.or(X.eq(who, N.me), posted.some(p => p.f === f && p.h === h && X.is(X.eq(p.who, who))), found.some(q => q.found && q.f === f && q.h === h && X.is(X.eq(q.who, who))), N.sm.disputeHandler.isForkDisputed(f)), 'a participant who does not act is timed out in the end');
    } });
    return jobs;
  },
};
