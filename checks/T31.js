'use strict';
const K = require('../ts/blocks'); const { node } = require('../ts/node');
const EVENTS = ['SetState', 'BlockCalldataPosted', 'DisputeUpdated']; const TIMES = { p2pTime: 15, agreementTime: 5, chainFallbackTime: 30, challengeTime: 60 }; const T0 = 1000000;
const job = (name, run, o) => ({ kind: 'ts', name, run, samples: 4, ...o });
// the contract object: subscribing and unsubscribing take effect when they complete; ending one ends all of the same event and channel
function chain(X, gated) {
  const C = { subs: [], waiting: [] }; const step = async fn => { if (gated()) { const d = X.deferred(); C.waiting.push(d.resolve); await d.promise; } else await null; fn(); return C.contract; };
  C.contract = { filters: Object.fromEntries(EVENTS.map(event => [event, channel => ({ event, channel })])), on: (f, cb) => step(() => C.subs.push({ f, cb })), off: (f, cb) => step(() => { C.subs = C.subs.filter(s => !(s.f.event === f.event && X.is(X.eq(s.f.channel, f.channel)) && (!cb || s.cb === cb))); }), removeAllListeners: () => step(() => { C.subs = []; }) };
  // the callbacks are called without being waited for: what they fail with nobody catches
  C.emit = (event, channel, args) => { for (const s of [...C.subs]) if (s.f.event === event && X.is(X.eq(s.f.channel, channel))) { try { s.cb({ args }); } catch (e) { if (X.abortive(e)) throw e; } } };
  return C;
}
// a node over that contract
async function setup(X, o = {}) {
  X.nowMs = T0 * 1000; const N = node(X, { lens: [1], parts: 2, me: 0, genesisAt: T0 - 500, times: TIMES, block: (X, l, v) => K.plain(X, l, { ...v, timestamp: BigInt(T0 - 100) }), ...o }); N.emit = (event, args) => { const f = N.filters.filter(s => s.f.event === event); X.check(f.length === 1, 'set-up'); try { f[0].cb({ args }); } catch (e) { if (X.abortive(e)) throw e; } }; await X.pump(2); return N;
}
const settle = async X => { for (let i = 0; i < 4; i++) { await X.pump(3); for (const t of X.liveTimers().filter(t => t.delay === 0)) X.fire(t); } await X.pump(3); };
module.exports = {
  id: 'T31', level: 'model_checking',
  bounds: { subscriptions: '2 (thorough: 3) switches to arbitrary channels, a disposal at the end or before the last one or not, one event of any kind and channel before, between or after', timing: 'every order in which subscribing, unsubscribing, switches and the event take effect', hooks: 'every hook given at first or later, failing at once or later or not', failures: 'each call into the state machine failing while an event is handled' },
  outside: ['subscribing fails', 'a node that has left an open channel for another one', 'events emitted while no subscription is in effect yet'],
  mustReach: ['switched while switching', 'disposed while switching', 'delivered', 'kept away', 'hook failed', 'hook replaced', 'call failed', 'timer after disposal'],
  jobs: tier => {
    const jobs = []; const most = tier === 'thorough' ? 3 : 2;
    for (let n = 1; n <= most; n++) for (const end of [false, true]) for (const event of EVENTS) jobs.push(job(`${n} channel(s)${end ? ', disposed' : ''}, ${event}`, async X => {
      let gates = true; const C = chain(X, () => gates); const got = []; const sink = k => (...a) => { got.push([k, ...a]); }; const L = X.load('@/StateChannelEventListener').default;
      const sm = { channel: undefined, getChannelId() { return this.channel; }, p2pEventHooks: {}, setState: sink('SetState'), collectOnChainBlock: sink('BlockCalldataPosted'), onDisputeUpdate: sink('DisputeUpdated') }; const l = new L(sm, C.contract, {}); const chans = [X.hash('channel0'), X.hash('channel1'), X.hash('channel2')].slice(0, n); const ops = chans.map((_, i) => ['switch', i]); if (end) ops.splice(X.choose(2, 'disposed before the last switch') ? n - 1 : n, 0, ['dispose']);
      const values = { encodedState: X.blob('state'), forkCnt: X.big('fork'), timestamp: X.big('time'), signedBlock: { encodedBlock: X.blob('block'), signature: X.sig('sig') }, dispute: { id: X.hash('dispute') } }; const want = { SetState: ['encodedState', 'forkCnt', 'timestamp'], BlockCalldataPosted: ['signedBlock', 'timestamp'], DisputeUpdated: ['dispute'] }[event];
      let emitted = false, disposed = false; const runs = []; const where = X.hash('where'); const right = () => !disposed && sm.channel !== undefined && X.is(X.eq(where, sm.channel));
      const fire = async quiet => { emitted = true; const should = right(); const before = got.length; C.emit(event, where, values); await X.pump(1); const n = got.length - before; X.check(n <= 1, 'an event is handled once'); if (n) X.check(should, 'only events of the current channel are handled'); if (quiet) X.check(n === (should ? 1 : 0), 'an event of the current channel is handled'); X.reach(n ? 'delivered' : 'kept away');
        if (n) { const [k, ...a] = got[before]; X.check(k === event && want.every((w, i) => a[i] === values[w] || X.is(X.eq(a[i], values[w]))), 'with its values'); } };
      for (let guard = 0; guard < 60; guard++) {
        await X.pump(1); const opts = []; if (ops.length) opts.push('op'); if (C.waiting.length) opts.push('complete'); if (!emitted && (C.waiting.length === 0 || ops.length === 0)) opts.push('event'); if (!opts.length) break;
        const k = opts[X.choose(opts.length, 'next')]; if (k === 'event') { await fire(!C.waiting.length); continue; }
        if (k === 'complete') { C.waiting.shift()(); continue; }
        const [what, i] = ops.shift(); if (C.waiting.length) X.reach(what === 'switch' ? 'switched while switching' : 'disposed while switching'); if (what === 'switch') { sm.channel = chans[i]; runs.push(X.tryAsync(() => l.setChannelId(chans[i]))); } else { disposed = true; runs.push(X.tryAsync(() => l.dispose())); }
      }
      X.check(C.waiting.length === 0 && !ops.length, 'set-up'); for (const r of runs) X.check((await r).ok, 'switching does not fail'); X.obs('subscriptions', C.subs.length); gates = false;
      X.check(C.subs.length === (disposed ? 0 : EVENTS.length), 'exactly one subscription for each event is left'); for (const e of disposed ? [] : EVENTS) X.check(C.subs.filter(s => s.f.event === e && X.is(X.eq(s.f.channel, sm.channel))).length === 1, 'the subscriptions left are those of the current channel'); X.check(X.unhandled.length === 0, 'nothing fails in the background');
    }, { weight: n * 3 }));
    // hooks: what the application does in them is none of the node's business
    const HOOKS = ['onTurn', 'onSetState', 'onPostedCalldata', 'onPostingCalldata', 'onInitiatingDispute', 'onDisputeUpdate', 'onConnection'];
    const mkHooks = (X, list, mode) => Object.fromEntries(HOOKS.map(h => [h, (...a) => { list.push([h, ...a]); if (mode === 1) throw new Error('hook'); if (mode === 2) return Promise.reject(new Error('hook later')); }]));
    for (const later of [false, true]) for (const mode of [0, 1, 2]) {
      const start = async (X, o = {}) => { const first = [], second = []; const N = await setup(X, { hooks: mkHooks(X, first, later ? 0 : mode), ...o }); if (later) { N.sm.setP2pEventHooks(mkHooks(X, second, mode)); X.reach('hook replaced'); } if (mode) X.reach('hook failed'); N.told = later ? second : first; N.untold = later ? first : []; return N; };
      const done = async (X, N, ...names) => { await settle(X); for (const n of names) X.check(N.told.some(t => t[0] === n), 'the hook is called: ' + n); X.check(N.told.every(t => [...names, ...(N.also || [])].includes(t[0])), 'no other hook is called'); X.check(N.untold.length === 0, 'hooks that were replaced are not called'); X.check(X.unhandled.length === 0, 'a failing hook is contained'); X.check(!N.locked(), 'the node is not left locked'); X.obs('told', N.told.map(t => t[0])); };
      const name = `${later ? 'later ' : ''}hooks that ${['work', 'throw', 'reject'][mode]}`;
      jobs.push(job(`${name}: a new state`, async X => { const N = await start(X); const t = X.num('time', BigInt(T0), BigInt(T0 - 200)); const s = X.blob('state'); N.emit('SetState', { encodedState: s, forkCnt: 1n, timestamp: X.bigOf(t) }); await done(X, N, 'onSetState', 'onTurn'); X.check(N.am.getLatestForkCnt() === 1 && X.eq(N.am.getForkGenesisStateEncoded(1), s) && X.eq(N.machine.cur, s), 'the new state is in effect'); X.check(X.liveTimers().some(t => t.delay > 0), 'the next participant is watched'); }));
      jobs.push(job(`${name}: a posting`, async X => { const N = await start(X); const b = K.plain(X, 'posted', { forkCnt: 0n, transactionCnt: 1n, participant: X.party(1), timestamp: BigInt(T0 - 50), previousStateHash: X.eth.keccak256(N.tip()) }); N.also = ['onInitiatingDispute']; const sb = K.signedBy(X, b, 1); const t = X.num('time', BigInt(T0), BigInt(T0 - 200)); N.emit('BlockCalldataPosted', { signedBlock: sb, timestamp: X.bigOf(t) }); await done(X, N, 'onPostedCalldata', 'onTurn'); X.check(N.am.didParticipantPostOnChain(0, 1, X.party(1)), 'the posting is recorded'); X.check(X.numEq(N.am.getChainLatestBlockTimestamp(0, 1), t), 'with its time'); }));
      jobs.push(job(`${name}: a dispute`, async X => { const N = await start(X); const b = N.top.blocks[0]; const d = { channelId: K.CH, forkCnt: 0n, challengeCnt: 0n, slashedParticipants: [], virtualVotingBlocks: [{ encodedBlock: K.enc(X, b.b), signatures: b.sigs }], encodedLatestFinalizedState: N.top.genesis, encodedLatestCorrectState: b.state, foldedTransactionCnt: 0n, timedoutParticipant: K.ZERO, postedStateDisputer: X.party(1), timeoutDisputer: K.ZERO, proofs: [] }; N.emit('DisputeUpdated', { dispute: d }); await done(X, N, 'onDisputeUpdate'); X.check(N.sm.disputeHandler.isForkDisputed(0), 'the fork is frozen'); X.check(N.told.find(t => t[0] === 'onDisputeUpdate')[1] === d, 'the hook gets the dispute'); }));
      jobs.push(job(`${name}: a timeout`, async X => { const N = await start(X); N.emit('SetState', { encodedState: X.blob('state'), forkCnt: 1n, timestamp: BigInt(T0 - 1) }); N.also = ['onSetState', 'onTurn']; await settle(X); if (!X.is(X.eq(N.machine.turn(N.machine.cur), X.party(1)))) return; for (const t of X.liveTimers()) { X.nowMs += 100000; X.fire(t); await X.pump(6); } await done(X, N, 'onInitiatingDispute'); X.check(N.calls('createDispute').length === 1, 'the dispute is raised'); }));
      jobs.push(job(`${name}: a block`, async X => {
        const N = await start(X, { machine: { turns: 2 } }); const pre = N.tip(), next = X.blob('next'); N.machine.turns.unshift({ s: pre, who: N.me }); const tx = { header: { channelId: K.CH, participant: N.me, forkCnt: 0n, transactionCnt: 1n, timestamp: BigInt(T0) }, body: { transactionType: 0n, encodedData: '0x', data: '0x77' } }; N.machine.table.unshift({ s: pre, t: K.encTx(X, tx), ok: true, next }); X.assume(X.not(X.eq(pre, next)));
        const r = await X.tryAsync(() => N.sm.playTransaction(tx)); X.check(r.ok, 'the block is authored'); await settle(X); for (const t of X.liveTimers()) if (t.delay === TIMES.agreementTime * 1000) X.fire(t); await done(X, N, 'onTurn', 'onPostingCalldata'); X.check(N.calls('postBlockCalldata').length === 1, 'the block is posted'); X.check(N.am.getBlock(0, 1) !== undefined, 'the block is agreed to');
      }));
    }
    // calls into the machine that fail while an event is handled
    for (const event of EVENTS) jobs.push(job(`${event}, a call fails`, async X => {
      let armed = false, count = 0, at = 0; const N = await setup(X, { machine: { fault: () => armed && count++ === at } }); at = X.choose(3, 'failing call'); armed = true; const b = K.plain(X, 'posted', { forkCnt: 0n, transactionCnt: 1n, participant: X.party(1), timestamp: BigInt(T0 - 50), previousStateHash: X.eth.keccak256(N.tip()) });
      N.emit(event, { encodedState: X.blob('state'), forkCnt: 1n, timestamp: BigInt(T0), signedBlock: K.signedBy(X, b, 1), dispute: { channelId: K.CH, forkCnt: 0n, challengeCnt: 0n, slashedParticipants: [], virtualVotingBlocks: [{ encodedBlock: K.enc(X, N.top.blocks[0].b), signatures: N.top.blocks[0].sigs }], encodedLatestFinalizedState: N.top.genesis, encodedLatestCorrectState: N.top.blocks[0].state, foldedTransactionCnt: 0n, timedoutParticipant: K.ZERO, postedStateDisputer: X.party(1), timeoutDisputer: K.ZERO, proofs: [] } });
      await settle(X); if (count > at) X.reach('call failed'); armed = false; X.check(X.unhandled.length === 0, 'a failing call is contained'); X.check(!N.locked(), 'the node is not left locked'); X.obs('calls', count);
      if (event === 'BlockCalldataPosted') X.check(N.am.didParticipantPostOnChain(0, 1, X.party(1)), 'the posting is recorded'); if (event === 'DisputeUpdated') X.check(N.sm.disputeHandler.isForkDisputed(0), 'the fork is frozen');
    }));
    // once disposed, a node leaves the others alone
    for (const when of ['before', 'during']) jobs.push(job(`disposed ${when} the check of a timeout`, async X => {
      let open; const N = await setup(X, { contract: { getBlockCallData: async () => { if (when === 'during') await new Promise(r => { open = r; }); return { found: false }; } } }); N.emit('SetState', { encodedState: X.blob('state'), forkCnt: 1n, timestamp: X.bigOf(X.num('time', BigInt(T0), BigInt(T0 - 200))) }); await settle(X); X.check(X.liveTimers().length > 0, 'set-up');
      const gone = () => X.tryAsync(() => N.sm.dispose()); if (when === 'before') await gone(); X.nowMs += 1000000; for (const t of X.liveTimers()) { X.fire(t); await X.pump(4); } if (when === 'during') await gone(); if (open) open(); await X.pump(6); X.reach('timer after disposal');
      X.check(N.calls('createDispute').length === 0, 'a disposed node raises no timeout'); X.check(N.filters.length === 0, 'a disposed node is not subscribed'); X.check(X.unhandled.length === 0, 'nothing fails in the background');
    }));
    return jobs;
  },
};
