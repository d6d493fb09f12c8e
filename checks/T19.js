'use strict';
const K = require('../ts/blocks'); const { net } = require('../ts/net');
const T0 = 1000000; const job = (name, run, o) => ({ kind: 'ts', name, run, samples: 3, ...o });
const PUBLIC = ['onInitHandshakeRequest', 'onInitHandshakeResponse', 'onOfferWebRTC', 'onAnswerWebRTC', 'onIceCandidate', 'onSignJoinChannelTEST', 'onCanJoinLeaderRequest', 'onCanJoinLeaderResponse', 'onJoinChannelRequest', 'onSignedBlock', 'onBlockConfirmation'];
const ODD = [null, 7, 'zz', '0x', '0x12', {}, [], true, undefined];
const setup = (X, n = 2, o = {}) => { X.nowMs = T0 * 1000; const N = net(X, { ...o, me: 0, parts: n, lens: [0], genesisAt: T0 - 5, times: { p2pTime: 100, agreementTime: 5, chainFallbackTime: 30, challengeTime: 60 } }); N.c = N.connect(); return N; };
// a valid next block of party 1 and its state
function next(X, N, l = 'probe') { const pre = N.tip(), st = X.blob(l + ' state'), h = N.am.getNextBlockHeight(); const b = K.plain(X, l, { forkCnt: 0n, transactionCnt: BigInt(h), participant: X.party(1), timestamp: BigInt(T0 + h), encodedData: '0x71', previousStateHash: X.eth.keccak256(pre), stateHash: X.eth.keccak256(st) }); N.machine.table.unshift({ s: pre, t: K.encTx(X, b.transaction), ok: true, next: st }); N.machine.turns.unshift({ s: pre, who: X.party(1) }); N.machine.turns.unshift({ s: st, who: X.party(1) }); return { b, s: K.signedBy(X, b, 1) }; }
async function probe(X, N) { // the next message is handled
  const h = N.am.getNextBlockHeight(); const q = next(X, N); const n = N.c.out.length; N.deliver(N.c, { method: 'onSignedBlock', params: [q.s] }); await X.pump(4);
  X.check(!N.locked(), 'the node is not left locked'); X.check(N.am.getBlock(0, h) !== undefined, 'a later valid message is handled'); const out = N.c.out.slice(n).map(m => m.method); X.check(out.includes('onBlockConfirmation') && out.includes('onSignedBlock'), 'and answered and passed on');
}
module.exports = {
  id: 'T19', level: 'model_checking',
  bounds: { names: 'every property name the dispatching object has or inherits, and unknown ones', parameters: 'lists of arbitrary values, and all other JSON kinds', contents: 'blocks and signatures of the wrong kind, undecodable or arbitrary; arbitrary signers', sequences: '1 (thorough: 2) malformed messages, then a valid one; garbage before, between and after queued confirmations of 2 (thorough: 3) participants' },
  outside: ['messages that are not text', 'several messages run together in one chunk of a stream'],
  mustReach: ['invoked', 'ignored', 'malformed', 'undecodable', 'probe', 'queued garbage', 'all counted', 'failed later', 'all went well'],
  jobs: tier => {
    const jobs = []; const deep = tier === 'thorough';
    jobs.push(job('dispatch', async X => {
      const N = setup(X); const S = N.net.localRpcService; const calls = [];
      for (const k of Object.keys(S)) { const o = S[k]; if (o && typeof o === 'object' && o !== N.net && !/proxy|transport|self|manager/i.test(k)) for (const m of Object.getOwnPropertyNames(Object.getPrototypeOf(o))) if (m !== 'constructor') o[m] = (...a) => { calls.push([m, a]); return Promise.resolve(); }; }
      const names = new Set(['', 'unknown', 'toJSON', 'then', 'prototype']); for (let o = S; o; o = Object.getPrototypeOf(o)) for (const k of Object.getOwnPropertyNames(o)) names.add(k); const list = [...names].sort();
      const m = X.oneOf(list, 'name'); const k = X.choose(8, 'kind'); const a = X.num('argument'), b = X.blob('text'); const params = [[a, b], [], [null, { a: b }], 'ab', 5, { length: 1, 0: a }, null, undefined][k]; const before = N.c.out.length;
      const msg = k === 7 ? { method: m } : { method: m, params }; const r = X.try(() => N.deliver(N.c, msg)); await X.pump(2); X.obs('calls', calls.map(c => c[0]));
      X.check(r.ok, 'no message makes the receiver fail'); X.check(N.c.out.length === before, 'nothing is sent'); const want = PUBLIC.includes(m) && Array.isArray(params);
      X.check(calls.length === (want ? 1 : 0), 'exactly a public method with a list of arguments is invoked'); if (want) { X.check(calls[0][0] === m, 'the named one'); const got = calls[0][1]; X.check(params.length === 0 ? got.every(x => x === undefined) : params.every((x, i) => i < got.length ? X.is(X.same(got[i], x)) : true), 'with its own arguments'); X.reach('invoked'); } else X.reach('ignored');
      X.check(X.unhandled.length === 0, 'nothing fails in the background');
    }, { weight: 6 }));
    jobs.push(job('not a message', async X => { const N = setup(X); const raw = X.oneOf(['', '{', 'null', '[]', '7', '"onSignedBlock"', '{}', '{"method":5,"params":[]}', '{"params":[1]}', '[{"method":"onCanJoinLeaderRequest","params":[]}]'], 'text'); const r = X.try(() => N.deliver(N.c, undefined, raw)); await X.pump(2); X.check(r.ok && X.unhandled.length === 0, 'text that is no message is ignored'); await probe(X, N); X.reach('probe'); }));
    const bad = {
      onInitHandshakeRequest: (X, i) => [X.oneOf([...ODD, 'blob'], 'challenge' + i), X.oneOf([T0, ...ODD], 'time' + i)].map(v => v === 'blob' ? X.blob('challenge' + i) : v),
      onInitHandshakeResponse: (X, i) => [X.oneOf(ODD, 'signature' + i), T0, X.oneOf([0, ...ODD], 'transport' + i)],
      onOfferWebRTC: (X, i) => [X.oneOf(ODD, 'offer' + i)], onAnswerWebRTC: (X, i) => [X.oneOf(ODD, 'answer' + i)], onIceCandidate: (X, i) => [X.oneOf(ODD, 'candidate' + i)],
      onSignJoinChannelTEST: (X, i) => [X.oneOf(ODD, 'join' + i), X.oneOf(ODD, 'joinSig' + i)], onCanJoinLeaderRequest: () => [], onCanJoinLeaderResponse: (X, i) => [X.oneOf(ODD, 'channel' + i), X.oneOf(ODD, 'list' + i)],
      onJoinChannelRequest: (X, i) => [X.choose(2, 'object' + i) ? { encodedJoinChannel: value(X, 'join' + i), signature: value(X, 'joinSig' + i) } : X.oneOf(ODD, 'join' + i), X.oneOf(ODD, 'confirmation' + i)],
      onSignedBlock: (X, i) => [odd(X, i)], onBlockConfirmation: (X, i) => { const k = X.choose(2, 'block is odd' + i); return k ? [odd(X, i), X.sig('conf' + i)] : [K.signedBy(X, K.plain(X, 'other' + i, { participant: X.party(1) }), 1), value(X, 'confSig' + i)]; },
    };
    const value = (X, l) => { const v = X.oneOf([...ODD, 'blob', 'sig'], l); return v === 'blob' ? X.blob(l) : v === 'sig' ? X.sig(l) : v; };
    // blocks that are no blocks: wrong kinds, undecodable bytes, a decodable one with an odd signature, one with bytes appended
    const odd = (X, i) => {
      const k = X.choose(4, 'block kind' + i); if (k === 0) return X.oneOf(ODD, 'block' + i);
      if (k === 1) { const e = X.oneOf([...ODD, 'blob'], 'encoded' + i); if (e === 'blob') X.reach('undecodable'); return { encodedBlock: e === 'blob' ? X.blob('encoded' + i) : e, signature: X.sig('blockSig' + i) }; }
      if (k === 2) return { encodedBlock: K.enc(X, K.plain(X, 'named' + i, { participant: X.party(1) })), signature: X.oneOf(ODD, 'signature' + i) };
      const real = require('../ts/ethers').real; const e = real.AbiCoder.defaultAbiCoder().encode([K.BLOCK], [{ transaction: { header: { channelId: K.CH, participant: X.party(1), forkCnt: 0n, transactionCnt: BigInt(X.choose(2, 'height' + i)), timestamp: BigInt(T0) }, body: { transactionType: 0n, encodedData: '0x', data: '0x12' } }, stateHash: K.CH, previousStateHash: K.CH }]) + '00'.repeat(32); return { encodedBlock: e, signature: X.signBytes(1, e) };
    };
    const names = Object.keys(bad); const seqs = names.map(m => [m]); if (deep) for (const a of ['onSignedBlock', 'onBlockConfirmation', 'onInitHandshakeResponse']) for (const b of names) seqs.push([a, b]);
    for (const seq of seqs) jobs.push(job('malformed ' + seq.join(', '), async X => {
      const N = setup(X); for (const [i, m] of seq.entries()) { const r = X.try(() => N.deliver(N.c, { method: m, params: bad[m](X, i) })); await X.pump(3); X.check(r.ok, 'no message makes the receiver fail'); if (m.startsWith('on')) X.reach('malformed'); }
      X.obs('unhandled', X.unhandled.length); X.check(X.unhandled.length === 0, 'a failure while handling a message is contained'); const h = N.am.getNextBlockHeight(); X.check(h === 0, 'nothing malformed is adopted');
      const up = N.open(N.c); if (!up) { N.c = N.connect(); } if (!N.sm.disputeHandler.isForkDisputed(0)) { await probe(X, N); X.reach('probe'); } X.check(X.unhandled.length === 0, 'nothing fails in the background');
    }, { weight: 3 * seq.length + (seq.includes('onSignedBlock') ? 2 : 0) }));
    // garbage among early confirmations
    for (const n of deep ? [2, 3] : [2]) for (let g = 0; g <= n; g++) for (const early of [true, false]) jobs.push(job(`garbage at ${g} among ${n} ${early ? 'early' : 'late'} confirmations`, async X => {
      const N = setup(X, n + 1); const q = next(X, N, 'block'); const confs = []; for (let i = 0; i < n; i++) confs.push(X.signBytes(1 + i, q.s.encodedBlock)); const list = [...confs]; list.splice(g, 0, X.oneOf(['0x12', 'zz', '0x' + '00'.repeat(65), null, 5], 'garbage'));
      const send = async () => { for (const s of list) { N.deliver(N.c, { method: 'onBlockConfirmation', params: [q.s, s] }); await X.pump(3); } };
      // the block is not next yet: first another one
      const first = early ? q : null; if (early) { const later = { ...q }; const h1 = after(X, N, q); list.forEach((s, i) => { if (i !== g) list[i] = X.signBytes(1 + confs.indexOf(s), h1.s.encodedBlock); }); const own = [...list].filter((s, i) => i !== g); for (const s of list) { N.deliver(N.c, { method: 'onBlockConfirmation', params: [h1.s, s] }); await X.pump(3); } X.check(N.am.getBlock(0, 1) === undefined, 'set-up'); N.deliver(N.c, { method: 'onSignedBlock', params: [h1.s] }); await X.pump(3); N.deliver(N.c, { method: 'onSignedBlock', params: [q.s] }); await run(X); X.reach('queued garbage'); X.check(N.am.getBlock(0, 1) !== undefined, 'the early block is adopted'); for (const [i, s] of own.entries()) X.check(N.am.didParticipantSign(h1.b, X.party(1 + i)).didSign, 'a confirmation counts whatever came with it'); }
      else { N.deliver(N.c, { method: 'onSignedBlock', params: [q.s] }); await X.pump(4); await send(); await run(X); for (let i = 0; i < n; i++) X.check(N.am.didParticipantSign(q.b, X.party(1 + i)).didSign, 'a confirmation counts whatever came with it'); }
      X.reach('all counted'); X.check(X.unhandled.length === 0, 'nothing fails in the background'); X.check(!N.locked(), 'the node is not left locked');
    }, { weight: 3 }));
    // a failure while a queued message is handled later
    for (const what of ['stateTransition', 'getState', 'getNextToWrite', 'sign']) for (const conf of [false, true]) jobs.push(job(`a queued ${conf ? 'confirmation' : 'block'} fails in ${what}`, async X => {
      let armed = false, at = 0, count = 0; const fault = w => armed && w === what && count++ === at; const N = setup(X, 3, { machine: { fault }, fault });
      const q = next(X, N, 'block'), h1 = after(X, N, q); if (conf) N.deliver(N.c, { method: 'onBlockConfirmation', params: [h1.s, X.signBytes(2, h1.s.encodedBlock)] }); else N.deliver(N.c, { method: 'onSignedBlock', params: [h1.s] }); await X.pump(3); X.check(N.am.getBlock(0, 1) === undefined, 'set-up');
      N.deliver(N.c, { method: 'onSignedBlock', params: [q.s] }); await X.pump(3); X.check(N.am.getBlock(0, 0) !== undefined, 'set-up'); armed = true; at = X.choose(3, 'failing call'); await run(X); const hit = count > at; armed = false; X.reach(hit ? 'failed later' : 'all went well'); X.obs('unhandled', X.unhandled.length);
      X.check(X.unhandled.length === 0, 'a failure while handling a queued message is contained'); X.check(!N.locked(), 'the node is not left locked'); if (!hit) X.check(N.am.getBlock(0, 1) !== undefined, 'the queued block is adopted');
    }, { weight: 2 }));
    return jobs;
  },
};
const run = async X => { for (let i = 0; i < 6; i++) { for (const t of X.liveTimers().filter(t => t.delay === 0)) X.fire(t); await X.pump(3); } };
// the block after q
function after(X, N, q) { const pre = N.machine.table.find(e => X.is(X.eq(X.eth.keccak256(e.next), q.b.stateHash))).next; const st = X.blob('after'); const b = K.plain(X, 'after', { forkCnt: 0n, transactionCnt: 1n, participant: X.party(1), timestamp: BigInt(T0 + 1), encodedData: '0x72', previousStateHash: X.eth.keccak256(pre), stateHash: X.eth.keccak256(st) }); N.machine.table.unshift({ s: pre, t: K.encTx(X, b.transaction), ok: true, next: st }); N.machine.turns.unshift({ s: st, who: X.party(1) }); return { b, s: K.signedBy(X, b, 1) }; }
