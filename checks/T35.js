'use strict';
const K = require('../ts/blocks'); const { node, Machine } = require('../ts/node'); const { bridge } = require('../ts/channel'); const V = require('../ts/values'); const T = require('../engine/terms'); const B = require('../engine/bytes');
const job = (name, run, o) => ({ kind: 'ts', name, run, samples: 4, ...o });
const FORMS = ['as decoded', 'upper case', 'bytes'];
// a channel id that contains a letter, so that upper case is another text
function channelId(X, l) { const h = X.hash(l); if (X.sym) { X.E.assume(T.le(T.int(0xabn << 248n), h.b.t)); X.E.assume(T.lt(h.b.t, T.int(0xacn << 248n))); } else X.assume(h.startsWith('0xab')); return h; }
const written = (X, h, form) => form === 'bytes' ? X.raw(h) : form === 'upper case' ? X.upper(h) : h;
const hex = (X, v) => X.eth.hexlify(v);
// Buffers with symbolic contents
function buffers(X) {
  if (!X.sym) return; const { Buffer } = require('buffer');
  const half = t => { const a = X.E.fresh('half', 'I', 0n, (1n << 120n) - 1n), b = X.E.fresh('half', 'I', 0n, (1n << 136n) - 1n); X.E.axiom(T.eq(t, T.add(T.mul(a, T.int(1n << 136n)), b))); return a; };
  const unsupported = v => V.bad('buffer of ' + (v && v.kind));
  const fill = (n, v, enc) => {
    if (!V.isSym(v)) return null; if (n !== 32) unsupported(v);
    if (v instanceof V.SymArr8) return v.b.k === 'w' && v.b.width === 32 ? v : unsupported(v);
    if (v instanceof V.SymHex || v instanceof V.SymUpper) { if (enc === 'hex') { const e = new TypeError('The argument \'value\' is invalid'); e.code = 'ERR_INVALID_ARG_VALUE'; throw e; } if (enc !== undefined && !/^utf-?8$|^latin1$|^ascii$|^binary$/.test(enc) || v.b.k !== 'w' || v.b.width !== 32) unsupported(v); return new V.SymArr8(B.cat([B.lit(v instanceof V.SymHex ? '3078' : '3079'), B.word(half(v.b.t), 15)])); } // 32 of 66 characters
    if (v instanceof V.SymText) return new V.SymArr8(B.cat([B.lit('62'), B.word(half(v.parts.find(p => p instanceof V.SymHex).b.t), 15)]));
    return unsupported(v);
  };
  const stand = { alloc: (n, v, enc) => { const b = Buffer.alloc(n); b.fill = (v, enc) => fill(n, v, enc) || Buffer.prototype.fill.call(b, v, enc); return v === undefined ? b : b.fill(v, enc); }, allocUnsafe: n => stand.alloc(n), from: (v, enc) => !V.isSym(v) ? Buffer.from(v, enc) : v instanceof V.SymArr8 ? v : unsupported(v), isBuffer: v => v instanceof V.SymArr8 || Buffer.isBuffer(v), concat: l => V.isSym(l[0]) && l.length === 1 ? l[0] : Buffer.concat(l) };
  X.stub('buffer', { Buffer: stand }); X.stub('node:buffer', { Buffer: stand });
}
const TIMES = { p2pTime: 100, agreementTime: 5, chainFallbackTime: 30, challengeTime: 60 };
// a node that was told its channel, and the first block, which is valid but for the channel
function first(X, form, n, o = {}) {
  const id = channelId(X, 'channel'); const N = node(X, { lens: [0], parts: n, times: TIMES, channel: written(X, id, form), ...o }); X.nowMs = 7000;
  const pre = N.machine.cur, next = X.blob('next'); const mk = (channel, author = 1) => { const b = K.plain(X, 'new', { channelId: channel, forkCnt: 0n, transactionCnt: 0n, participant: X.party(author), timestamp: 6n, previousStateHash: X.eth.keccak256(pre), stateHash: X.eth.keccak256(next) }); N.machine.table.unshift({ s: pre, t: K.encTx(X, b.transaction), ok: true, next }); N.machine.turns.unshift({ s: pre, who: X.party(author) }); return b; };
  return { id, N, pre, next, mk };
}
module.exports = {
  id: 'T35', level: 'model_checking',
  bounds: { channel_ids: 'arbitrary 32-byte ids (starting with ab where upper case must differ), written as decoded, in upper case, or as bytes', messages: 'one block and one confirmation of an arbitrary channel', own_actions: 'a transaction, its posting, a dispute, subscriptions', topics: 'two ids in any two forms', setup: 'arbitrary times in the contract, a deployment that works, reverts, or deploys nothing' },
  outside: ['ids of other lengths', 'local discovery (debug only)', 'ids that the network itself mixes up'],
  mustReach: ['adopted', 'other channel', 'confirmation counted', 'own block', 'dispute', 'same topic', 'different topics', 'set up', 'not deployed'],
  jobs: tier => {
    const jobs = [];
    for (const form of FORMS) {
      jobs.push(job(`received, id ${form}`, async X => {
        const { id, N, mk } = first(X, form, 3); const ch = X.hash("block's channel"); const b = mk(ch), sb = K.signedBy(X, b, 1); const mine = X.eq(ch, id);
        const r = await X.tryAsync(() => N.sm.onSignedBlock(sb)); await X.pump(); X.check(r.ok, 'handling a block does not fail'); const grown = N.am.getBlock(0, 0) !== undefined; X.obs('adopted', grown);
        X.check(X.iff(grown, mine), 'a block is adopted exactly if it is of the channel the node was told, however its id is written'); X.check(N.signed.length === (grown ? 1 : 0), 'only an adopted block is signed'); X.reach(grown ? 'adopted' : 'other channel');
        const c = X.signBytes(2, sb.encodedBlock); await X.tryAsync(() => N.sm.onBlockConfirmation(sb, c)); await X.pump(); if (grown) { X.check(X.or(...N.am.getSigantures(b).map(s => X.eq(s, c))), 'a confirmation of the channel counts'); X.reach('confirmation counted'); }
        X.check(!N.locked(), 'the node is not left locked');
      }));
      jobs.push(job(`own actions, id ${form}`, async X => {
        const { id, N, pre, next } = first(X, form, 2, { block: undefined }); N.machine.turns.unshift({ s: pre, who: N.me }); const same = v => X.eq(hex(X, v), id);
        await X.pump(); for (const { f } of N.filters) X.check(same(f.channel), 'the node listens to its channel'); X.check(N.filters.length === 3, 'the node listens to every kind of event');
        const r = await X.tryAsync(() => N.sm.p2pManager.p2pSigner.sendTransaction({ data: '0x1234' })); await X.pump(2); const sent = N.sent.filter(s => s[0] === 'onSignedBlock'); X.obs('sent', sent.length);
        for (const s of sent) { const b = K.coder(X).decode([K.BLOCK], s[1].encodedBlock)[0]; X.check(X.eq(b.transaction.header.channelId, id), 'own blocks are of the channel'); X.reach('own block'); }
        if (X.is(N.machine.table[0].ok)) X.check(r.ok && sent.length === 1, 'an own transaction that runs is sent'); else X.check(sent.length === 0, 'one that does not is not');
        await X.tryAsync(() => N.sm.disputeHandler.createDispute(0, K.ZERO, 0, [])); await X.pump(); const all = ['createDispute', 'getDispute', 'getBlockCallData', 'getChainLatestBlockTimestamp', 'challengeDispute'].flatMap(k => N.calls(k)); X.check(N.calls('createDispute').length === 1 || N.calls('createDispute').length === 2, 'the dispute is raised');
        for (const c of all) X.check(same(c[1]), 'what the node does on chain is for its channel'); X.reach('dispute');
      }));
    }
    for (const a of FORMS) for (const c of FORMS) jobs.push(job(`topics, ids ${a} and ${c}`, async X => {
      buffers(X); const joined = [], during = []; X.stub('Holepunch.ts', { __esModule: true, default: class { constructor(p) { this.p = p; } async join(t) { joined.push(t); during.push(this.p.stateManager.getChannelId()); } async dispose() {} } });
      const { net } = require('../ts/net'); X.netStubs = false; const stub = X.stub; X.stub = (k, m) => { if (k !== 'Holepunch.ts' || !X.world.stubs[k]) stub.call(X, k, m); }; const N1 = net(X, { me: 0 }), N2 = net(X, { me: 1 }); X.stub = stub; const i1 = channelId(X, 'channel 1'), i2 = channelId(X, 'channel 2');
      const r1 = await X.tryAsync(() => N1.net.p2pSigner.connectToChannel(written(X, i1, a))), r2 = await X.tryAsync(() => N2.net.p2pSigner.connectToChannel(written(X, i2, c))); await X.pump(); X.check(r1.ok && r2.ok && joined.length === 2, 'connecting to a channel joins one topic');
      const topic = joined.map(t => hex(X, t)); X.obs('equal', X.is(X.eq(topic[0], topic[1]))); X.check(X.iff(X.eq(topic[0], topic[1]), X.eq(i1, i2)), 'nodes meet exactly if their channel is the same'); X.reach(X.is(X.eq(i1, i2)) ? 'same topic' : 'different topics');
      during.forEach((d, k) => X.check(X.eq(hex(X, d), [i1, i2][k]), 'peers that are met find the node in its channel'));
      for (const [N, i] of [[N1, i1], [N2, i2]]) X.check(X.eq(hex(X, N.sm.getChannelId()), i), 'the node takes part in the channel it connects to');
    }));
    jobs.push(job('a node is set up', async X => {
      X.stub('Holepunch.ts', { __esModule: true, default: class { async join() {} async dispose() {} } }); X.stub('get-webrtc', { RTCPeerConnection: class {} }); X.stub('utils/DebugProxy.ts', { DebugProxy: { createProxy: o => o } });
      let S = null; if (X.sol) { S = X.sol; S.setup({ times: ['p2p', 'agreement', 'fallback', 'challenge'].map(l => S.u('time of ' + l, 1n << 40n)) }); } const C = bridge(X, S); const how = X.choose(3, 'deployment'); const ran = [];
      const evm = { async runCall(o) { ran.push(o); const h = hex(X, o.data); if (X.is(X.eq(h, '0xdeb107'))) return { createdAddress: how === 2 ? undefined : 'the machine', execResult: how === 1 ? { exceptionError: { error: 'revert' } } : { returnValue: new Uint8Array(), logs: [] } }; return { execResult: { returnValue: X.eth.getBytes('0x' + '00'.repeat(31) + '01'), logs: [] } }; } }; X.stub('@ethereumjs/evm', { EVM: { create: async () => evm } });
      const Evm = X.load('@/evm/EvmStateMachine').default; const now = X.floor(X.div(X.nowMs, 1000)); const provider = { getBlock: async () => ({ number: 0, timestamp: now }) }; const signer = { ...X.signer(0), provider };
      const manager = { by: null, connect(s) { this.by = s; return this; }, getAllTimes: async () => C.call(5, 'getAllTimes', []), filters: Object.fromEntries(['SetState', 'BlockCalldataPosted', 'DisputeUpdated'].map(k => [k, c => ({ event: k, channel: c })])), async on() { return this; }, async off() {} };
      const contract = { interface: { encodeFunctionData: (n, a) => '0xc0de', parseLog: () => null }, connect(s) { return { connected: s, removeAllListeners() {}, emit() {} }; } };
      const r = await X.tryAsync(() => Evm.p2pSetup(signer, { data: '0xdeb107' }, manager, contract, {})); await X.pump(); X.obs('ok', r.ok);
      if (how) { X.check(!r.ok, 'a machine that cannot be deployed is reported'); X.reach('not deployed'); return; }
      X.check(r.ok, 'setting up a node does not fail'); if (!r.ok) return; const p = r.value.p2pSigner, sm = p.p2pManager.stateManager; X.reach('set up');
      const [p2p, agree, fallback, challenge] = ['p2p', 'agreement', 'fallback', 'challenge'].map((l, i) => X.input('time of ' + l, () => V.num(S.times[i]))); const t = sm.timeConfig;
      X.check(X.and(X.eq(t.p2pTime, p2p), X.eq(t.agreementTime, agree), X.eq(t.chainFallbackTime, fallback), X.eq(t.challengeTime, challenge)), 'the node reckons with the times of the contract');
      X.check(manager.by === signer, 'the contract is used with the key of the node'); X.check(r.value.p2pContractInstance.connected === p, 'what the application calls goes through the node'); X.check(X.eq(sm.getSignerAddress(), X.party(0)), 'the node acts for its signer');
      const n = ran.length; await X.tryAsync(() => p.call({ data: '0x1234' })); X.check(ran.length === n + 1 && ran[n].to === 'the machine', 'reading runs on the deployed machine');
      X.check((await X.tryAsync(() => r.value.dispose())).ok, 'disposing does not fail');
    }, { sol: true }));
    return jobs;
  },
};
