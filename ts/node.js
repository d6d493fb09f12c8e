'use strict';
// A node: the real StateManager with its agreement records, dispute handler,
// validation and signer, over a stand-in state machine, contract and network.
const K = require('./blocks');
const R = require('../sol/replay');
// a state machine about which only determinism is known
class Machine {
  constructor(X, start, o = {}) { this.X = X; this.cur = start; this.o = o; this.table = []; this.turns = []; this.calls = []; this.parts = o.parts; }
  find(list, same, mk) { for (const e of list) if (this.X.is(same(e))) return e; const e = mk(list.length); list.push(e); return e; }
  // what the machine does with a transaction in a state
  outcome(s, tx) { const X = this.X; const t = K.encTx(X, tx); return this.find(this.table, e => X.and(X.eq(e.s, s), X.eq(e.t, t)), i => ({ s, t, ok: X.bool('runs' + i), next: X.blob('next state' + i) })); }
  turn(s) { const X = this.X; return this.find(this.turns, e => X.eq(e.s, s), i => ({ s, who: this.o.turns ? X.party(X.choose(this.o.turns, 'turn' + i)) : X.addr('turn' + i) })).who; }
  async fault(what) { this.calls.push(what); if (this.o.fault && this.o.fault(what)) throw new Error('state machine failure: ' + what); if (this.o.gate) await this.o.gate(what); }
  async stateTransition(tx) { await this.fault('stateTransition'); const e = this.outcome(this.cur, tx); if (!this.X.is(e.ok)) return { success: false, successCallback: () => {} }; this.cur = e.next; return { success: true, successCallback: () => { this.calls.push('callback'); } }; }
  async getState() { await this.fault('getState'); return this.cur; }
  async setState(s) { await this.fault('setState'); this.cur = s; return true; }
  async getNextToWrite() { await this.fault('getNextToWrite'); return this.turn(this.cur); }
  async getParticipants() { await this.fault('getParticipants'); return [...this.parts]; }
  async runView() { return '0x'; }
}
const stubs = (X, Clock) => { X.stub('index.ts', { Clock }); X.stub('utils/DebugProxy.ts', { DebugProxy: { createProxy: o => o } }); };
// a channel clock that agrees with the local one
const clock = (X, Clock = X.load('@/Clock').default) => { const now = X.floor(X.div(X.nowMs, 1000)); Clock.init({ getBlock: async () => ({ number: 0, timestamp: now }) }); return Clock; };
// o: me, parts, lens (per fork), machine (options), block (agreed block maker), times
function node(X, o = {}) {
  const N = { X, log: [], sent: [], signed: [], filters: [] }; const me = o.me || 0;
  X.stub('utils/DebugProxy.ts', { DebugProxy: { createProxy: x => x } });
  const Clock = X.load('@/Clock').default; X.stub('index.ts', { Clock }); clock(X, Clock);
  N.now = () => Clock.getTimeInSeconds();
  const P2pSigner = X.load('@/evm/P2pSigner').default;
  class Network { constructor(sm, signer) { this.stateManager = sm; this.p2pSigner = new P2pSigner(signer, sm.signerAddress, this); this.rpcProxy = new Proxy({}, { get: (t, k) => typeof k === 'symbol' || k === 'then' ? undefined : (...a) => ({ broadcast: () => { N.sent.push([k, ...a]); } }) }); } async dispose() { N.log.push(['disposed']); } disconnectAll() {} }
  if (!o.network) X.stub('P2PManager.ts', { default: Network, __esModule: true });
  const base = X.signer(me); const signer = { ...base, getAddress: base.getAddress, async signMessage(m) { if (o.fault && o.fault('sign')) throw new Error('signing failed'); N.signed.push(m); const s = await base.signMessage(m); if (o.signing) await o.signing(m, s); return s; } };
  const call = (name, dflt) => async (...a) => { N.log.push([name, ...a]); if (o.fault && o.fault(name)) throw new Error('contract call failed: ' + name); if (o.contract && o.contract[name]) return o.contract[name](...a); return dflt; };
  const done = { hash: '0x', wait: async () => ({}) };
  N.contract = {
    getChainLatestBlockTimestamp: call('getChainLatestBlockTimestamp', 0n), getBlockCallData: call('getBlockCallData', { found: false }), postBlockCalldata: call('postBlockCalldata', done), createDispute: call('createDispute', done), challengeDispute: call('challengeDispute', done),
    getDispute: call('getDispute', { channelId: '0x' + '00'.repeat(32), challengeCnt: 0n }),
    filters: Object.fromEntries(['SetState', 'BlockCalldataPosted', 'DisputeUpdated'].map(k => [k, c => ({ event: k, channel: c })])),
    async on(f, cb) { N.filters.push({ f, cb }); return this; }, async off(f) { N.filters = N.filters.filter(x => x.f !== f); return this; },
  };
  const times = N.times = o.times || { p2pTime: 15, agreementTime: 5, chainFallbackTime: 30, challengeTime: 60 };
  const StateManager = X.load('@/stateManager').default; N.hooks = o.hooks || {};
  const parts = N.parts = Array.from({ length: o.parts || 2 }, (_, i) => X.party(i));
  N.machine = new Machine(X, '0x', { ...o.machine, parts }); N.me = X.party(me);
  N.sm = new StateManager(signer, N.me, N.contract, N.machine, times, N.hooks); N.am = N.sm.agreementManager;
  if (o.channel !== null) N.sm.setChannelId(o.channel || K.CH);
  if (o.lens) { const s = K.manager(X, { realHash: true, ...o, am: N.am, forks: o.lens.length, parts: parts.length, lens: o.lens }); N.m = s.m; N.forks = s.forks; const f = s.forks[s.forks.length - 1]; N.fork = s.forks.length - 1; N.top = f; N.machine.cur = f.blocks.length ? f.blocks[f.blocks.length - 1].state : f.genesis; } else { N.m = new K.Model(X); N.forks = []; }
  N.locked = () => N.sm.mutex.isLocked;
  N.tip = () => N.am.getEncodedState(N.am.getLatestForkCnt(), N.am.getNextBlockHeight() - 1) ?? N.am.getForkGenesisStateEncoded(N.am.getLatestForkCnt());
  // the node signed this block
  N.hasSigned = b => X.or(...N.signed.map(m => X.eq(hex(X, m), X.eth.keccak256(K.enc(X, b)))));
  N.calls = name => N.log.filter(l => l[0] === name);
  return N;
}
const hex = (X, m) => X.eth.hexlify(m);
module.exports = { node, clock, Machine, hex };
