'use strict';
const { net, text, untext } = require('../ts/net');
const T0 = 1000000; const KINDS = ['authenticates', 'offer', 'answer', 'candidate', 'found', 'closes']; const MSG = { offer: 'onOfferWebRTC', answer: 'onAnswerWebRTC', candidate: 'onIceCandidate' };
// A stand-in for the WebRTC stack: every operation completes, or fails, when the scenario says so; the operations of one connection complete in order
function stack(X) {
  const W = { all: [], waiting: [], cause: undefined, fails: 0, gated: true, mayFail: true };
  const target = o => { o.addEventListener = (k, cb) => { const prev = o['on' + k]; o['on' + k] = e => { if (prev) prev(e); cb(e); }; }; o.dispatchEvent = () => true; return o; };
  W.channel = () => target({ sent: [], closed: false, readyState: 'connecting', send(s) { if (this.closed) throw new Error('channel closed'); this.sent.push(untext(s)); }, close() { this.closed = true; } });
  const op = (c, what, value, done) => { c.ops.push([what, value]); if (!W.gated) { if (done) done(); return Promise.resolve(what.startsWith('create') ? value : undefined); } const d = X.deferred(); W.waiting.push({ c, what, settle() { if (!W.fails && W.mayFail && X.is(X.bool('fails'))) { W.fails++; c.failed = true; d.reject(new Error(what + ' failed')); } else { if (done) done(); d.resolve(what.startsWith('create') ? value : undefined); } } }); return d.promise; };
  W.RTCPeerConnection = class { constructor() { target(this); Object.assign(this, { peer: W.cause, ops: [], made: [], found: [], channels: [], local: false, failed: false, n: W.all.length }); W.all.push(this); }
    createDataChannel() { const ch = W.channel(); this.channels.push(ch); return ch; }
    make(type) { const d = { type, sdp: X.blob(`${type} of connection ${this.n}`) }; this.made.push(d); return op(this, 'create ' + type, d); }
    createOffer() { return this.make('offer'); } createAnswer() { return this.make('answer'); }
    setLocalDescription(d) { return op(this, 'local', d, () => { this.local = true; }); } setRemoteDescription(d) { return op(this, 'remote', d); } addIceCandidate(c) { return op(this, 'candidate', c); } close() { this.closed = true; } };
  X.provide('RTCIceCandidate', class { constructor(o) { if (o === null || typeof o !== 'object') throw new TypeError('not a candidate'); Object.assign(this, o); } });
  return W;
}
async function world(X, o = {}) {
  X.nowMs = T0 * 1000; const W = stack(X); const N = net(X, { me: 0, lens: [0], genesisAt: T0 - 10, rtc: { RTCPeerConnection: W.RTCPeerConnection } }); N.W = W;
  const helper = {}; N.answerTo = async (i, ch) => { const peer = helper[i] || (helper[i] = net(X, { me: i, lens: [0], genesisAt: T0 - 10 })); const pc = peer.connect(); const k = pc.out.length; peer.deliver(pc, { method: 'onInitHandshakeRequest', params: [ch, T0] }); await X.pump(2); return pc.out[k].params[0]; };
  N.authenticate = async (c, i, how) => { const sig = await N.answerTo(i, c.out[0].params[0]); W.cause = c; N.deliver(c, { method: 'onInitHandshakeResponse', params: [sig, T0, how] }); await X.pump(2); };
  return N;
}
const same = (X, a, b) => X.is(X.eq(a, b));
module.exports = {
  id: 'T33', level: 'model_checking',
  bounds: { peers: '2, authenticated with or without asking for WebRTC, before or in between, or not at all', events: '2 (some combinations, thorough: all combinations of 3) by either peer: it authenticates, sends an offer, answer or candidate, a candidate is found for one of its connections, its connection closes', timing: 'every operation of the WebRTC stack completing at any time in between, with 2 events any one of them failing; what peers send is arbitrary', channels: 'a data channel opening, receiving, closing, once' },
  outside: ['the WebRTC stack itself (a stand-in)', 'a peer that only authenticates on the new channel later (T18)', 'negotiations given up: connections are never closed'],
  mustReach: ['offered', 'answered', 'completed', 'candidate sent', 'candidate applied', 'operation failed', 'stranger', 'both at once', 'gone', 'channel opened', 'channel closed', 'one starts', 'none starts'],
  jobs: tier => {
    const jobs = []; const plans = []; for (const a of KINDS.slice(0, 5)) for (const b of KINDS) { plans.push([a, b]); for (const c of KINDS) if (tier === 'thorough' || (b === 'offer' || b === 'authenticates') && ['found', 'candidate', 'answer'].includes(c) && (a === 'offer' || a === 'authenticates')) plans.push([a, b, c]); }
    for (const plan of plans) jobs.push({ kind: 'ts', samples: 2, weight: plan.length * 2, name: plan.join(', '), run: async X => {
      const N = await world(X); const W = N.W; W.mayFail = plan.length < 3; const first = plan[0], most = plan.length; const cs = [N.connect(), N.connect()]; const verdicts = []; const ought = (c, m) => verdicts.push([c, m]);
      // found first: there is a connection of the first peer already; else the peers may be known or not
      const P = cs.map((c, i) => ({ c, i: i + 1, auth: false, up: true, sent: { offer: [], answer: [], candidate: [] } }));
      if (first === 'found') { W.gated = false; await N.authenticate(cs[0], 1, 1); P[0].auth = true; W.gated = true; } else if (first !== 'authenticates') { W.gated = false; const k = X.choose(first === 'answer' || first === 'candidate' ? 2 : 3, 'before'); if (k < 2) { await N.authenticate(cs[0], 1, k); P[0].auth = true; } W.gated = true; }
      const start = cs.map(c => c.out.length); const expected = [];
      const latest = p => { const mine = W.all.filter(w => w.peer === p.c && w.made.length); return mine.length === 1 && W.all.filter(w => w.peer === p.c).length === 1 ? mine[0] : undefined; };
      const toldOf = (p, w, kind) => p.c.out.some(m => m.method === MSG[kind] && w.made.some(d => d.type === kind && same(X, untext(m.params[0]).sdp, d.sdp)));
      let done = 0;
      for (let guard = 0; guard < 40; guard++) {
        const firsts = W.waiting.filter((w, k) => W.waiting.findIndex(v => v.c === w.c) === k); const n = firsts.length + (done < most ? 1 : 0); if (!n) break; const k = X.choose(n, 'next');
        if (k < firsts.length) { const w = firsts[k]; if (firsts.length > 1) X.reach('both at once'); W.waiting.splice(W.waiting.indexOf(w), 1); w.settle(); await X.pump(2); continue; }
        const kind = plan[done]; done++; const p = P[first === 'found' && done === 1 ? 0 : X.choose(2, 'peer' + done)]; W.cause = p.c; const count = W.all.length;
        if (kind === 'authenticates') { if (p.auth || !p.up) return; await N.authenticate(p.c, p.i, X.choose(2, 'asks for WebRTC' + done)); p.auth = true; continue; }
        if (kind === 'closes') { if (!p.up) return; N.drop(p.c); p.up = false; X.reach('gone'); continue; }
        if (kind === 'found') { const ws = W.all.filter(w => w.peer === p.c && w.local && w.onicecandidate); if (!ws.length) return; const w = ws[ws.length - 1]; const cand = { candidate: X.blob('found' + done), sdpMid: '0' }; w.found.push(cand); const r = X.try(() => { w.onicecandidate({ candidate: cand }); w.onicecandidate({ candidate: null }); }); ought(r.ok, 'finding a candidate does not fail'); if (p.up && p.auth) { X.reach('candidate sent'); expected.push(['sent', w, cand]); } await X.pump(1); continue; }
        const v = kind === 'candidate' ? { candidate: X.blob('candidate' + done), sdpMid: '0' } : { type: kind, sdp: X.blob(kind + done) }; const was = p.auth && p.up; const known = was && latest(p); const ready = known && (known.made[0].type === 'offer' ? toldOf(p, known, 'offer') : true); const heard = p.up;
        if (was) p.sent[kind].push(v); else X.reach('stranger'); const ops = W.all.reduce((s, w) => s + w.ops.length, 0); const r = X.try(() => N.deliver(p.c, { method: MSG[kind], params: [text(X, v)] })); ought(r.ok, 'a message does not fail'); await X.pump(2);
        if (!was) ought(W.all.reduce((s, w) => s + w.ops.length, 0) === ops, 'a peer that is not authenticated, or no longer connected, negotiates nothing');
        if (was && kind === 'offer') expected.push(['remote', () => W.all.slice(count).find(w => w.peer === p.c), v]); if (ready && kind === 'answer' && known.made[0].type === 'offer') expected.push(['remote', () => known, v]); if (ready && kind === 'candidate') expected.push(['candidate', () => known, v]);
      }
      await X.pump(2); if (W.fails) X.reach('operation failed');
      // every operation concerns the peer the connection is for
      for (const w of W.all) { const p = P.find(p => p.c === w.peer); ought(p !== undefined, 'set-up'); for (const [what, v] of w.ops) { if (what === 'remote') ought(X.or(...[...p.sent.offer, ...p.sent.answer].map(d => X.and(X.eq(v.sdp, d.sdp), v.type === d.type))), "a connection is only given what its own peer sent"); if (what === 'candidate') { ought(X.or(...p.sent.candidate.map(d => X.eq(v.candidate, d.candidate))), 'candidates are only given to the connection of the peer that sent them'); X.reach('candidate applied'); } if (what === 'local') ought(w.made.some(d => d === v || same(X, v.sdp, d.sdp)), 'what a node describes as its own is its own'); } }
      for (const p of P) for (const m of p.c.out.slice(start[p.i - 1]).concat(p.c.out.slice(0, start[p.i - 1]).filter(m => Object.values(MSG).includes(m.method)))) {
        const mine = W.all.filter(w => w.peer === p.c); if (m.method === MSG.candidate) ought(X.or(...mine.flatMap(w => w.found).map(c => X.eq(untext(m.params[0]).candidate, c.candidate))), 'a candidate goes to the peer the connection is for');
        for (const kind of ['offer', 'answer']) if (m.method === MSG[kind]) { X.reach(kind === 'offer' ? 'offered' : 'answered'); ought(X.or(...mine.flatMap(w => w.made).filter(d => d.type === kind).map(d => X.eq(untext(m.params[0]).sdp, d.sdp))), `an ${kind} goes to the peer the connection is for`); }
      }
      // and what did not fail was done
      for (const w of W.all) { const p = P.find(p => p.c === w.peer); if (w.failed || !p || !p.up || !p.auth) continue; for (const d of w.made) ought(p.c.out.filter(m => m.method === MSG[d.type] && same(X, untext(m.params[0]).sdp, d.sdp)).length >= 1, `the ${d.type} is sent`); for (const d of w.made) { ought(w.ops.filter(([k]) => k === 'local').length === 1, 'the own description takes effect'); } }
      for (const [k, w, v] of expected) { if (k === 'sent') { const p = P.find(p => p.c === w.peer); ought(p.c.out.some(m => m.method === MSG.candidate && same(X, untext(m.params[0]).candidate, v.candidate)), 'a candidate found for a peer is sent to it'); continue; } const c = w(); if (c && c.failed) continue; ought(c && c.ops.some(([what, x]) => what === k && same(X, k === 'candidate' ? x.candidate : x.sdp, k === 'candidate' ? v.candidate : v.sdp)), k === 'candidate' ? 'a candidate is passed on to the connection' : "the peer's description is passed on to the connection"); if (k === 'remote') X.reach('completed'); }
      X.obs('connections', W.all.map(w => w.ops.map(o => o[0]).join(' '))); X.obs('unhandled', X.unhandled.length); for (const [c, m] of verdicts) X.check(c, m); X.check(X.unhandled.length === 0, 'an operation that fails is contained');
    } });
    // once both have authenticated each other, exactly one of them sets up the connection - if either wants it
    jobs.push({ kind: 'ts', samples: 4, name: 'who starts', run: async X => {
      X.nowMs = T0 * 1000; const W = stack(X); W.gated = false; const ids = [0, 1, 2]; const a = X.choose(3, 'one'), b = ids.filter(i => i !== a)[X.choose(2, 'other')]; const wants = [X.choose(2, 'one wants'), X.choose(2, 'other wants')]; const verdicts = []; const ought = (c, m) => verdicts.push([c, m]);
      const nodes = [a, b].map((me, k) => { const N = net(X, { me, lens: [0], genesisAt: T0 - 10, rtc: { RTCPeerConnection: W.RTCPeerConnection } }); N.net.preferredTransport = wants[k]; return N; }); const cs = nodes.map(N => N.connect()); const ask = cs.map(c => c.out[0]);
      const order = X.choose(2, 'first') ? [1, 0] : [0, 1]; const made = [0, 0];
      for (const k of order) { const o = 1 - k, n = cs[o].out.length; nodes[o].deliver(cs[o], ask[k]); await X.pump(2); const answer = cs[o].out.slice(n).find(m => m.method === 'onInitHandshakeResponse'); ought(!!answer, 'a timely challenge is answered'); if (!answer) break; const before = W.all.length; W.cause = cs[k]; nodes[k].deliver(cs[k], answer); await X.pump(4); made[k] = W.all.length - before; ought(nodes[k].opened.length === 1, 'the application hears of the peer'); }
      X.obs('made', made); ought(made[0] + made[1] === (wants[0] || wants[1] ? 1 : 0), 'exactly one of two peers sets up WebRTC, and only if one of them wants it'); X.reach(made[0] + made[1] ? 'one starts' : 'none starts');
      for (const k of [0, 1]) ought(cs[k].out.filter(m => m.method === 'onOfferWebRTC').length === made[k], 'who sets it up sends the offer'); for (const [c, m] of verdicts) X.check(c, m); X.check(X.unhandled.length === 0, 'nothing fails in the background');
    } });
    for (const side of ['offering', 'answering']) jobs.push({ kind: 'ts', samples: 3, name: `data channel, ${side}`, run: async X => {
      const N = await world(X); const W = N.W; W.gated = false; const c = N.connect(); await N.authenticate(c, 1, side === 'offering' ? 1 : 0); let ch; const verdicts = []; const ought = (c, m) => verdicts.push([c, m]);
      if (side === 'offering') ch = W.all[0].channels[0]; else { W.cause = c; N.deliver(c, { method: 'onOfferWebRTC', params: [text(X, { type: 'offer', sdp: X.blob('offer') })] }); await X.pump(4); ch = W.channel(); W.all[0].ondatachannel({ channel: ch }); }
      const count = () => N.net.openConnections.length; const n = count(); const early = X.choose(2, 'closes at once'); if (!early) { ch.readyState = 'open'; ch.onopen({}); await X.pump(1); ought(count() === n + 1, 'an open channel is a connection'); X.reach('channel opened'); ought(ch.sent.length === 1 && ch.sent[0].method === 'onInitHandshakeRequest', 'whose peer is challenged'); const k = N.signed.length, o = c.out.length, s = ch.sent.length; const raw = X.sym ? 0 : X.choose(1); ch.onmessage({ data: text(X, { method: 'onInitHandshakeRequest', params: [X.hash('challenge'), T0] }) }); await X.pump(2); ought(N.signed.length === k + 1 && ch.sent.length === s + 1 && ch.sent[s].method === 'onInitHandshakeResponse' && c.out.length === o, 'what arrives on it is answered on it');
        if (X.choose(2, 'authenticates')) { const sig = await N.answerTo(1, ch.sent[0].params[0]); ch.onmessage({ data: text(X, { method: 'onInitHandshakeResponse', params: [sig, T0, 1] }) }); await X.pump(2); const p = N.net.profileManager.getProfileByEvmAddress(X.party(1)); ought(p && p.getTransport() && p.getTransport() !== c.t && c.ended, 'it replaces the connection it was set up over'); ought(W.all.length === 1, 'and is not set up again'); } }
      const m = count(); ch.onclose({}); await X.pump(1); ought(count() === (early ? n : m - 1), 'a closed channel is no connection'); X.reach('channel closed'); const k = N.signed.length; ch.onmessage({ data: text(X, { method: 'onInitHandshakeRequest', params: [X.hash('late challenge'), T0] }) }); await X.pump(2); ought(N.signed.length === k, 'and no longer heard');
      X.obs('open', count()); for (const [c, m] of verdicts) X.check(c, m); X.check(X.unhandled.length === 0, 'nothing fails in the background');
    } });
    return jobs;
  },
};
