'use strict';
const K = require('../ts/blocks'); const { world, START } = require('../ts/channel'); const { node } = require('../ts/node');
const job = (name, run, o) => ({ kind: 'ts', sol: true, name, run, samples: 3, ...o });
const NOW = (START + 1000) * 1000;
// which participants signed which block (as chosen by the scenario); me: signed everything it agreed to
function confirm(X, w, N, n, me) { N.signers = N.chain.map((e, h) => { const s = new Set([e.a]); for (let p = 0; p < n; p++) if (p !== e.a && (p === me || X.choose(2, `${p} signed ${h}`))) { const g = X.signBytes(p, K.enc(X, e.b)); N.am.confirmBlock(e.b, g); e.sigs.push(g); s.add(p); } return s; }); }
// what the records of the node contradict: the poster signed a later agreed block, or the awaited block is signed by everyone
const contradicts = (X, N, n, me, d) => {
  const is = (a, i) => X.is(X.eq(a, X.party(i))); const out = i => d.slashedParticipants.some(a => is(a, i)); const all = Array.from({ length: n }, (_, i) => i); const at = a => all.find(i => is(a, i));
  const poster = at(d.postedStateDisputer), raiser = at(d.timeoutDisputer); const k = d.virtualVotingBlocks.length, fold = Number(d.foldedTransactionCnt);
  const newer = poster !== undefined && poster !== me && !out(poster) && N.signers.slice(k).some(s => s.has(poster));
  const answered = !X.is(X.eq(d.timedoutParticipant, K.ZERO)) && raiser !== me && fold < N.signers.length && N.signers[fold].size === n;
  const known = (N.evidence || []).some(p => !out(p)); return { newer, answered, any: (newer || answered || known) && !out(me), out };
};
// all submissions of the node are judged against the dispute they answered
function judge(X, w, N, n, me, seen, fork) {
  const subs = w.C.of(me, 'challengeDispute'); X.obs('challenges', subs.map(e => e.args));
  for (const s of subs) {
    X.check(X.is(X.numEq(s.args[1], fork)), 'the challenge names the fork of the dispute');
    const e = seen.find(e => X.is(X.numEq(e.d.challengeCnt, s.args[2]))); X.check(!!e, 'the challenge names a challenge number of the dispute'); if (!e) continue;
    X.check(contradicts(X, N, n, me, e.d).any, 'only a dispute the records contradict is challenged');
    X.check(s.ok === X.is(X.numEq(s.at, s.args[2])), 'a challenge fails only if it was overtaken');
  }
  const end = w.dispute(); const c = contradicts(X, N, n, me, end); X.check(!c.any, 'no dispute the records contradict is left'); X.check(X.unhandled.length === 0, 'nothing fails in the background');
  return { subs, end, c };
}
// remembers every state of the dispute and lets a rival act before a submission
function watch(X, w, name, rival) {
  const seen = []; const note = () => { const d = w.dispute(); if (!seen.some(e => X.is(X.numEq(e.d.challengeCnt, d.challengeCnt)))) seen.push({ d }); return d; };
  let left = rival ? 1 : 0; const before = async what => { if (what !== 'challengeDispute' && what !== name) return; if (left && rival && X.choose(2, 'rival')) { left--; rival(what); } if (what === 'challengeDispute') { const d = note(); w.C.next = d.challengeCnt; } };
  return { seen, note, before };
}
// a dispute by somebody else: the node challenges it exactly if its records contradict it
const react = (n, len, fork, timeout, rival) => job(`dispute${timeout ? ' with timeout' : ''}, ${n} participants, ${len} agreed, fork ${fork}${rival ? ', a rival challenge in between' : ''}`, async X => {
  const w = world(X, n, len, { fork }); const me = 0; X.nowMs = NOW; let N; const free = d => [1, 2].filter(i => i < n && !d.slashedParticipants.some(a => X.is(X.eq(a, X.party(i)))));
  const W = watch(X, w, '', rival && (() => { const d = w.dispute(); const f = free(d); if (f.length < 2) return; const c = X.choose(2, 'who'); w.challenge(f[c], d.challengeCnt, N.chain, N.genesis, d.virtualVotingBlocks.length, [w.equivocation(f[1 - c])]); X.reach('overtaken'); }));
  N = w.peer(me, { before: W.before }); confirm(X, w, N, n);
  const who = n > 2 ? 1 + X.choose(2, 'disputer') : 1; const k = X.choose(len + 1, 'posted'); const next = w.turn(k);
  if (timeout) { if (next === who) return; w.raise(who, N.chain, N.genesis, k, { timeout: next }); } else { const t = X.oneOf(Array.from({ length: n }, (_, i) => i).filter(i => i !== who), 'target'); w.raise(who, N.chain, N.genesis, k, { proofs: [w.equivocation(t)] }); }
  const d0 = W.note(); const c0 = contradicts(X, N, n, me, d0);
  // the event may be delivered again, or late
  N.sm.onDisputeUpdate(d0); if (X.choose(2, 'again')) N.sm.onDisputeUpdate(d0); await X.pump(8); if (X.choose(2, 'late')) { N.sm.onDisputeUpdate(d0); await X.pump(4); }
  const { subs, end, c } = judge(X, w, N, n, me, W.seen, fork);
  X.check(subs.length > 0 || !c0.any, 'a dispute the records contradict is challenged'); X.check(subs.length <= 1 + subs.filter(s => !s.ok).length + 1, 'a dispute is not challenged over and over');
  if (c.out(me)) X.reach('the node was slashed');
  if (!subs.length) { X.reach('accepted as it is'); return; }
  X.reach('challenged'); if (c0.answered) { X.check(X.is(X.eq(end.timedoutParticipant, K.ZERO)), 'an answered timeout is withdrawn'); X.reach('timeout withdrawn'); } if (c0.newer) X.reach('newer state');
  X.check(c.out(who), 'the contradicted participant is slashed');
}, { weight: n * (len + 1) * 2 });
// the node raises a dispute itself, possibly overtaken by somebody else, with evidence known before or found during the dispute
const own = (n, len, fork, kind, rival) => job(`the node raises ${kind}, ${n} participants, ${len} agreed, fork ${fork}${rival ? `, ${rival}` : ''}`, async X => {
  const w = world(X, n, len, { fork }); const me = X.choose(n, 'me'); X.nowMs = NOW; let N; const others = Array.from({ length: n }, (_, i) => i).filter(i => i !== me); const next = w.turn(len);
  const theirs = () => { const who = X.oneOf(others, 'rival disputer'), k = X.choose(len + 1, 'posted'), t = others.find(i => i !== who); const nx = w.turn(k); if (X.choose(2, 'with timeout')) { if (nx === who) return false; w.raise(who, N.chain, N.genesis, k, { timeout: nx }); } else { if (t === undefined) return false; w.raise(who, N.chain, N.genesis, k, { proofs: [w.equivocation(t)] }); } return true; };
  const W = watch(X, w, 'createDispute', rival === 'overtaken' && (what => { if (what === 'createDispute' && theirs()) X.reach('overtaken when creating'); }));
  N = w.peer(me, { before: W.before }); confirm(X, w, N, n, me); const h = N.sm.disputeHandler; N.evidence = [];
  if (rival === 'known before') { if (!theirs()) return; N.sm.onDisputeUpdate(W.note()); await X.pump(8); }
  const t = kind === 'a timeout' ? undefined : X.oneOf(others, 'culprit'); if (t === undefined && next === me) return; if (t !== undefined) N.evidence = [t];
  const r = await X.tryAsync(() => t === undefined ? h.createDispute(fork, N.parts[next], len, []) : h.createDispute(fork, K.ZERO, 0, [w.equivocation(t)]));
  X.check(r.ok, 'raising a dispute that exists in the end does not fail'); await X.pump(4); const d = W.note();
  for (const e of W.seen) N.sm.onDisputeUpdate(e.d); await X.pump(8);
  const { end, c, subs } = judge(X, w, N, n, me, W.seen, fork); X.check(X.is(X.numEq(end.forkCnt, fork)), 'the dispute is about the fork'); X.check(subs.length <= 4, 'a dispute is not challenged over and over');
  for (const s of w.C.of(me, 'createDispute')) X.check(X.is(X.numEq(s.args[1], fork)), 'the dispute names the fork');
  if (c.out(me)) { X.reach('the node was slashed'); return; }
  const mine = w.C.of(me, 'createDispute').some(s => s.ok);
  if (t !== undefined) { X.check(c.out(t), 'known evidence is used'); X.reach(mine ? 'dispute with evidence' : 'evidence in a dispute of somebody else'); }
  else if (mine) { X.check(rival || X.is(X.eq(end.timedoutParticipant, N.parts[next])), 'the timeout is raised'); X.reach('dispute with timeout'); }
}, { weight: n * (len + 1) * 3 });
// evidence against one participant after the other: all of it is used, whatever happened to the first submission
const twice = (n, len, fork, way) => job(`evidence against two, ${way}, ${n} participants, ${len} agreed, fork ${fork}`, async X => {
  const w = world(X, n, len, { fork }); const me = X.choose(n, 'me'); X.nowMs = NOW; let lost = way === 'the first lost' ? 2 : 0; const W = watch(X, w, 'createDispute');
  const N = w.peer(me, { before: async (what, a) => { if (what === 'createDispute' && lost) { lost--; throw new Error('unreachable'); } await W.before(what, a); } }); confirm(X, w, N, n, me); const h = N.sm.disputeHandler;
  const others = Array.from({ length: n }, (_, i) => i).filter(i => i !== me); if (X.choose(2, 'order')) others.reverse(); const [a, b] = others; N.evidence = [a, b]; const raise = t => X.tryAsync(() => h.createDispute(fork, K.ZERO, 0, [w.equivocation(t)]));
  const first = raise(a); if (way !== 'at once') { await first; await X.pump(4); if (way === 'one by one') for (const e of W.seen) N.sm.onDisputeUpdate(e.d); } const second = await raise(b); await first; await X.pump(8); const d = W.note();
  if (X.choose(2, 'announced')) { for (const e of W.seen) N.sm.onDisputeUpdate(e.d); await X.pump(8); } else { N.sm.onDisputeUpdate(d); await X.pump(8); }
  const { end, c } = judge(X, w, N, n, me, W.seen, fork); X.check(X.is(X.numEq(end.forkCnt, fork)), 'the dispute is about the fork'); X.check(c.out(a) && c.out(b), 'evidence against several participants is all used'); X.reach('two equivocators');
}, { weight: n * (len + 1) * 2 });
// a submission that fails is contained: handling goes on and nothing fails in the background
const contained = trigger => ({ kind: 'ts', samples: 2, weight: 2, name: `${trigger}, the contract fails`, run: async X => {
  X.nowMs = NOW; const which = X.oneOf(['createDispute', 'challengeDispute', 'getDispute', 'none exists', ''], 'fails'); const fault = x => x === which; const ds = new Map();
  const D = (f, c, o) => ({ channelId: K.CH, forkCnt: BigInt(f), challengeCnt: BigInt(c), slashedParticipants: [], virtualVotingBlocks: [], foldedTransactionCnt: 0n, timedoutParticipant: K.ZERO, postedStateDisputer: N.parts[1], timeoutDisputer: K.ZERO, ...o });
  const N = node(X, { me: 0, parts: 2, lens: [1], author: () => 1, fault, contract: { getDispute: async () => which === 'none exists' ? D(0, 0, { channelId: '0x' + '00'.repeat(32) }) : D(0, 5, { postedStateDisputer: N.parts[0] }) } });
  const top = N.top.blocks[0]; const a = 1; let r; const mk = (h, o) => K.signedBy(X, K.plain(X, 'block', { forkCnt: 0n, transactionCnt: BigInt(h), participant: X.party(a), encodedData: '0x', data: '0x', previousStateHash: X.hash('prev'), timestamp: BigInt(NOW / 1000), ...o }), a);
  if (trigger === 'a dispute event') { const g = X.signBytes(0, K.enc(X, top.b)); N.am.confirmBlock(top.b, g); const t = X.choose(2, 'timeout'); r = await X.tryAsync(async () => N.sm.onDisputeUpdate(D(0, 0, t ? { timedoutParticipant: N.parts[0], timeoutDisputer: N.parts[1] } : {}))); }
  if (trigger === 'an equivocation') { r = await X.tryAsync(() => N.sm.onSignedBlock(mk(0))); }
  if (trigger === 'an incorrect block') { const n = X.choose(2, 'linked'); r = await X.tryAsync(() => N.sm.onSignedBlock(mk(1, n ? { previousStateHash: X.eth.keccak256(top.state) } : {}))); }
  if (trigger === 'an incorrect posting') { const h = X.choose(2, 'height'); const n = X.choose(2, 'linked'); r = X.try(() => N.sm.collectOnChainBlock(mk(h, n ? { previousStateHash: X.eth.keccak256(h ? top.state : N.top.genesis) } : {}), NOW / 1000)); }
  if (trigger === 'a block from the future') r = await X.tryAsync(() => N.sm.onSignedBlock(mk(1, { previousStateHash: X.eth.keccak256(top.state), timestamp: BigInt(NOW / 1000 + 1000) })));
  if (trigger === 'a timer') { await X.tryAsync(() => N.sm.tryTimeoutParticipant(0, 1, N.parts[1])); r = { ok: true }; for (const t of X.liveTimers()) X.fire(t); }
  await X.pump(10); X.check(r.ok, 'handling goes on'); X.check(X.unhandled.length === 0, 'a failed submission is contained'); X.check(!N.locked(), 'the node is not locked'); if (N.log.some(l => fault(l[0]))) X.reach('failed submission');
} });
const TRIGGERS = ['a dispute event', 'an equivocation', 'an incorrect block', 'an incorrect posting', 'a block from the future', 'a timer'];
module.exports = {
  id: 'T13', level: 'model_checking',
  bounds: { participants: '2..3', agreed_chain: '0..2 blocks (thorough: 3), each signed by any subset of the participants', disputes: 'raised by the node or by anybody else on any prefix of the agreed chain, with or without timeout or proof', competition: 'one rival submission immediately before any submission of the node; dispute events delivered on time, repeatedly or late', failures: 'each contract call failing' },
  outside: ['more than one rival submission', 'proofs about participants who joined later', 'gas limits and inclusion delays'],
  mustReach: ['challenged', 'accepted as it is', 'timeout withdrawn', 'newer state', 'overtaken', 'overtaken when creating', 'dispute with evidence', 'evidence in a dispute of somebody else', 'dispute with timeout', 'the node was slashed', 'failed submission', 'two equivocators'],
  jobs: tier => {
    const jobs = []; const th = tier === 'thorough';
    for (const [n, len, f] of th ? [[2, 1, 0], [2, 2, 1], [3, 1, 0], [3, 2, 0], [3, 3, 0]] : [[2, 1, 0], [2, 2, 1], [3, 1, 0], [3, 2, 0]]) for (const t of [0, 1]) { jobs.push(react(n, len, f, t, false)); if (n > 2) jobs.push(react(n, len, f, t, true)); }
    for (const [n, len, f] of th ? [[2, 0, 0], [2, 1, 1], [3, 1, 0], [3, 2, 0]] : [[2, 1, 1], [3, 1, 0]]) for (const k of ['a timeout', 'an equivocation']) for (const r of ['', 'overtaken', 'known before']) { jobs.push(own(n, len, f, k, r)); }
    for (const [n, len, f] of th ? [[3, 1, 0], [3, 2, 1]] : [[3, 1, 0]]) for (const way of ['one by one', 'at once', 'the first lost']) jobs.push(twice(n, len, f, way));
    for (const t of TRIGGERS) jobs.push(contained(t));
    return jobs;
  },
};
