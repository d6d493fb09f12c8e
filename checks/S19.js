'use strict';
const { T, B } = require('../sol/lib');
const state = (X, num, parts, bal) => X.hstate({ number: num, participants: parts, balances: bal });
function leaving(X, k, o = {}) {
  const q = { channelId: X.b32('channel'), participant: X.addr('leaver'), forkCnt: X.u('fork'), transactionCnt: X.u('height'), previousStateHash: X.b32('stateHash'), deadlineTimestamp: X.u('deadline'), data: X.atom('data'), ...o };
  const enc = X.enc('LeaveChannel', q), sigs = []; for (let i = 0; i < k; i++) sigs.push(X.sig('sig' + i));
  return { q, enc, sigs, all: parts => T.and(...parts.map(p => T.or(...sigs.map(s => T.eq(X.recovered(s, enc), p))))) };
}
const without = (list, i) => { const l = list.slice(); l[i] = l[l.length - 1]; l.pop(); return l; };
function after(X, g, num, parts, bal, fork, earlier) {
  const fk = X.must(X.tx(X.P[5], 'getForkCnt', [X.ch])).ret[0], cur = X.must(X.tx(X.P[5], 'getLatestState', [X.ch])).ret[0], gt = X.must(X.tx(X.P[5], 'getGenesisTimestamp', [X.ch, fork])).ret[0];
  const rec = X.must(X.tx(X.P[5], 'recorded', [])).ret;
  X.check(T.and(T.eq(fk, fork), T.eq(gt, X.W.now)), 'the fork advances by one');
  X.check(T.and(...parts.map((p, i) => T.implies(T.eq(g.q.participant, p), B.eq(cur, state(X, num, without(parts, i), without(bal, i)))))), 'the new state is the supplied state without the leaver');
  const l = rec[1].items, a = rec[2].items;
  X.check(T.and(T.bool(l.length === earlier + 1), T.eq(l[earlier], g.q.participant), ...parts.map((p, i) => T.implies(T.eq(g.q.participant, p), T.eq(a[earlier], bal[i])))), 'the exit is handed over once with the leaver\'s balance');
}
function job(n, k, o = {}) {
  return { name: `leave by agreement n=${n} sigs=${k}${o.refuse ? ' refused' : ''}`, weight: n + 2 * k, samples: 3, run(X) {
    X.setup().open(n, { fork: n > 2, number: T.int(0) }); X.W.now = X.time('now'); X.E.assume(T.le(X.genesisTime, X.W.now)); if (o.refuse) X.must(X.tx(X.P[5], 'setRefuse', [T.TRUE]));
    const g = leaving(X, k, o.refuse ? { channelId: X.ch } : {}); const num = X.u('number', 1000n), bal = X.parts.map((_, i) => X.u('balance' + i, 1000n)); const st = state(X, num, X.parts, bal);
    const before = X.snapshot(); const r = X.tx(X.addr('sender'), 'leaveChannelWithAgreement', [[g.enc, g.sigs], st]);
    const spec = T.and(T.eq(g.q.channelId, X.ch), T.eq(g.q.forkCnt, X.fork), T.eq(g.q.previousStateHash, X.hash(st)), X.isIn(g.q.participant, X.parts), g.all(X.parts), T.bool(!o.refuse));
    X.iff(T.bool(r.ok), spec, 'a participant leaves exactly with unanimous consent'); X.E.reach(r.ok ? 'left' : 'rejected');
    if (!r.ok) { X.check(X.sameSnap(before, X.snapshot()), 'a rejected departure changes nothing'); return; }
    after(X, g, num, X.parts, bal, T.add(X.fork, T.ONE), 0);
  } };
}
function disputed() {
  return { name: 'leave around a dispute', weight: 6, samples: 3, run(X) {
    X.setup().open(3, { number: T.int(0) });
    X.must(X.tx(X.P[0], 'createDispute', [X.ch, T.ZERO, X.genesis, X.genesis, [], T.ZERO, T.ZERO, [X.equivocation(X.parts[2])]]));
    const deadline = T.add(X.W.now, X.times[3]); const b = X.W.now; X.W.now = X.time('now'); X.E.assume(T.le(b, X.W.now));
    const st = X.must(X.tx(X.P[5], 'getLatestState', [X.ch])).ret[0]; const parts = X.parts.slice(0, 2);
    const g = leaving(X, 2, { channelId: X.ch, previousStateHash: X.hash(st) }); X.E.assume(g.all(parts));
    const before = X.snapshot(); const r = X.tx(X.P[4], 'leaveChannelWithAgreement', [[g.enc, g.sigs], st]);
    X.iff(T.bool(r.ok), T.and(T.lt(deadline, X.W.now), T.eq(g.q.forkCnt, T.ONE), X.isIn(g.q.participant, parts)), 'leaving waits for the dispute to end and concerns the new fork');
    if (!r.ok) { X.check(X.sameSnap(before, X.snapshot()), 'a rejected departure changes nothing'); return; }
    after(X, g, T.ZERO, parts, [T.int(10), T.int(11)], T.int(2), 1); X.E.reach('left after a dispute');
    const again = X.tx(X.P[4], 'leaveChannelWithAgreement', [[g.enc, g.sigs], st]); X.check(T.bool(!again.ok), 'an agreement cannot be used twice');
  } };
}
module.exports = { id: 'S19', bounds: { participants: '2 and 3', signatures: 'up to 3', words: 'all fields of the agreement, all senders' }, outside: ['deadlines of leave agreements (the contract does not look at them)'], mustReach: ['left', 'rejected', 'left after a dispute'], jobs: tier => [job(2, 1), job(2, 2), job(2, 2, { refuse: true }), job(3, 3), disputed(), ...(tier === 'thorough' ? [job(2, 3)] : [])] };
