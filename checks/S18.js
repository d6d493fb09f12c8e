'use strict';
const { T, B } = require('../sol/lib');
function agreement(X, k, o = {}) {
  const q = { channelId: X.b32('jc.channel'), participant: X.addr('newcomer'), amount: X.u('amount'), deadlineTimestamp: X.u('deadline'), data: B.EMPTY, ...o.q };
  const e = X.enc('JoinChannel', q), own = X.sig('own');
  const a = { signedJoinChannel: { encodedJoinChannel: e, signature: own }, submitter: X.addr('submitter'), forkCnt: X.u('fork'), transactionCnt: X.u('height'), previousStateHash: X.b32('stateHash'), ...o.a };
  const enc = X.enc('JoinChannelAgreement', a), sigs = []; for (let i = 0; i < k; i++) sigs.push(X.sig('sig' + i));
  return { q, a, enc, sigs, own: T.eq(X.recovered(own, e), q.participant), all: parts => T.and(...parts.map(p => T.or(...sigs.map(s => T.eq(X.recovered(s, enc), p))))) };
}
const state = (X, num, parts, bal) => X.hstate({ number: num, participants: parts, balances: bal });
function job(n, k, o = {}) {
  return { name: `join by agreement n=${n} sigs=${k}${o.refuse ? ' refused' : ''}`, weight: n + 2 * k, samples: 3, run(X) {
    X.setup().open(n, { fork: n > 2, number: T.int(0) }); X.W.now = X.time('now'); X.E.assume(T.le(X.genesisTime, X.W.now));
    if (o.refuse) X.must(X.tx(X.P[5], 'setRefuse', [T.TRUE]));
    const g = agreement(X, k, o.refuse ? { q: { channelId: X.ch } } : {}); const num = X.u('number', 1000n), bal = X.parts.map((_, i) => X.u('balance' + i, 1000n)); const st = state(X, num, X.parts, bal);
    const who = X.addr('sender'); const before = X.snapshot();
    const r = X.tx(who, 'joinChannelWithAgreement', [[g.enc, g.sigs], st]);
    const spec = T.and(T.eq(g.q.channelId, X.ch), T.eq(g.a.forkCnt, X.fork), T.eq(g.a.previousStateHash, X.hash(st)), T.not(X.isIn(g.q.participant, X.parts)), X.isIn(g.a.submitter, X.parts), T.eq(who, g.a.submitter), g.all(X.parts), g.own, T.bool(!o.refuse));
    X.iff(T.bool(r.ok), spec, 'a newcomer joins exactly with unanimous consent');
    X.E.reach(r.ok ? 'joined' : 'rejected');
    if (!r.ok) { X.check(X.sameSnap(before, X.snapshot()), 'a rejected join changes nothing'); return; }
    after(X, state(X, num, [...X.parts, g.q.participant], [...bal, g.q.amount]), T.add(X.fork, T.ONE), g);
  } };
}
function after(X, want, fork, g) {
  const fk = X.must(X.tx(X.P[5], 'getForkCnt', [X.ch])).ret[0], cur = X.must(X.tx(X.P[5], 'getLatestState', [X.ch])).ret[0], gt = X.must(X.tx(X.P[5], 'getGenesisTimestamp', [X.ch, fork])).ret[0];
  X.check(T.and(T.eq(fk, fork), B.eq(cur, want), T.eq(gt, X.W.now)), 'the fork advances by one to the supplied state with the newcomer');
  const rec = X.must(X.tx(X.P[5], 'recorded', [])).ret; X.check(T.and(T.bool(rec[0].items.length === 1), T.eq(rec[0].items[0], g.q.participant)), 'the deposit hook runs once');
}
// with a dispute before
function disputed() {
  return { name: 'join around a dispute', weight: 6, samples: 3, run(X) {
    X.setup().open(3, { number: T.int(0) });
    X.must(X.tx(X.P[0], 'createDispute', [X.ch, T.ZERO, X.genesis, X.genesis, [], T.ZERO, T.ZERO, [X.equivocation(X.parts[2])]]));
    const deadline = T.add(X.W.now, X.times[3]); const b = X.W.now; X.W.now = X.time('now'); X.E.assume(T.le(b, X.W.now));
    const st = X.must(X.tx(X.P[5], 'getLatestState', [X.ch])).ret[0]; const parts = X.parts.slice(0, 2);
    const g = agreement(X, 2, { q: { channelId: X.ch }, a: { forkCnt: X.u('fork'), previousStateHash: X.hash(st), submitter: X.P[0] } });
    X.E.assume(T.and(g.own, g.all(parts)));
    const before = X.snapshot(); const r = X.tx(X.P[0], 'joinChannelWithAgreement', [[g.enc, g.sigs], st]);
    X.iff(T.bool(r.ok), T.and(T.lt(deadline, X.W.now), T.eq(g.a.forkCnt, T.ONE), T.not(X.isIn(g.q.participant, parts))), 'joining waits for the dispute to end and concerns the new fork');
    if (!r.ok) { X.check(X.sameSnap(before, X.snapshot()), 'a rejected join changes nothing'); return; }
    after(X, state(X, T.ZERO, [...parts, g.q.participant], [T.int(10), T.int(11), g.q.amount]), T.int(2), g); X.E.reach('joined after a dispute');
    const again = X.tx(X.P[0], 'joinChannelWithAgreement', [[g.enc, g.sigs], st]); X.check(T.bool(!again.ok), 'an agreement cannot be used twice');
  } };
}
module.exports = { id: 'S18', bounds: { participants: '2 and 3', signatures: 'up to 3', words: 'all fields of request and agreement, all senders' }, outside: ['deadlines of join agreements (the contract does not look at them)'], mustReach: ['joined', 'rejected', 'joined after a dispute'], jobs: tier => [job(2, 1), job(2, 2), job(2, 2, { refuse: true }), job(3, 3), disputed(), ...(tier === 'thorough' ? [job(2, 3)] : [])] };
