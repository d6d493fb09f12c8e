'use strict';
const { T, B } = require('../sol/lib');
function request(X, label) { return { channelId: X.b32(label + '.channel'), participant: X.addr(label + '.newcomer'), amount: X.u(label + '.amount'), deadlineTimestamp: X.u(label + '.deadline'), data: X.atom(label + '.data') }; }
function joinProof(X, label, k, fixed = {}) {
  const q = { ...request(X, label), ...fixed }; const e = X.enc('JoinChannel', q), own = X.sig(label + '.own');
  const s = X.enc('SignedJoinChannel', { encodedJoinChannel: e, signature: own }); const sigs = []; for (let i = 0; i < k; i++) sigs.push(X.sig(label + '.sig' + i));
  const recs = sigs.map(x => X.recovered(x, s));
  return { q, ownOk: T.eq(X.recovered(own, e), q.participant), all: parts => T.and(...parts.map(p => T.or(...recs.map(x => T.eq(x, p))))), proof: X.proof('JoinChannel', 'JoinChannelProof', { encodedSignedJoinChannel: s, signatures: sigs }) };
}
function job(n, k) {
  return { name: `join n=${n} sigs=${k}`, weight: 2 + n + k, samples: 3, run(X) {
    const num = X.u('number', 1000n); X.setup().open(n, { fork: n > 2, number: num }); X.W.now = X.time('now'); X.E.assume(T.le(X.genesisTime, X.W.now));
    const refuse = X.E.choose(2, 'refuse'); if (refuse) X.must(X.tx(X.P[5], 'setRefuse', [T.TRUE]));
    const j = joinProof(X, 'join', k); const caller = X.parts[X.E.choose(n, 'caller')];
    const r = X.tx(caller, 'createDispute', [X.ch, X.fork, X.genesis, X.genesis, [], T.ZERO, T.ZERO, [j.proof]]);
    const spec = T.and(j.all(X.parts), j.ownOk, T.eq(j.q.channelId, X.ch), T.gt(j.q.deadlineTimestamp, X.W.now), T.not(X.isIn(j.q.participant, X.parts)), T.eq(caller, X.next(num, X.parts)), T.bool(!refuse));
    X.iff(T.bool(r.ok), spec, 'a join proof is accepted exactly with everybody\'s consent, in time and on the caller\'s turn');
    X.E.reach(r.ok ? 'accepted' : 'rejected');
    const rec = X.must(X.tx(X.P[5], 'recorded', [])).ret;
    if (!r.ok) { X.check(T.bool(rec[0].items.length === 0), 'a rejected join takes no deposit'); return; }
    X.check(T.and(T.bool(rec[0].items.length === 1), T.eq(rec[0].items[0], j.q.participant)), 'the deposit hook runs exactly once for the newcomer');
    const d = X.dispute(); X.check(T.and(T.bool(d.joinChannelParticipants.length === 1), T.eq(d.joinChannelParticipants[0].participant, j.q.participant), T.eq(d.joinChannelParticipants[0].amount, j.q.amount)), 'the newcomer is recorded');
    X.check(T.bool(d.slashedParticipants.length === 0), 'nobody is slashed');
  } };
}
function twice() {
  return { name: 'two join proofs in one call', weight: 8, samples: 3, run(X) {
    X.setup({ sm: 'LenientStateMachine' }).open(2, { number: T.int(0) });
    const mk = (l) => joinProof(X, l, 2, { channelId: X.ch, deadlineTimestamp: X.u(l + '.later', undefined, 1000001n), data: B.EMPTY });
    const a = mk('a'), b = mk('b'); for (const j of [a, b]) X.E.assume(T.and(j.ownOk, j.all(X.parts), T.not(X.isIn(j.q.participant, X.parts))));
    const r = X.tx(X.P[0], 'createDispute', [X.ch, X.fork, X.genesis, X.genesis, [], T.ZERO, T.ZERO, [a.proof, b.proof]]);
    X.iff(T.bool(r.ok), T.ne(a.q.participant, b.q.participant), 'the same newcomer cannot join twice');
    const rec = X.must(X.tx(X.P[5], 'recorded', [])).ret; X.check(T.bool(rec[0].items.length === (r.ok ? 2 : 0)), 'one deposit per newcomer'); X.E.reach('two joins');
  } };
}
function challenge() {
  return { name: 'join in a challenge', weight: 8, samples: 3, run(X) {
    X.setup().open(3, { number: T.int(3) });
    X.must(X.tx(X.P[0], 'createDispute', [X.ch, X.fork, X.genesis, X.genesis, [], T.ZERO, T.ZERO, [X.equivocation(X.parts[2])]]));
    X.W.now = X.u('now', 1000059n, 1000000n);
    const j = joinProof(X, 'join', 3, { data: B.EMPTY }); const caller = X.parts[X.E.choose(2, 'caller')];
    const r = X.tx(caller, 'challengeDispute', [X.ch, X.fork, T.ZERO, [j.proof], [], X.genesis, X.genesis]);
    // the recorded state has participants P0, P1 and number 3: P1 is next
    const spec = T.and(j.all(X.parts), j.ownOk, T.eq(j.q.channelId, X.ch), T.gt(j.q.deadlineTimestamp, X.W.now), T.not(X.isIn(j.q.participant, X.parts)), T.eq(caller, X.P[1]));
    X.iff(T.bool(r.ok), spec, 'the same rules hold in a challenge'); if (r.ok) X.E.reach('challenged');
  } };
}
module.exports = {
  contracts: [...['HarnessStateMachine', 'LenientStateMachine', 'HarnessManager'].map(c => ['verif/Harness.sol', c]), ...['DisputeManagerFacet', 'StateChannelUtilLibrary'].map(c => [`contracts/V1/StateChannelDiamondProxy/${c}.sol`, c])],
  id: 'S12', bounds: { participants: '2 and 3', signatures: 'up to 3', words: 'all values of every request field; chain time below 2^40' }, outside: ['more signatures'],
  mustReach: ['accepted', 'rejected', 'two joins', 'challenged'], jobs: tier => [job(2, 1), job(2, 2), job(2, 3), job(3, 3), twice(), challenge(), ...(tier === 'thorough' ? [job(3, 4), job(1, 3)] : [])],
};
