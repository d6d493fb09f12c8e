'use strict';
const { T, B } = require('../sol/lib');
const abi = require('../engine/abi');
const tx = (X, l, data) => X.v('Transaction', { header: { channelId: X.b32(l + '.channel'), participant: X.addr(l + '.who'), forkCnt: X.u(l + '.fork'), transactionCnt: X.u(l + '.height'), timestamp: X.u(l + '.stamp') }, body: { transactionType: T.ZERO, encodedData: B.EMPTY, data } });
const st = (X, l, n) => { const num = X.u(l + '.number'), bal = X.P.slice(0, n).map((_, i) => X.u(l + '.balance' + i)); return { num, bal, parts: X.P.slice(0, n), enc: X.hstate({ number: num, participants: X.P.slice(0, n), balances: bal }) }; };
const call = (X, kind, k) => kind === 'play' ? X.play(k) : kind === 'empty' ? B.EMPTY : B.call('deadbeef', [abi.word('uint256')], [k]);
function job(n, kind, prior) {
  return { name: `re-execution n=${n} ${kind} after ${prior}`, weight: 2, samples: 3, run(X) {
    X.setup().open(2, { number: X.u('genesis.number', 100n) });
    if (prior === 'dispute') X.must(X.tx(X.P[0], 'createDispute', [X.ch, T.ZERO, X.genesis, X.genesis, [], T.ZERO, T.ZERO, [X.equivocation(X.parts[1])]]));
    else if (prior !== 'nothing') { const s0 = st(X, 'before', 3); X.tx(X.P[3], 'executeStateTransitionOnState', [X.ch, s0.enc, tx(X, 'txBefore', call(X, prior, X.u('kBefore')))]); }
    const before = X.snapshot(); const s = st(X, 'state', n), k = X.u('k'), t = tx(X, 'tx', call(X, kind, k)), who = t[0][1];
    const r = X.tx(X.addr('sender'), 'executeStateTransitionOnState', [X.b32('anyChannel'), s.enc, t]);
    X.check(T.bool(r.ok), 're-execution itself never fails'); if (!r.ok) return;
    const legal = kind === 'play' ? T.and(T.eq(who, X.next(s.num, s.parts)), T.gt(k, T.ZERO), T.le(T.add(s.num, k), T.int((1n << 256n) - 1n))) : T.FALSE;
    X.iff(r.ret[0], legal, 're-execution reports exactly whether the transaction is legal');
    X.check(T.implies(legal, B.eq(r.ret[1], X.hstate({ number: T.add(s.num, k), participants: s.parts, balances: s.bal }))), 'the new state is the effect of the transaction on the supplied state');
    X.check(T.implies(T.not(legal), B.eq(r.ret[1], s.enc)), 'a rejected transaction leaves the supplied state');
    X.check(X.sameSnap(before, X.snapshot()), 're-execution alters no channel');
    X.E.reach(X.E.decide(legal) ? 'legal' : 'illegal');
    const d = X.W.deploy(X.prog.contract('HarnessStateMachine')); X.must(X.W.tx(X.P[0], d, 'setState', [s.enc])); const r2 = X.W.tx(X.P[0], d, 'stateTransition', [t]);
    X.iff(T.bool(r2.ok), r.ret[0], 'running the state machine directly agrees'); X.check(B.eq(X.must(X.W.tx(X.P[0], d, 'getState', [])).ret[0], r.ret[1]), 'and yields the same state');
  } };
}
module.exports = { id: 'S21', bounds: { participants: '1 to 3', words: 'all state numbers, balances, move arguments, headers and senders' }, outside: ['applications other than the harness state machine', 'states that do not decode'], mustReach: ['legal', 'illegal'],
  jobs: () => [job(2, 'play', 'nothing'), job(3, 'play', 'play'), job(2, 'play', 'unknown'), job(1, 'play', 'dispute'), job(2, 'unknown', 'play'), job(2, 'empty', 'nothing')] };
