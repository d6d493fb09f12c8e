'use strict';
const { T, B } = require('../sol/lib');
const abi = require('../engine/abi');
const MAX = (1n << 256n) - 1n;
function tx(X, data, o = {}) { return X.v('Transaction', { header: { channelId: X.b32('tx.channel'), participant: X.addr('tx.who'), forkCnt: X.u('tx.fork'), transactionCnt: X.u('tx.height'), timestamp: X.u('tx.stamp'), ...o }, body: { transactionType: T.ZERO, encodedData: B.EMPTY, data } }); }
const get = (X, sm) => X.must(X.W.tx(X.P[4], sm, 'getState', [])).ret[0];
function plain(n, call) {
  return { name: `transition n=${n} ${call}`, samples: 3, run(X) {
    X.setup({ times: null }); const parts = X.P.slice(0, n), num = X.u('number'), bal = parts.map((_, i) => X.u('balance' + i)); const st = X.hstate({ number: num, participants: parts, balances: bal });
    const k = X.u('n');
    X.must(X.W.tx(X.P[0], X.sm, 'setState', [st])); X.check(B.eq(get(X, X.sm), st), 'a restored state reads back as the same bytes');
    const data = call === 'play' ? X.play(k) : call === 'empty' ? B.EMPTY : B.call('deadbeef', [abi.word('uint256')], [k]);
    const t = tx(X, data); const who = t[0][1];
    const r = X.W.tx(X.P[1], X.sm, 'stateTransition', [t]);
    const spec = call === 'play' ? T.and(T.eq(who, n ? X.next(num, parts) : who), T.gt(k, T.ZERO), T.le(T.add(num, k), T.int(MAX))) : T.FALSE;
    X.iff(T.bool(r.ok), spec, 'a transition succeeds exactly when the requested function does');
    if (r.ok) { X.check(r.ret[0], 'a successful transition reports success'); X.check(B.eq(get(X, X.sm), X.hstate({ number: T.add(num, k), participants: parts, balances: bal })), 'a successful transition applies the function fully'); } else X.check(B.eq(get(X, X.sm), st), 'a failed transition leaves the state as it was');
    X.E.reach(r.ok ? 'applied' : 'rejected');
    // never left locked: every guarded operation still works
    const st2 = X.hstate({ number: T.int(5), participants: [X.P[0], X.P[1]], balances: [T.ONE, T.int(2)] });
    for (const f of [() => X.W.tx(X.P[0], X.sm, 'setState', [st2]), () => X.W.tx(X.P[0], X.sm, 'joinChannel', [X.v('JoinChannel', { participant: X.P[2], amount: T.ONE })]), () => X.W.tx(X.P[0], X.sm, 'slashParticipant', [X.P[2]]), () => X.W.tx(X.P[0], X.sm, 'removeParticipant', [X.P[1]])]) X.check(T.bool(f().ok), 'the state machine is never left locked');
    X.check(B.eq(get(X, X.sm), X.hstate({ number: T.int(5), participants: [X.P[0]], balances: [T.ONE] })), 'later operations take effect');
  } };
}
function reentrant() {
  return { name: 're-entry', weight: 3, samples: 5, run(X) {
    X.setup({ times: null }); const sm = X.W.deploy(X.prog.contract('ReentrantStateMachine')); const parts = X.P.slice(0, 2), num = X.u('number', 1000n);
    const st = X.hstate({ number: num, participants: parts, balances: [T.ONE, T.int(2)] }); X.must(X.W.tx(X.P[0], sm, 'setState', [st]));
    const which = X.E.choose(5, 'which'), bubble = X.E.choose(2, 'bubble');
    const t = tx(X, B.call(X.prog.byName(sm.c, 'reenter').functionSelector, [abi.word('uint256'), abi.word('bool')], [T.int(which), T.int(bubble)]), { participant: X.next(num, parts) });
    const r = X.W.tx(X.P[1], sm, 'stateTransition', [t]);
    X.check(T.bool(r.ok === !bubble), 'the outer call fails exactly if it insists on the re-entry');
    X.check(B.eq(get(X, sm), st), 'no guarded operation can be re-entered');
    X.E.reach(['setState', 'stateTransition', 'joinChannel', 'slashParticipant', 'removeParticipant'][which] + ' refused');
    X.check(T.bool(X.W.tx(X.P[0], sm, 'setState', [st]).ok), 'afterwards the state machine is not locked');
  } };
}
function badState() {
  return { name: 'restoring an undecodable state', samples: 2, run(X) {
    X.setup({ times: null }); const st = X.hstate({ number: X.u('number'), participants: [X.P[0]], balances: [T.ONE] }); X.must(X.W.tx(X.P[0], X.sm, 'setState', [st]));
    const r = X.W.tx(X.P[0], X.sm, 'setState', [X.E.choose(2, 'kind') ? B.EMPTY : B.word(T.int(7))]); X.check(T.bool(!r.ok), 'an undecodable state is refused'); X.check(B.eq(get(X, X.sm), st), 'and leaves the state as it was');
    X.check(T.bool(X.W.tx(X.P[0], X.sm, 'setState', [st]).ok), 'and does not lock the state machine'); X.E.reach('undecodable');
  } };
}
module.exports = { id: 'S20', contracts: [['verif/Harness.sol', 'HarnessStateMachine'], ['verif/Harness.sol', 'ReentrantStateMachine'], ['verif/Harness.sol', 'HarnessManager'], ['contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol', 'DisputeManagerFacet'], ['contracts/V1/StateChannelDiamondProxy/StateChannelUtilLibrary.sol', 'StateChannelUtilLibrary']],
  bounds: { participants: 'up to 3', words: 'all state numbers, balances, move arguments and transaction headers' }, outside: ['applications other than the harness state machine'],
  mustReach: ['applied', 'rejected', 'undecodable', 'setState refused', 'stateTransition refused', 'joinChannel refused', 'slashParticipant refused', 'removeParticipant refused'],
  jobs: () => [plain(2, 'play'), plain(3, 'play'), plain(0, 'play'), plain(2, 'unknown'), plain(2, 'empty'), reentrant(), badState()] };
