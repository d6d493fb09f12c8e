'use strict';
const { T, B } = require('../sol/lib');
const abi = require('../engine/abi');
const MAX = (1n << 256n) - 1n;
const ms = (X, number, participants) => X.enc('MathState', { number, participants });
const get = X => X.must(X.W.tx(X.P[4], X.math, 'getState', [])).ret[0];
const tx = (X, who, data) => X.v('Transaction', { header: { channelId: X.b32('channel'), participant: who, forkCnt: X.u('fork'), transactionCnt: X.u('height'), timestamp: X.u('stamp') }, body: { transactionType: T.ZERO, encodedData: B.EMPTY, data } });
function start(X, n, distinct = true) {
  X.setup({ times: null }); X.math = X.W.deploy(X.prog.contract('MathStateMachine'));
  const num = X.u('number'), parts = Array.from({ length: n }, (_, i) => X.addr('party' + i)); if (distinct) X.E.assume(T.and(...parts.flatMap((p, i) => parts.slice(i + 1).map(q => T.ne(p, q)))));
  const st = ms(X, num, parts); const r = X.W.tx(X.P[0], X.math, 'setState', [st]); X.check(T.bool(r.ok), 'a saved state can be restored'); X.check(B.eq(get(X), st), 'a saved state restores to the same game');
  const ps = X.must(X.W.tx(X.P[0], X.math, 'getParticipants', [])).ret[0].items; X.check(T.and(T.bool(ps.length === n), ...ps.slice(0, n).map((p, i) => T.eq(p, parts[i]))), 'the participants are those of the state');
  const s = X.must(X.W.tx(X.P[0], X.math, 'getSum', [])).ret[0]; X.check(T.eq(s, num), 'the total is that of the state');
  return { num, parts, st };
}
function move(n) {
  return { name: `move n=${n}`, samples: 3, run(X) {
    const g = start(X, n); const who = X.addr('mover'), k = X.u('k');
    const next = X.must(X.W.tx(X.P[0], X.math, 'getNextToWrite', [])).ret[0]; X.check(T.eq(next, X.next(g.num, g.parts)), 'turns go round in order');
    const r = X.W.tx(X.P[1], X.math, 'stateTransition', [tx(X, who, B.call(X.prog.byName(X.math.c, 'add').functionSelector, [abi.word('uint256')], [k]))]);
    X.iff(T.bool(r.ok), T.and(T.eq(who, X.next(g.num, g.parts)), T.le(T.add(g.num, k), T.int(MAX))), 'a move is accepted exactly on the mover\'s turn');
    X.check(B.eq(get(X), r.ok ? ms(X, T.add(g.num, k), g.parts) : g.st), r.ok ? 'a move adds exactly the given number' : 'a refused move changes nothing'); X.E.reach(r.ok ? 'moved' : 'refused');
  } };
}
function remove(n, f) {
  return { name: `${f} n=${n}`, samples: 3, run(X) {
    const g = start(X, n), who = X.addr('target'); const r = X.must(X.W.tx(X.P[0], X.math, f, [who])); const inside = X.isIn(who, g.parts);
    X.iff(r.ret[0], inside, 'removal succeeds exactly for participants'); const after = X.must(X.W.tx(X.P[0], X.math, 'getParticipants', [])).ret[0].items, s = X.must(X.W.tx(X.P[0], X.math, 'getSum', [])).ret[0];
    const was = X.E.decide(inside); X.check(T.eq(s, g.num), 'the total is kept'); X.check(T.bool(after.length === (was ? n - 1 : n)), 'exactly one leaves');
    X.check(T.and(...g.parts.map(p => T.eq(X.isIn(p, after), T.not(T.and(T.bool(was), T.eq(p, who)))))), 'exactly the removed participant is gone'); X.E.reach(was ? 'removed' : 'absent');
    if (was) X.check(T.eq(X.obj(r.ret[1]).participant, who), 'the exit names the removed participant');
  } };
}
module.exports = { id: 'S23', contracts: [['contracts/V1/examples/MathStateMachine/MathStateMachine.sol', 'MathStateMachine'], ['verif/Harness.sol', 'HarnessStateMachine'], ['verif/Harness.sol', 'HarnessManager'], ['contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol', 'DisputeManagerFacet'], ['contracts/V1/StateChannelDiamondProxy/StateChannelUtilLibrary.sol', 'StateChannelUtilLibrary']],
  bounds: { participants: 'up to 4', words: 'all totals, numbers and addresses' }, outside: ['more participants'], mustReach: ['moved', 'refused', 'removed', 'absent'],
  jobs: () => [move(1), move(2), move(3), move(4), ...[0, 1, 2, 3, 4].map(n => remove(n, 'removeParticipant')), ...[1, 3].map(n => remove(n, 'slashParticipant'))] };
