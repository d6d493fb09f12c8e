'use strict';
const { T, B } = require('../sol/lib');
const FN = ['addParticipantComposable', 'removeParticipantComposable', 'applyJoinChannelToStateMachine', 'applySlashesToStateMachine', 'removeParticipantsFromStateMachine'];
function job(f, disputed) {
  return { name: f + (disputed ? ' during a dispute' : ''), samples: 2, run(X) {
    X.setup().open(3, { number: T.int(0) });
    if (disputed) X.must(X.tx(X.P[0], 'createDispute', [X.ch, T.ZERO, X.genesis, X.genesis, [], T.ZERO, T.ZERO, [X.equivocation(X.parts[2])]]));
    const who = X.addr('sender'); X.E.assume(T.ne(who, X.m.address)); const q = X.v('JoinChannel', { channelId: X.ch, participant: X.addr('newcomer'), amount: X.u('amount'), deadlineTimestamp: X.u('deadline') }), pe = X.v('ProcessExit', { participant: X.addr('leaver'), amount: X.u('paid') });
    const st = X.hstate({ number: X.u('number'), participants: X.parts, balances: X.parts.map(() => T.ONE) });
    const args = { addParticipantComposable: [q], removeParticipantComposable: [X.b32('channel'), pe], applyJoinChannelToStateMachine: [st, [q]], applySlashesToStateMachine: [st, [X.addr('victim')]], removeParticipantsFromStateMachine: [st, [X.addr('victim')]] }[f];
    const sm = X.must(X.W.tx(X.P[5], X.sm, 'getState', [])).ret[0];
    const before = X.snapshot(); const b2 = X.must(X.W.tx(X.P[5], X.sm, 'getState', [])).ret[0];
    const r = X.tx(who, f, args); X.check(T.bool(!r.ok), 'privileged operations refuse outside callers');
    const a2 = X.must(X.W.tx(X.P[5], X.sm, 'getState', [])).ret[0]; X.check(B.eq(a2, b2), 'the state machine is untouched'); X.check(X.sameSnap(before, X.snapshot()), 'nothing changes'); X.E.reach(f);
  } };
}
// the operations remain usable by the manager itself, through a dispute
function inside() {
  return { name: 'the manager itself', samples: 2, run(X) {
    X.setup().open(2, { number: T.int(0) });
    const q = { channelId: X.ch, participant: X.P[3], amount: X.u('amount'), deadlineTimestamp: T.int(9000000), data: B.EMPTY }; const j = X.sjc({ request: q }); const sigs = X.parts.map((p, i) => X.signBy(p, j.enc, 's' + i));
    const r = X.tx(X.P[0], 'createDispute', [X.ch, T.ZERO, X.genesis, X.genesis, [], T.ZERO, T.ZERO, [X.proof('JoinChannel', 'JoinChannelProof', { encodedSignedJoinChannel: j.enc, signatures: sigs }), X.equivocation(X.parts[1])]]);
    X.check(T.bool(r.ok), 'the manager can invoke its own operations'); X.E.reach('inside');
  } };
}
module.exports = { id: 'S22', bounds: { words: 'all senders and arguments', states: 'an open channel, with and without a dispute' }, outside: ['longer histories'], mustReach: [...FN, 'inside'], jobs: () => [...FN.map(f => job(f, false)), ...FN.map(f => job(f, true)), inside()] };
