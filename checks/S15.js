'use strict';
const { T, B } = require('../sol/lib');
// exits are (participant, amount) pairs; the ledger of the harness hook lists what was paid
function exits(X) { const d = X.dispute(); return d.processExits.map(e => ({ who: e.participant, amount: e.amount })); }
function paid(X) { const r = X.must(X.tx(X.P[5], 'recorded', [])).ret; return r[1].items.map((w, i) => ({ who: w, amount: r[2].items[i] })); }
const times = (x, list) => T.sum ? T.sum(list.map(y => T.ite(T.and(T.eq(x.who, y.who), T.eq(x.amount, y.amount)), T.ONE, T.ZERO))) : list.reduce((a, y) => T.add(a, T.ite(T.and(T.eq(x.who, y.who), T.eq(x.amount, y.amount)), T.ONE, T.ZERO)), T.ZERO);
const lastState = X => X.must(X.tx(X.P[5], 'getLatestState', [X.ch])).ret[0];
function start(X, kind) { // a dispute recording one or two exits, raised by P0 at a known time
  X.setup({ times: [T.ONE, T.ONE, T.ONE, X.u('window', 1000n, 1n)] }); const parts = X.P.slice(0, 5); const bal = parts.map((_, i) => X.u('balance' + i, 1n << 100n)); X.open(5, { genesis: X.hstate({ number: T.int(6), participants: parts, balances: bal }) }); X.W.now = T.int(2000000);
  const r = X.must(X.tx(X.P[0], 'createDispute', [X.ch, T.ZERO, X.genesis, X.genesis, [], kind !== 'slash' ? X.P[1] : T.ZERO, T.ZERO, kind !== 'timeout' ? [X.equivocation(X.P[4])] : []]));
  X.deadline = T.add(X.W.now, X.times[3]); X.rest = kind === 'slash' ? [X.P[0], X.P[1], X.P[2], X.P[3]] : kind === 'timeout' ? [X.P[0], X.P[4], X.P[2], X.P[3]] : [X.P[0], X.P[3], X.P[2]];
  return { bal, owed: exits(X) };
}
// actions that may follow; returns the exits they create
const ACTIONS = {
  dispute(X, fork) { const st = lastState(X); const w = X.P[2]; const r = X.tx(X.P[0], 'createDispute', [X.ch, T.int(fork), st, st, [], T.ZERO, T.ZERO, [X.equivocation(w, T.int(fork))]]); return r; },
  challenge(X, fork) { return X.tx(X.P[0], 'challengeDispute', [X.ch, T.ZERO, T.ZERO, [X.equivocation(X.P[3], T.ZERO, T.int(8888))], [], X.genesis, X.genesis]); },
  join(X, fork) {
    const st = lastState(X), parts = X.must(X.tx(X.P[5], 'getParticipants', [X.ch, T.int(fork)])).ret[0].items; const e = X.enc('JoinChannel', { channelId: X.ch, participant: T.int(0x777), amount: T.ONE, deadlineTimestamp: T.int(9000000) });
    const a = X.enc('JoinChannelAgreement', { signedJoinChannel: { encodedJoinChannel: e, signature: X.signBy(T.int(0x777), e, 'own') }, submitter: X.P[0], forkCnt: T.int(fork), previousStateHash: X.hash(st) });
    return X.tx(X.P[0], 'joinChannelWithAgreement', [[a, parts.map((p, i) => X.signBy(p, a, 'j' + i))], st]);
  },
  leave(X, fork) {
    const st = lastState(X), parts = X.must(X.tx(X.P[5], 'getParticipants', [X.ch, T.int(fork)])).ret[0].items; const a = X.enc('LeaveChannel', { channelId: X.ch, participant: X.P[0], forkCnt: T.int(fork), previousStateHash: X.hash(st) });
    return X.tx(X.P[5], 'leaveChannelWithAgreement', [[a, parts.map((p, i) => X.signBy(p, a, 'l' + i))], st]);
  },
  post(X, fork) { const e = X.encBlock({ participant: X.P[0], forkCnt: T.int(fork), timestamp: X.W.now }); return X.tx(X.P[0], 'postBlockCalldata', [[e, X.signBy(X.P[0], e, 'post')]]); },
};
function job(kind, seq) {
  return { name: `${kind} then ${seq.join(', ')}`, weight: 2 + seq.length * 2, samples: 2, run(X) {
    const s = start(X, kind); X.check(T.bool(paid(X).length === 0), 'nothing is paid while the dispute can be challenged'); X.check(T.bool(s.owed.length === (kind === 'both' ? 2 : 1)), 'the exits are recorded');
    let fork = 1, owed = s.owed, done = [], window = X.deadline, active = true;
    for (const a of seq) {
      const b = X.W.now; X.W.now = X.u('now', 1n << 40n); X.E.assume(T.le(b, X.W.now)); const open = X.E.decide(T.le(X.W.now, window)); const was = exits(X), pb = paid(X);
      const r = ACTIONS[a](X, fork); const now = exits(X), p = paid(X);
      if (!r.ok) { X.check(T.bool(now.length === was.length && p.length === pb.length), 'a refused call pays nothing'); X.E.reach(a + ' refused'); continue; }
      X.E.reach(a + (open ? ' while open' : ' afterwards'));
      if (a !== 'post') fork++;
      if (a === 'challenge') { // the challenge replaces the exits of the running dispute
        X.check(T.bool(p.length === pb.length), 'a challenge pays nothing'); owed = now; window = T.add(X.W.now, X.times[3]); continue;
      }
      if (open) X.check(T.bool(p.length === pb.length), 'nothing is paid while the dispute can be challenged');
      const all = [...p, ...now]; const extra = a === 'leave' ? [p[p.length - 1]] : a === 'dispute' ? now : [];
      // every exit owed before is now paid or still owed, exactly once
      for (const x of owed) X.check(T.eq(times(x, all), times(x, [...pb, ...owed, ...extra])), 'a recorded exit is paid or still owed, exactly once');
      X.check(T.bool(all.length === pb.length + owed.length + extra.length), 'no exit appears or disappears');
      if (a === 'dispute') window = T.add(X.W.now, X.times[3]); owed = now;
    }
  } };
}
module.exports = { id: 'S15', bounds: { sequence: 'a dispute with one or two exits, then up to 3 of: another dispute, a challenge, joining, leaving, posting', words: 'all balances; all times of the later calls below 2^40' }, outside: ['longer histories'],
  mustReach: ['dispute afterwards', 'dispute refused', 'challenge while open', 'challenge refused', 'join afterwards', 'join refused', 'leave afterwards', 'leave refused', 'post while open', 'post afterwards'],
  jobs: tier => { const js = []; const A = Object.keys(ACTIONS); for (const k of ['slash', 'timeout', 'both']) for (const a of A) js.push(job(k, [a])); for (const a of A) for (const b of A) js.push(job('both', [a, b])); for (const q of [['dispute', 'join', 'leave'], ['challenge', 'dispute', 'join'], ['join', 'dispute', 'leave'], ['challenge', 'join', 'dispute']]) js.push(job('slash', q)); if (tier === 'thorough') for (const a of A) for (const b of A) for (const c of A) js.push(job('timeout', [a, b, c])); return js; } };
