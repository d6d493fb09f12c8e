'use strict';
// The new state is the disputed latest state with joins, slashes and the timeout applied, in that order.
const { T, B } = require('../sol/lib');
// the harness state machine, as a specification on concrete positions
const clone = s => ({ number: s.number, parts: s.parts.slice(), bal: s.bal.slice() });
function takeOut(s, who) { const i = s.parts.indexOf(who); if (i < 0) return null; const a = s.bal[i], n = s.parts.length; s.parts[i] = s.parts[n - 1]; s.bal[i] = s.bal[n - 1]; s.parts.pop(); s.bal.pop(); return a; }
function outcome(s0, joins, slashes, timeout) {
  const s = clone(s0), exits = [];
  for (const j of joins) { if (s.parts.includes(j.who)) return null; s.parts.push(j.who); s.bal.push(j.amount); }
  for (const w of slashes) { const a = takeOut(s, w); if (a) exits.push({ who: w, amount: T.ZERO }); }
  if (timeout) { const a = takeOut(s, timeout); if (a) exits.push({ who: timeout, amount: a }); }
  return { s, exits };
}
const encS = (X, s) => X.hstate({ number: s.number, participants: s.parts, balances: s.bal });
function compare(X, want, fork) {
  const d = X.dispute(); const st = X.must(X.tx(X.P[5], 'getLatestState', [X.ch])).ret[0], fk = X.must(X.tx(X.P[5], 'getForkCnt', [X.ch])).ret[0];
  X.check(T.and(T.eq(fk, T.int(fork)), B.eq(st, encS(X, want.s)), B.eq(d.encodedLatestCorrectState, encS(X, want.s))), 'the new state is the disputed state with joins, slashes and the timeout applied');
  X.check(T.and(T.bool(d.processExits.length === want.exits.length), ...d.processExits.slice(0, want.exits.length).map((e, i) => T.and(T.eq(e.participant, want.exits[i].who), T.eq(e.amount, want.exits[i].amount), B.eq(e.data, B.EMPTY)))), 'the recorded exits are those of the state machine');
  const rec = X.must(X.tx(X.P[5], 'recorded', [])).ret; X.check(T.bool(rec[1].items.length === (want.paid || 0)), 'no exit is paid yet');
  return d;
}
function joinProof(X, who, amount, l) { const j = X.sjc({ request: { channelId: X.ch, participant: who, amount, deadlineTimestamp: T.int(9000000) } }, l); return X.proof('JoinChannel', 'JoinChannelProof', { encodedSignedJoinChannel: j.enc, signatures: X.parts.map((p, i) => X.signBy(p, j.enc, l + i)) }); }
const sym = (X, parts, num, l) => ({ number: num, parts, bal: parts.map((_, i) => X.u(`${l}.balance${i}`, 1n << 100n)) });
// create: the caller P0 is next; joins and slashes in one bundle
function create(n, nj, ns) {
  return { name: `create n=${n} joins=${nj} slashes=${ns}`, weight: 2 + nj + ns * 3, samples: 2, run(X) {
    X.setup(); const parts = X.P.slice(0, n); const s0 = sym(X, parts, T.int(n), 'g'); X.open(n, { genesis: encS(X, s0) });
    const joins = [], slashes = [], proofs = [];
    for (let i = 0; i < nj; i++) { const j = { who: X.P[n + i], amount: X.u('amount' + i) }; joins.push(j); proofs.push(joinProof(X, j.who, j.amount, 'j' + i)); }
    for (let i = 0; i < ns; i++) { const w = parts[1 + X.E.choose(n - 1, 'slash' + i)]; if (!slashes.includes(w)) slashes.push(w); const at = X.E.choose(2, 'order' + i) ? proofs.length : 0; if (at) proofs.push(X.equivocation(w, T.ZERO, T.int(7000 + i))); else proofs.unshift(X.equivocation(w, T.ZERO, T.int(7000 + i))); }
    const bal = s0.bal; const r = X.tx(X.P[0], 'createDispute', [X.ch, T.ZERO, X.genesis, X.genesis, [], T.ZERO, T.ZERO, proofs]);
    X.check(T.bool(r.ok), 'the dispute is accepted'); if (!r.ok) return;
    const d = X.dispute(); const order = d.slashedParticipants.map(t => parts.find(p => p === t || X.E.decide(T.eq(p, t)))); X.check(T.bool(order.length === slashes.length && slashes.every(w => order.includes(w))), 'the slashed set is the set of proven cheaters');
    compare(X, outcome(s0, joins, order, null), 1); X.E.reach(`joins ${nj} slashes ${slashes.length}`);
  } };
}
// a timeout together with slashes, then a challenge that adds a join and another slash
function both(withChallenge) {
  return { name: withChallenge ? 'timeout and slash, then challenge with join and slash' : 'timeout and slash', weight: 8, samples: 3, run(X) {
    X.setup({ times: [T.ONE, T.ONE, T.ONE, T.int(100)] }); const parts = X.P.slice(0, 4); X.open(4, { number: T.int(4) }); X.W.now = T.int(2000000);
    // P0 is next at genesis; the disputed chain ends in a state where P(k) is next
    const k = 1 + X.E.choose(3, 'late'); const s1 = sym(X, parts, T.int(4 + k), 's1'); const c = X.chain(1, { heights: [T.ZERO], times: [T.int(1000001)], latest: encS(X, s1) });
    const w = parts[1 + X.E.choose(3, 'slashed')]; const viaEquiv = X.E.choose(2, 'with slash');
    const proofs = viaEquiv ? [X.equivocation(w, T.ZERO, T.int(7000))] : [];
    const r = X.tx(X.P[0], 'createDispute', [X.ch, T.ZERO, X.genesis, c.latest, c.confirmed, parts[k], T.ONE, proofs]); X.check(T.bool(r.ok), 'the dispute is accepted'); if (!r.ok) return;
    const sl = viaEquiv ? [w] : []; const want = outcome(s1, [], sl, parts[k]); compare(X, want, 1); X.E.reach('timeout applied');
    if (!withChallenge) return;
    // challenge on a fresh latest state, by whoever acts next in the recorded state (joins need the turn)
    const caller = want.s.parts[(4 + k) % want.s.parts.length]; if (sl.includes(caller)) return;
    const s2 = sym(X, parts, T.int(4 + k), 's2'); const c2 = X.chain(1, { heights: [T.int(1)], times: [T.int(1000001)], latest: encS(X, s2) });
    const w2 = parts.find(p => p !== caller && !sl.includes(p)); const j = { who: X.P[4], amount: X.u('amount') };
    const cancels = 0; const pr = [joinProof(X, j.who, j.amount, 'j'), X.equivocation(w2, T.ZERO, T.int(7100))];
    const r2 = X.tx(caller, 'challengeDispute', [X.ch, T.ZERO, T.ZERO, pr, c2.confirmed, X.genesis, c2.latest]); X.check(T.bool(r2.ok), 'the challenge is accepted'); if (!r2.ok) return;
    compare(X, outcome(s2, [j], [...sl, w2], parts[k]), 2); X.E.reach('challenge applied');
  } };
}
// the timeout is cancelled in the challenge: nobody is removed for it any more
function cancelled() {
  return { name: 'timeout cancelled by a challenge', weight: 6, samples: 2, run(X) {
    X.setup({ times: [T.ONE, T.ONE, T.ONE, T.int(100)] }); const parts = X.P.slice(0, 3); X.open(3, { number: T.int(3) }); X.W.now = T.int(2000000);
    const s1 = sym(X, parts, T.int(4), 's1'); const c = X.chain(1, { heights: [T.ZERO], times: [T.int(1000001)], latest: encS(X, s1) });
    X.must(X.tx(X.P[0], 'createDispute', [X.ch, T.ZERO, X.genesis, c.latest, c.confirmed, parts[1], T.ONE, []]));
    const e = X.encBlock({ participant: parts[1], transactionCnt: T.ONE }); const p = X.proof('FoldRechallenge', 'FoldRechallengeProof', { encodedBlock: e, signatures: parts.map((q, i) => X.signBy(q, e, 'f' + i)) });
    const r = X.tx(X.P[2], 'challengeDispute', [X.ch, T.ZERO, T.ZERO, [p], c.confirmed, X.genesis, c.latest]); X.check(T.bool(r.ok), 'the rechallenge is accepted'); if (!r.ok) return;
    compare(X, outcome(s1, [], [parts[0]], null), 2); X.E.reach('timeout cancelled');
  } };
}
// a joiner the state machine refuses aborts everything
function refused() {
  return { name: 'refused joiner', weight: 3, samples: 2, run(X) {
    X.setup(); X.open(3, { number: T.int(3) }); const s1 = { number: T.int(3), parts: [X.P[0], X.P[1], X.P[2], X.P[4]], bal: [T.ONE, T.ONE, T.ONE, T.ONE] };
    const c = X.chain(1, { heights: [T.ZERO], latest: encS(X, s1), times: [T.int(5)] }); s1.number = T.int(4); const who = X.E.choose(2, 'who') ? X.P[4] : X.P[3]; const before = X.snapshot();
    const st = { ...s1, number: T.int(4) }; const c2 = X.chain(1, { heights: [T.ZERO], latest: encS(X, st), times: [T.int(5)] });
    const r = X.tx(X.P[0], 'createDispute', [X.ch, T.ZERO, X.genesis, c2.latest, c2.confirmed, T.ZERO, T.ZERO, [joinProof(X, who, T.int(5), 'j')]]);
    X.check(T.bool(r.ok === (who === X.P[3])), 'a joiner the state machine rejects aborts the call'); if (!r.ok) { X.check(X.sameSnap(before, X.snapshot()), 'and nothing changes'); X.E.reach('refused'); } else compare(X, outcome(st, [{ who, amount: T.int(5) }], [], null), 1);
  } };
}
// verdicts of a finished dispute do not act again
function second() {
  return { name: 'two disputes in a row', weight: 6, samples: 2, run(X) {
    X.setup({ times: [T.ONE, T.ONE, T.ONE, T.int(100)] }); const parts = X.P.slice(0, 4); const s0 = sym(X, parts, T.int(4), 'g'); X.open(4, { genesis: encS(X, s0) });
    const kind = X.E.choose(3, 'first'); const proofs = kind === 0 ? [X.equivocation(parts[3])] : kind === 1 ? [joinProof(X, X.P[4], X.u('amount0'), 'j0')] : []; X.W.now = T.int(2000000);
    const caller = kind === 2 ? X.P[1] : X.P[0]; const r = X.tx(caller, 'createDispute', [X.ch, T.ZERO, X.genesis, X.genesis, [], kind === 2 ? X.P[0] : T.ZERO, T.ZERO, proofs]); X.check(T.bool(r.ok), 'the first dispute is accepted'); if (!r.ok) return;
    const d1 = X.dispute(); const amt = kind === 1 ? d1.joinChannelParticipants[0].amount : null;
    const o1 = outcome(s0, kind === 1 ? [{ who: X.P[4], amount: amt }] : [], kind === 0 ? [parts[3]] : [], kind === 2 ? X.P[0] : null); compare(X, o1, 1);
    X.W.now = T.int(3000000); const g1 = encS(X, o1.s);
    // the channel lives on; somebody slashed or timed out may have come back in a later state
    const back = kind === 1 ? o1.s.parts : [...o1.s.parts, kind === 0 ? parts[3] : parts[0]]; const s1 = sym(X, back, T.int(5), 's1');
    const author = X.P[1]; const e = X.chain(0); const c = { f: { channelId: X.ch, participant: author, forkCnt: T.ONE, transactionCnt: T.ZERO, timestamp: T.int(5), stateHash: X.hash(encS(X, s1)), previousStateHash: X.hash(g1) } }; const eb = X.encBlock(c.f);
    const w = X.P[2]; const r2 = X.tx(X.P[1], 'createDispute', [X.ch, T.ONE, g1, encS(X, s1), [[eb, [X.signBy(author, eb, 'b')]]], T.ZERO, T.ZERO, [X.equivocation(w, T.ONE)]]); X.check(T.bool(r2.ok), 'the second dispute is accepted'); if (!r2.ok) return;
    compare(X, { ...outcome(s1, [], [w], null), paid: o1.exits.length }, 2); X.E.reach('second dispute ' + kind);
  } };
}
// somebody slashed is not in the disputed latest state: the other exits keep their place
function absent() {
  return { name: 'a slashed participant is absent from the latest state', weight: 6, samples: 2, run(X) {
    X.setup(); const all = X.P.slice(0, 4); X.open(4, { number: T.int(4) }); const gone = all[1 + X.E.choose(3, 'gone')]; const rest = all.filter(p => p !== gone);
    const s1 = sym(X, rest, T.int(5), 's1'); const c = X.chain(1, { heights: [T.ZERO], times: [T.int(5)], latest: encS(X, s1) });
    const other = rest.find(p => p !== all[0]); const first = X.E.choose(2, 'first'); const who = first ? [gone, other] : [other, gone];
    const r = X.tx(all[0], 'createDispute', [X.ch, T.ZERO, X.genesis, c.latest, c.confirmed, T.ZERO, T.ZERO, who.map((w, i) => X.equivocation(w, T.ZERO, T.int(7000 + i)))]); X.check(T.bool(r.ok), 'the dispute is accepted'); if (!r.ok) return;
    compare(X, outcome(s1, [], who, null), 1); X.E.reach('absent');
  } };
}
module.exports = { id: 'S14', bounds: { participants: '2 to 4', verdicts: 'up to 2 joins, 2 slashes and one timeout; a challenge or a second dispute on top', words: 'all balances, amounts' }, outside: ['applications other than the harness state machine'],
  mustReach: ['joins 1 slashes 1', 'joins 2 slashes 0', 'timeout applied', 'challenge applied', 'timeout cancelled', 'refused', 'absent', 'second dispute 0', 'second dispute 1', 'second dispute 2'],
  jobs: () => [create(2, 1, 0), create(3, 0, 1), create(3, 1, 1), create(3, 2, 0), create(4, 0, 2), create(4, 1, 2), both(false), both(true), cancelled(), refused(), second(), absent()] };
