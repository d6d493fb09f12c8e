'use strict';
const { T, B } = require('../sol/lib');
function pair(X, i, full) {
  const a = X.symBlock(`a${i}`, full ? { trail: X.u(`a${i}.trail`, 1000n) } : { channelId: X.ch, timestamp: T.ONE, trail: X.u(`a${i}.trail`, 1n) }), b = X.symBlock(`b${i}`, full ? { trail: X.u(`b${i}.trail`, 1000n) } : { channelId: X.ch, timestamp: T.ONE, trail: X.u(`b${i}.trail`, 1n) });
  a.sig = X.sig(`sa${i}`); b.sig = X.sig(`sb${i}`);
  const r1 = X.recovered(a.sig, a.enc), r2 = X.recovered(b.sig, b.enc);
  const valid = T.and(T.eq(a.f.channelId, X.ch), T.eq(b.f.channelId, X.ch), T.eq(a.f.forkCnt, X.fork), T.eq(b.f.forkCnt, X.fork), T.eq(a.f.transactionCnt, b.f.transactionCnt), T.not(B.eq(a.enc, b.enc)), T.eq(r1, r2), X.isIn(r1, X.parts));
  return { a, b, signer: r1, height: a.f.transactionCnt, valid, v: { block1: { encodedBlock: a.enc, signature: a.sig }, block2: { encodedBlock: b.enc, signature: b.sig } } };
}
function job(n, k, full) {
  return { name: `pairs=${k} n=${n}${full ? ' all fields' : ''}`, weight: k * 3, samples: 3, run(X) {
    X.setup().open(n, { fork: n > 2, number: T.int(0) });
    const ps = []; for (let i = 0; i < k; i++) ps.push(pair(X, i, full));
    const caller = X.parts[0];
    const r = X.tx(caller, 'createDispute', [X.ch, X.fork, X.genesis, X.genesis, [], T.ZERO, T.ZERO, [X.proof('DoubleSign', 'DoubleSignProof', { doubleSigns: ps.map(p => p.v) })]]);
    const spec = T.and(...ps.map(p => p.valid), ...ps.map(p => T.ne(p.signer, caller)), T.bool(k > 0));
    X.iff(T.bool(r.ok), spec, 'an equivocation proof is accepted exactly for genuine equivocations of participants');
    X.E.reach(r.ok ? 'accepted' : 'rejected');
    if (r.ok) {
      const d = X.dispute(); const sl = d.slashedParticipants;
      X.check(T.and(...sl.map(s => T.or(...ps.map(p => T.eq(s, p.signer)))), ...ps.map(p => X.isIn(p.signer, sl))), 'exactly the equivocators are slashed');
      X.check(T.and(...sl.flatMap((s, i) => sl.slice(i + 1).map(t => T.ne(s, t)))), 'nobody is slashed twice');
      X.check(T.eq(d.timedoutParticipant, T.ZERO), 'no timeout appears');
    }
  } };
}
function withTimeout() {
  return { name: 'equivocation against a pending timeout', weight: 4, samples: 3, run(X) {
    X.setup({ times: [T.int(1), T.int(1), T.int(1), T.int(10)] }).open(3, { number: T.int(0) });
    const h = X.u('height', (1n << 200n)); const c = X.chain(1, { heights: [h], latest: X.hstate({ number: T.int(1), participants: X.parts, balances: X.parts.map(() => T.ONE) }), times: [T.int(10)] });
    const folded = T.add(h, T.ONE); X.W.now = T.int(2000000);
    const p = pair(X, 0, false); X.E.assume(T.and(p.valid, T.ne(p.signer, X.parts[0])));
    const r = X.tx(X.parts[0], 'createDispute', [X.ch, X.fork, X.genesis, c.latest, c.confirmed, X.parts[1], folded, [X.proof('DoubleSign', 'DoubleSignProof', { doubleSigns: [p.v] })]]);
    X.check(T.bool(r.ok), 'a timeout with an equivocation proof is accepted');
    if (!r.ok) return;
    const d = X.dispute();
    X.iff(T.eq(d.timedoutParticipant, T.ZERO), T.lt(p.height, folded), 'a pending timeout is undone exactly when the equivocation lies below it');
    X.check(T.or(T.eq(d.timedoutParticipant, T.ZERO), T.eq(d.timedoutParticipant, X.parts[1])), 'a remaining timeout keeps its target');
    X.E.reach('timeout ' + (X.E.decide(T.eq(d.timedoutParticipant, T.ZERO)) ? 'cancelled' : 'kept'));
  } };
}
function already() {
  return { name: 'equivocation of an already slashed party', samples: 2, run(X) {
    X.setup().open(3, { number: T.int(0) });
    X.must(X.tx(X.parts[0], 'createDispute', [X.ch, X.fork, X.genesis, X.genesis, [], T.ZERO, T.ZERO, [X.equivocation(X.parts[2])]]));
    const p = pair(X, 0, false);
    const r = X.tx(X.parts[0], 'challengeDispute', [X.ch, X.fork, T.ZERO, [X.proof('DoubleSign', 'DoubleSignProof', { doubleSigns: [p.v] })], [], X.genesis, X.genesis]);
    X.iff(T.bool(r.ok), T.and(p.valid, T.ne(p.signer, X.parts[0]), T.ne(p.signer, X.parts[2])), 'repeating an equivocation that was already punished achieves nothing');
    if (r.ok) { const d = X.dispute(); X.check(T.and(T.bool(d.slashedParticipants.length === 2), X.isIn(X.parts[2], d.slashedParticipants), X.isIn(p.signer, d.slashedParticipants)), 'the earlier punishment stays'); X.E.reach('challenged'); }
  } };
}
module.exports = {
  id: 'S06', bounds: { participants: '2 and 3', pairs: 'up to 2 per proof (3 thorough)', words: 'all values of every block field' }, outside: ['more pairs per proof'],
  mustReach: ['accepted', 'rejected', 'timeout cancelled', 'timeout kept', 'challenged'],
  jobs: tier => [job(2, 1, true), job(3, 1, true), job(3, 2, false), job(2, 0, true), withTimeout(), already(), ...(tier === 'thorough' ? [job(4, 2, true), job(3, 3, false)] : [])],
};
