'use strict';
// createDispute / challengeDispute accept a claimed state exactly when it is justified.
const { T, B } = require('../sol/lib');
// the specification, over the submitted evidence
function justified(X, forkCnt, G, F, latest, votes, parts) {
  const isG = B.eq(F, G); const L = votes.length; const cs = [];
  votes.forEach((v, i) => {
    if (!v.f) { cs.push(T.FALSE); return; }
    cs.push(T.eq(v.f.channelId, X.ch), T.eq(v.f.forkCnt, forkCnt));
    cs.push(T.or(...v.sigs.map(s => T.eq(X.recovered(s, v.enc), v.f.participant))));
    if (i > 0) cs.push(T.eq(v.f.previousStateHash, votes[i - 1].f ? votes[i - 1].f.stateHash : T.int(-1)));
    else cs.push(T.ite(isG, T.eq(v.f.previousStateHash, X.hash(F)), T.eq(v.f.stateHash, X.hash(F))));
  });
  if (L > 0) cs.push(votes[L - 1].f ? T.eq(votes[L - 1].f.stateHash, X.hash(latest)) : T.FALSE);
  else cs.push(B.eq(latest, F));
  const everyone = T.and(...parts.map(p => T.or(...votes.flatMap(v => v.sigs.map(s => T.eq(X.recovered(s, v.enc), p))))));
  return T.and(...cs, T.or(isG, everyone));
}
function evidence(X, spec, n) {
  const F = spec.F === 'atom' ? X.atom('finalized') : X.hstate({ number: X.u('finalized.number', 1000n), participants: X.parts, balances: X.parts.map((_, i) => X.u('finalized.balance' + i, 1000n)) });
  const latest = spec.latest === 'genesis' ? X.genesis : X.hstate({ number: X.u('latest.number', 1000n), participants: X.parts, balances: X.parts.map((_, i) => X.u('latest.balance' + i, 1000n)) });
  const votes = spec.sigs.map((k, i) => {
    const b = k < 0 ? { f: null, enc: X.atom('block' + i) } : X.symBlock('block' + i, spec.trail ? { trail: X.u('trail' + i, 1000n) } : {});
    b.sigs = []; for (let j = 0; j < Math.abs(k); j++) b.sigs.push(X.sig(`sig${i}.${j}`));
    return b;
  });
  return { F, latest, votes };
}
const confirmed = votes => votes.map(v => [v.enc, v.sigs]);
function create(n, spec) {
  return {
    name: `create n=${n} sigs=[${spec.sigs}] ${spec.F || ''}${spec.latest || ''}`, weight: spec.sigs.reduce((a, b) => a + Math.abs(b), 1) ** 2 * n, samples: 2,
    run(X) {
      X.setup().open(n, { fork: n > 2, number: X.u('genesis.number', 1000n) });
      const e = evidence(X, spec, n);
      const proof = X.equivocation(X.parts[n - 1]);
      const ok = justified(X, X.fork, X.genesis, e.F, e.latest, e.votes, X.parts);
      const r = X.tx(X.P[0], 'createDispute', [X.ch, X.fork, e.F, e.latest, confirmed(e.votes), T.ZERO, T.ZERO, [proof]]);
      X.iff(T.bool(r.ok), ok, 'a dispute is accepted exactly when its state is justified');
      X.E.reach(r.ok ? 'accepted' : 'rejected');
      if (r.ok) {
        const d = X.dispute();
        X.check(T.and(B.eq(d.encodedLatestFinalizedState, e.F), T.bool(d.virtualVotingBlocks.length === e.votes.length)), 'the recorded evidence is the submitted evidence');
        X.check(T.and(...d.virtualVotingBlocks.map((b, i) => B.eq(b.encodedBlock, e.votes[i].enc))), 'the recorded chain is the submitted chain');
        X.E.reach(X.E.decide(B.eq(e.F, X.genesis)) ? 'from genesis' : 'finalized');
      }
    },
  };
}
// an established dispute, then a challenge with fresh evidence
function challenge(n, spec) {
  return {
    name: `challenge n=${n} sigs=[${spec.sigs}] ${spec.F || ''}`, weight: spec.sigs.reduce((a, b) => a + Math.abs(b), 2) ** 2 * n, samples: 2,
    run(X) {
      X.setup().open(n, { fork: n > 2, number: T.int(n) });
      // first dispute: posted at genesis by P0, timing out nobody, equivocation of the last party
      X.must(X.tx(X.P[0], 'createDispute', [X.ch, X.fork, X.genesis, X.genesis, [], T.ZERO, T.ZERO, [X.equivocation(X.parts[n - 1])]]));
      const e = evidence(X, spec, n);
      const proof = X.equivocation(X.parts[n - 2], X.fork, T.int(8888));
      const ok = justified(X, X.fork, X.genesis, e.F, e.latest, e.votes, X.parts);
      const caller = n === 3 ? X.P[0] : X.P[0];
      const r = X.tx(caller, 'challengeDispute', [X.ch, X.fork, T.ZERO, [proof], confirmed(e.votes), e.F, e.latest]);
      X.iff(T.bool(r.ok), ok, 'a challenge is accepted exactly when its state is justified');
      X.E.reach(r.ok ? 'challenge accepted' : 'challenge rejected');
      if (r.ok) {
        const d = X.dispute();
        X.check(T.and(T.bool(d.virtualVotingBlocks.length === e.votes.length), ...d.virtualVotingBlocks.slice(0, e.votes.length).map((b, i) => B.eq(b.encodedBlock, e.votes[i].enc))), 'the recorded chain is replaced by the challenge\'s chain');
      }
    },
  };
}
module.exports = {
  id: 'S03',
  bounds: { participants: '2 and 3', chain: 'up to 2 blocks (3 thorough)', signatures: 'up to 3 per block', words: 'all values of every block field, hash and address' },
  outside: ['longer chains', 'larger participant sets', 'states that are not well-formed encodings of the harness state machine (an opaque finalized state is included)'],
  mustReach: ['accepted', 'rejected', 'from genesis', 'finalized', 'challenge accepted', 'challenge rejected'],
  jobs(tier) {
    const js = [create(2, { sigs: [] }), create(2, { sigs: [], latest: 'genesis' }), create(2, { sigs: [], F: 'atom' }), create(2, { sigs: [0] }), create(2, { sigs: [1] }), create(2, { sigs: [2] }), create(2, { sigs: [-1] }), create(2, { sigs: [2], F: 'atom' }),
      create(2, { sigs: [1, 1] }), create(2, { sigs: [2, 1] }), create(2, { sigs: [1, 2] }), create(2, { sigs: [2], trail: true }), create(3, { sigs: [2] }), create(3, { sigs: [3] }), create(3, { sigs: [1, 2] }),
      challenge(3, { sigs: [] }), challenge(3, { sigs: [1] }), challenge(3, { sigs: [2] }), challenge(3, { sigs: [1, 1] })];
    if (tier === 'thorough') js.push(create(2, { sigs: [1, 1, 1] }), create(2, { sigs: [2, 2] }), create(3, { sigs: [2, 2] }), create(3, { sigs: [1, 1, 1] }), challenge(3, { sigs: [3] }), challenge(3, { sigs: [2, 1] }));
    return js;
  },
};
