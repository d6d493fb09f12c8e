'use strict';
const K = require('../ts/blocks'); const { T } = require('../sol/lib');
const job = (name, run, o) => ({ kind: 'ts', sol: true, name, run, samples: 3, ...o });
// a channel on the contract side and the same channel as agreed to off chain
function channel(X, n, len, o = {}) {
  let S = null; if (X.sol) { S = X.sol.setup().open(n, { number: T.ZERO, ...o.open }); if (o.fork) X.sol.must(S.tx(S.P[5], 'setFork', [S.ch, T.int(o.fork), S.genesis])); if (o.fork) S.fork = T.int(o.fork); }
  const hstate = l => X.fromSol(l, () => S.hstate({ number: S.u(l + '.number', 1000n), participants: S.parts, balances: S.parts.map((_, i) => T.int(10 + i)) }));
  const f = o.fork || 0; const genesis = i => i === f ? X.fromSol('genesis', () => S.genesis) : X.blob('old genesis' + i);
  const lens = Array.from({ length: f + 1 }, (_, i) => i === f ? len : 0);
  const s = K.manager(X, { realHash: true, parts: n, forks: f + 1, lens, genesis, state: (i, h) => hstate(`state${h}`), block: o.block, author: o.author });
  return { S, s, am: s.am, f, chain: s.forks[f].blocks, genesis: s.forks[f].genesis };
}
module.exports = {
  id: 'T05', level: 'model_checking',
  bounds: { participants: '2..3', agreed_chain: '0..3 blocks (thorough: 4), fork 0 or 1', signatures: "the authors' and one arbitrary further signature per block", states: 'any valid states of the test state machine, repetitions included' },
  outside: ['longer chains', 'blocks agreed to without a valid author signature (T01 excludes them)'],
  mustReach: ['accepted', 'finalized', 'from genesis', 'nothing signed'], channel,
  jobs: tier => {
    const jobs = []; const cases = [[2, 0, 0], [2, 1, 0], [2, 2, 0], [3, 2, 0], [2, 2, 1], [2, 3, 0]]; if (tier === 'thorough') cases.push([3, 3, 0], [3, 3, 1], [2, 4, 0], [4, 2, 0]);
    for (const [n, len, fork] of cases) jobs.push(job(`${n} participants, ${len} agreed, fork ${fork}`, async X => {
      const { S, am, f, chain, genesis } = channel(X, n, len, { fork, author: len > 2 ? undefined : (_, h) => X.choose(2, 'author' + h) }); const me = X.party(0);
      chain.forEach((e, h) => { if (X.choose(2, 'confirmed' + h)) { const g = X.sig('conf' + h); if (X.try(() => am.confirmBlock(e.b, g)).ok) e.sigs.push(g); } });
      const held = (e, p) => X.or(...e.sigs.map(g => X.signed(g, K.enc(X, e.b), p)));
      const r = am.getFinalizedAndLatestWithVotes(BigInt(f), me); X.obs('finalized', r.encodedLatestFinalizedState); X.obs('latest', r.encodedLatestCorrectState); X.obs('votes', r.virtualVotingBlocks);
      // the newest agreed state this participant signed
      let latest = genesis, last = -1; for (let h = len - 1; h >= 0; h--) if (X.is(held(chain[h], me))) { latest = chain[h].state; last = h; break; }
      X.check(X.eq(r.encodedLatestCorrectState, latest), 'the latest state is the newest agreed one the participant signed'); if (last < 0) X.reach('nothing signed');
      const votes = r.virtualVotingBlocks; X.check(votes.length <= last + 1, 'the chain of blocks ends with that state');
      votes.forEach((v, i) => { const e = chain[last + 1 - votes.length + i]; X.check(X.and(X.eq(v.encodedBlock, K.enc(X, e.b)), X.same([...v.signatures], e.sigs)), 'the blocks are the agreed ones up to the latest, with the signatures held'); });
      const enough = k => X.and(...K_parts(X, n).map(p => X.or(...chain.slice(k, last + 1).map(e => held(e, p)))));
      const fin = X.eq(r.encodedLatestFinalizedState, genesis); let k = -1; for (let h = last; h >= 0; h--) if (X.is(X.and(enough(h), X.not(X.eq(chain[h].state, genesis))))) { k = h; break; } // the contract takes a state equal to the genesis state for the start of the fork
      if (k < 0) { X.check(X.and(fin, votes.length === last + 1), 'without enough signatures the genesis state is the finalized one'); X.reach('from genesis'); } else { X.reach('finalized'); X.check(X.eq(r.encodedLatestFinalizedState, chain[k].state), 'the finalized state is the newest one everybody voted for'); }
      if (!S) return;
      const B_ = x => x.b || bytes(x);
      const d = S.tx(S.P[0], 'createDispute', [S.ch, S.fork, B_(r.encodedLatestFinalizedState), B_(r.encodedLatestCorrectState), votes.map(v => [B_(v.encodedBlock), [...v.signatures].map(B_)]), T.ZERO, T.ZERO, [S.equivocation(S.P[n - 1])]]);
      X.check(d.ok, 'the contract accepts the finalized state, the latest state and the chain of blocks'); if (d.ok) X.reach('accepted');
    }, { weight: n * (len + 1) * 2 }));
    return jobs;
  },
};
const K_parts = (X, n) => Array.from({ length: n }, (_, i) => X.party(i));
const B = require('../engine/bytes'); const bytes = h => B.lit(h.slice(2));
