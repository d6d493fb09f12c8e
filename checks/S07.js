'use strict';
const { T, B } = require('../sol/lib');
const abi = require('../engine/abi');
// one incorrect-data proof with everything symbolic, submitted by P0 in a fresh dispute
function job(n, o) {
  return { name: `incorrect data n=${n} state=${o.state} call=${o.call} posts=${o.posts || 0}`, weight: 3 + 3 * (o.posts || 0) + (o.state === 'other' ? 2 : 0), samples: 3, run(X) {
    const p2p = X.time('p2p'); X.setup({ times: [p2p, T.int(5), T.int(30), T.int(60)] });
    const gnum = X.u('genesis.number', 1000n);
    X.open(n, { fork: n > 2, now: X.u('opened', (1n << 40n) - 1n, 1n), number: gnum });
    const posted = [];
    for (let i = 0; i < (o.posts || 0); i++) {
      const b = X.W.now; X.W.now = X.time('postTime' + i); X.E.assume(T.le(b, X.W.now));
      const f = { participant: X.parts[1], forkCnt: X.u('post.fork' + i, 3n), transactionCnt: X.u('post.height' + i), timestamp: X.W.now };
      const e = X.encBlock(f); const r = X.tx(X.parts[1], 'postBlockCalldata', [[e, X.signBy(X.parts[1], e, 'post' + i)]]); if (!r.ok) X.E.abort('posting rejected');
      posted.push({ ...f, time: X.W.now });
    }
    const b = X.W.now; X.W.now = X.time('now'); X.E.assume(T.le(b, X.W.now));
    const number = o.state === 'genesis' ? gnum : X.u('state.number', 1000n);
    const state = o.state === 'genesis' ? X.genesis : X.hstate({ number, participants: X.parts, balances: X.parts.map((_, j) => T.int(10 + j)) });
    const k = X.u('played');
    const data = o.call === 'play' ? X.play(k) : o.call === 'empty' ? B.EMPTY : B.call('deadbeef', [abi.word('uint256')], [k]);
    const b1 = X.symBlock('b1', o.slim ? { channelId: X.ch } : {}), b2 = X.symBlock('b2', o.slim ? { channelId: X.ch, data } : { data });
    const s1 = X.sig('s1'), s2 = X.sig('s2');
    const r1 = X.recovered(s1, b1.enc), r2 = X.recovered(s2, b2.enc);
    const isG = T.and(B.eq(state, X.genesis), T.eq(b2.f.transactionCnt, T.ZERO));
    const chain = T.ite(isG, T.eq(b2.f.previousStateHash, X.hash(state)),
      T.and(X.isIn(r1, X.parts), T.eq(T.add(b1.f.transactionCnt, T.ONE), b2.f.transactionCnt), T.eq(b2.f.previousStateHash, b1.f.stateHash), T.eq(b1.f.stateHash, X.hash(state))));
    const valid = T.and(T.eq(r1, b1.f.participant), T.eq(r2, b2.f.participant), T.eq(b1.f.channelId, X.ch), T.eq(b2.f.channelId, X.ch), T.eq(b1.f.forkCnt, X.fork), T.eq(b2.f.forkCnt, X.fork), X.isIn(r2, X.parts), chain);
    const prevTime = T.ite(isG, X.genesisTime, b1.f.timestamp);
    let ref = prevTime; for (const p of posted) ref = T.ite(T.and(T.eq(p.forkCnt, X.fork), T.le(p.transactionCnt, b2.f.transactionCnt), T.gt(p.time, ref)), p.time, ref);
    const badTime = T.or(T.lt(b2.f.timestamp, prevTime), T.gt(b2.f.timestamp, T.add(ref, p2p)));
    const runs = o.call === 'play' ? T.and(T.eq(b2.f.participant, X.next(number, X.parts)), T.gt(k, T.ZERO), T.le(T.add(number, k), T.int((1n << 256n) - 1n))) : T.FALSE;
    // the state after an accepted move
    const after = X.hstate({ number: T.add(number, k), participants: X.parts, balances: o.state === 'genesis' ? X.parts.map((_, i) => T.int(10 + i)) : X.parts.map((_, j) => T.int(10 + j)) });
    const wrong = T.or(badTime, T.not(runs), T.ne(b2.f.stateHash, X.hash(after)));
    const spec = T.and(valid, wrong, T.ne(r2, X.parts[0]));
    const r = X.tx(X.parts[0], 'createDispute', [X.ch, X.fork, X.genesis, X.genesis, [], T.ZERO, T.ZERO, [X.proof('IncorrectData', 'IncorrectDataProof', { block1: { encodedBlock: b1.enc, signature: s1 }, block2: { encodedBlock: b2.enc, signature: s2 }, encodedState: state })]]);
    X.iff(T.bool(r.ok), spec, 'an incorrect-data proof succeeds exactly against the author of a wrong block');
    X.E.reach(r.ok ? 'accepted' : 'rejected');
    if (r.ok) {
      const d = X.dispute(); X.check(T.and(T.bool(d.slashedParticipants.length === 1), T.eq(d.slashedParticipants[0], r2)), 'exactly the author of the wrong block is slashed');
      X.E.reach(X.E.decide(isG) ? 'first block' : 'later block');
      if (o.call === 'play' && X.E.decide(T.not(badTime))) X.E.reach(X.E.decide(runs) ? 'wrong result' : 'illegal move'); else if (o.call === 'play') X.E.reach('bad time');
    }
  } };
}
// the same wrong block presented twice, and against somebody already slashed
function repeat() {
  return { name: 'already slashed author', samples: 2, run(X) {
    X.setup().open(4, { number: T.int(0) });
    X.must(X.tx(X.parts[0], 'createDispute', [X.ch, X.fork, X.genesis, X.genesis, [], T.ZERO, T.ZERO, [X.equivocation(X.parts[2])]]));
    const b2 = X.symBlock('b2', { channelId: X.ch, forkCnt: X.fork, transactionCnt: T.ZERO, previousStateHash: X.hash(X.genesis), data: B.EMPTY });
    const s2 = X.signBy(b2.f.participant, b2.enc); X.E.assume(X.isIn(b2.f.participant, X.parts));
    const blk = { encodedBlock: b2.enc, signature: s2 };
    const r = X.tx(X.parts[1], 'challengeDispute', [X.ch, X.fork, T.ZERO, [X.proof('IncorrectData', 'IncorrectDataProof', { block1: blk, block2: blk, encodedState: X.genesis })], [], X.genesis, X.genesis]);
    X.iff(T.bool(r.ok), T.and(T.ne(b2.f.participant, X.parts[2]), T.ne(b2.f.participant, X.parts[1])), 'a wrong block is punished once');
    if (r.ok) { const d = X.dispute(); X.check(T.and(T.bool(d.slashedParticipants.length === 2), X.isIn(X.parts[2], d.slashedParticipants), X.isIn(b2.f.participant, d.slashedParticipants)), 'the wrong author joins the slashed set'); X.E.reach('challenged'); }
  } };
}
function timeout() {
  return { name: 'wrong block below a pending timeout', weight: 4, samples: 3, run(X) {
    X.setup({ times: [T.ONE, T.ONE, T.ONE, T.int(10)] }).open(3, { number: T.int(0) });
    const h = X.u('height', 1n << 200n); const c = X.chain(1, { heights: [h], latest: X.hstate({ number: T.int(1), participants: X.parts, balances: X.parts.map(() => T.ONE) }), times: [T.int(10)] });
    const folded = T.add(h, T.ONE); X.W.now = T.int(2000000);
    const first = X.E.choose(2, 'first');
    const state = first ? X.genesis : X.hstate({ number: T.int(3), participants: X.parts, balances: X.parts.map(() => T.ONE) });
    const b2 = X.symBlock('b2', { channelId: X.ch, forkCnt: X.fork, participant: X.parts[2], previousStateHash: X.hash(state), data: B.EMPTY, ...(first ? { transactionCnt: T.ZERO } : {}) });
    const b1 = first ? b2 : X.symBlock('b1', { channelId: X.ch, forkCnt: X.fork, participant: X.parts[1], stateHash: X.hash(state) });
    if (!first) X.E.assume(T.eq(T.add(b1.f.transactionCnt, T.ONE), b2.f.transactionCnt));
    const s2 = X.signBy(X.parts[2], b2.enc), s1 = first ? s2 : X.signBy(X.parts[1], b1.enc);
    const r = X.tx(X.parts[0], 'createDispute', [X.ch, X.fork, X.genesis, c.latest, c.confirmed, X.parts[1], folded, [X.proof('IncorrectData', 'IncorrectDataProof', { block1: { encodedBlock: b1.enc, signature: s1 }, block2: { encodedBlock: b2.enc, signature: s2 }, encodedState: state })]]);
    X.check(T.bool(r.ok), 'a timeout with an incorrect-data proof is accepted'); if (!r.ok) return;
    const d = X.dispute();
    X.check(T.implies(T.lt(b2.f.transactionCnt, folded), T.eq(d.timedoutParticipant, T.ZERO)), 'a wrong block below the timed-out height undoes the timeout');
    X.check(T.or(T.eq(d.timedoutParticipant, T.ZERO), T.eq(d.timedoutParticipant, X.parts[1])), 'the timeout target does not change');
    X.E.reach('timeout ' + (X.E.decide(T.eq(d.timedoutParticipant, T.ZERO)) ? 'undone' : 'kept'));
  } };
}
module.exports = {
  id: 'S07', bounds: { participants: '2 and 3', proofs: 'one per call, first and later blocks', words: 'all values of all header fields, hashes and move arguments; times of the chain below 2^40' },
  outside: ['application calls other than the harness move, an unknown function and empty data', 'more than one earlier posting'],
  mustReach: ['accepted', 'rejected', 'first block', 'later block', 'wrong result', 'illegal move', 'bad time', 'challenged', 'timeout undone', 'timeout kept'],
  jobs: tier => [job(2, { state: 'genesis', call: 'play' }), job(2, { state: 'other', call: 'play' }), job(3, { state: 'genesis', call: 'play' }), job(3, { state: 'other', call: 'play', slim: true }), job(2, { state: 'genesis', call: 'unknown' }), job(2, { state: 'other', call: 'empty', slim: true }), job(2, { state: 'genesis', call: 'play', posts: 1, slim: true }), repeat(), timeout(), ...(tier === 'thorough' ? [job(3, { state: 'other', call: 'play' }), job(2, { state: 'other', call: 'play', posts: 1, slim: true })] : [])],
};
