'use strict';
const { T, B, TMAX } = require('../sol/lib');
const slot = (X, a) => X.must(X.tx(X.P[5], 'getBlockCallData', a)).ret;
const same = (a, b) => T.and(...['channelId', 'forkCnt', 'transactionCnt', 'participant'].map(k => T.eq(a[k], b[k])));
function first(o) {
  return { name: `posting${o.trail ? ' with trailing data' : ''}`, samples: 4, run(X) {
    const tm = [X.time('p2p'), X.time('agreement'), X.time('fallback'), X.time('challenge')]; X.setup({ times: tm }).open(2, { number: T.int(0) });
    X.W.now = X.u('now', TMAX, 1n); const span = T.add(T.add(tm[0], tm[1]), tm[2]); X.E.assume(T.le(span, X.W.now));
    const b = X.symBlock('block', { timestamp: X.u('block.stamp'), ...(o.trail ? { trail: X.u('trail', 1000n) } : {}) }), s = X.sig('sig'), who = X.addr('sender'); const before = X.snapshot();
    const r = X.tx(who, 'postBlockCalldata', [[b.enc, s]]);
    const spec = T.and(T.eq(X.recovered(s, b.enc), who), T.eq(who, b.f.participant), T.le(b.f.timestamp, X.W.now), T.ge(b.f.timestamp, T.sub(X.W.now, span)));
    X.iff(T.bool(r.ok), spec, 'a posting is accepted exactly from its author with a fresh time stamp');
    X.E.reach(r.ok ? 'accepted' : 'rejected');
    X.check(X.sameSnap(before, X.snapshot()), 'posting does not touch states, forks or disputes');
    const q = { channelId: X.b32('q.channel'), forkCnt: X.u('q.fork'), transactionCnt: X.u('q.height'), participant: X.addr('q.author') };
    const g = slot(X, [q.channelId, q.forkCnt, q.transactionCnt, q.participant]);
    X.iff(g[0], T.and(T.bool(r.ok), same(q, b.f)), 'a slot is occupied exactly by what was posted to it');
    if (r.ok && X.E.decide(same(q, b.f))) { const c = X.obj(g[1]); X.check(T.and(B.eq(c.signedBlock.encodedBlock, b.enc), B.eq(c.signedBlock.signature, s), T.eq(c.timestamp, X.W.now)), 'the posting is read back unchanged with its time'); X.E.reach('read back'); }
    const lt = X.must(X.tx(X.P[5], 'getChainLatestBlockTimestamp', [q.channelId, q.forkCnt, q.transactionCnt])).ret[0];
    X.iff(T.ne(lt, T.ZERO), T.and(T.bool(r.ok), T.eq(q.channelId, b.f.channelId), T.eq(q.forkCnt, b.f.forkCnt), T.le(b.f.transactionCnt, q.transactionCnt)), 'a rejected posting leaves no time behind');
  } };
}
function second() {
  return { name: 'two postings', weight: 5, samples: 4, run(X) {
    X.setup().open(2, { number: T.int(0) }); X.W.now = X.u('now1', 1000100n, 1000000n);
    const a = X.symBlock('a', { timestamp: X.W.now }); const sa = X.signBy(a.f.participant, a.enc, 'sa'); const t1 = X.W.now;
    X.must(X.tx(a.f.participant, 'postBlockCalldata', [[a.enc, sa]]));
    X.W.now = X.u('now2', 1000200n, 1000000n); X.E.assume(T.le(t1, X.W.now));
    const b = X.symBlock('b', { timestamp: X.W.now }); const sb = X.signBy(b.f.participant, b.enc, 'sb');
    X.must(X.tx(b.f.participant, 'postBlockCalldata', [[b.enc, sb]]));
    const g = slot(X, [a.f.channelId, a.f.forkCnt, a.f.transactionCnt, a.f.participant]); const c = X.obj(g[1]);
    X.check(g[0], 'a posting stays'); const over = same(a.f, b.f);
    X.check(T.or(over, T.and(B.eq(c.signedBlock.encodedBlock, a.enc), B.eq(c.signedBlock.signature, sa), T.eq(c.timestamp, t1))), 'a posting to another slot does not disturb an earlier one');
    X.E.reach(X.E.decide(over) ? 'same slot' : 'other slot');
    const g2 = slot(X, [b.f.channelId, b.f.forkCnt, b.f.transactionCnt, b.f.participant]); const c2 = X.obj(g2[1]);
    X.check(T.and(g2[0], T.or(B.eq(c2.signedBlock.encodedBlock, b.enc), over)), 'the second posting is stored');
  } };
}
module.exports = { id: 'S16', bounds: { postings: 'up to 2', words: 'all block fields, senders and time stamps; chain time below 2^40 and not before the sum of the spans' }, outside: ['chain clocks smaller than the sum of the three spans'], mustReach: ['accepted', 'rejected', 'read back', 'same slot', 'other slot'], jobs: () => [first({}), first({ trail: true }), second()] };
