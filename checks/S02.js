'use strict';
const { T, B } = require('../sol/lib');
function req(X, i) { const q = { channelId: X.b32(`r${i}.channel`), participant: X.addr(`r${i}.who`), amount: X.u(`r${i}.amount`), deadlineTimestamp: X.u(`r${i}.deadline`), data: X.atom(`r${i}.data`) }; return { q, enc: X.enc('JoinChannel', q) }; }
const empty = (X, ch, f) => X.must(X.tx(X.P[5], 'getForkCnt', [ch])).ret[0];
function mathState(X, parts) { return X.enc('MathState', { number: T.ZERO, participants: parts }); }
function job(n, m) {
  return { name: `open requests=${n} signatures=${m}`, weight: n * m + 1, samples: 3, run(X) {
    X.setup({ times: null, manager: 'MathStateChannelManagerProxy', sm: 'MathStateMachine' }); X.W.now = X.time('now');
    const ch = X.b32('channel'), rs = [], ss = []; for (let i = 0; i < n; i++) rs.push(req(X, i)); for (let i = 0; i < m; i++) ss.push(X.sig('sig' + i));
    const r = X.tx(X.addr('sender'), 'openChannel', [ch, rs.map(x => x.enc), ss]);
    const spec = T.and(T.bool(n > 0 && n === m), T.ne(ch, T.ZERO), ...rs.map(x => T.and(T.or(...ss.map(s => T.eq(X.recovered(s, x.enc), x.q.participant))), T.eq(x.q.channelId, ch), T.gt(x.q.amount, T.ZERO), T.gt(x.q.deadlineTimestamp, X.W.now))));
    X.iff(T.bool(r.ok), spec, 'a channel opens exactly with valid requests signed by every joiner');
    X.E.reach(r.ok ? 'opened' : 'rejected');
    const open = X.must(X.tx(X.P[5], 'isChannelOpen', [ch])).ret[0]; X.iff(open, T.bool(r.ok), 'the channel is open exactly after a successful opening');
    const st = X.must(X.tx(X.P[5], 'getLatestState', [ch])).ret[0], fk = X.must(X.tx(X.P[5], 'getForkCnt', [ch])).ret[0], gt = X.must(X.tx(X.P[5], 'getGenesisTimestamp', [ch, T.ZERO])).ret[0];
    X.check(T.eq(fk, T.ZERO), 'the first fork is number 0');
    const other = X.b32('other'); const oo = X.must(X.tx(X.P[5], 'isChannelOpen', [other])).ret[0]; X.iff(oo, T.and(T.bool(r.ok), T.eq(other, ch)), 'no other channel is opened');
    if (!r.ok) { X.check(B.eq(st, B.EMPTY), 'a rejected opening stores nothing'); X.check(T.eq(gt, T.ZERO), 'a rejected opening stores no time'); return; }
    X.check(B.eq(st, mathState(X, rs.map(x => x.q.participant))), 'the genesis state lists exactly the joiners in order'); X.check(T.eq(gt, X.W.now), 'the genesis time is now');
    const ps = X.must(X.tx(X.P[5], 'getParticipants', [ch, T.ZERO])).ret[0].items; X.check(T.and(T.bool(ps.length === n), ...ps.slice(0, n).map((p, i) => T.eq(p, rs[i].q.participant))), 'the participants are exactly the joiners');
    // opening it again, with fresh requests
    const q2 = req(X, 'again'); const s2 = X.sig('again.sig');
    const r2 = X.tx(X.P[1], 'openChannel', [ch, [q2.enc], [s2]]);
    X.check(T.bool(!r2.ok), 'an open channel cannot be opened again'); const st2 = X.must(X.tx(X.P[5], 'getLatestState', [ch])).ret[0]; X.check(B.eq(st, st2), 'a refused re-opening changes nothing'); X.E.reach('re-opening refused');
  } };
}
module.exports = {
  id: 'S02', contracts: [['contracts/V1/examples/MathStateMachine/MathStateMachine.sol', 'MathStateMachine'], ['contracts/V1/examples/MathStateMachine/MathStateChannelManagerProxy.sol', 'MathStateChannelManagerProxy'], ['contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol', 'DisputeManagerFacet'], ['contracts/V1/StateChannelDiamondProxy/StateChannelUtilLibrary.sol', 'StateChannelUtilLibrary']],
  bounds: { requests: 'up to 2 (3 thorough)', words: 'all values of every request field, the channel identifier and the sender; time below 2^40' }, outside: ['other managers than the one in the repository', 'more joiners'],
  mustReach: ['opened', 'rejected', 're-opening refused'],
  jobs: tier => [job(0, 0), job(1, 0), job(1, 1), job(1, 2), job(2, 1), job(2, 2), ...(tier === 'thorough' ? [job(3, 3), job(2, 3)] : [])],
};
