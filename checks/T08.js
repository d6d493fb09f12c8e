'use strict';
const K = require('../ts/blocks'); const { node } = require('../ts/node');
const job = (name, run, o) => ({ kind: 'ts', name, run, samples: 4, ...o });
// the conditions under which a block may be adopted
function verdict(X, N, b, sig, chainTime) {
  const h = K.hdr(b); const top = N.top, len = top.blocks.length; const state = len ? top.blocks[len - 1].state : top.genesis; const last = len ? K.hdr(top.blocks[len - 1].b).timestamp : 0n;
  const lastTime = X.max(top.time, X.num0(last)); const ref = X.max(lastTime, chainTime);
  return {
    state,
    open: X.eq(h.channelId, K.CH), fork: X.eq(h.forkCnt, BigInt(N.fork)), next: X.eq(h.transactionCnt, BigInt(len)), signed: K.genuine(X, b, sig), member: X.or(...N.parts.map(p => X.eq(p, h.participant))),
    time: X.and(X.ge(X.num0(h.timestamp), lastTime), X.le(X.num0(h.timestamp), X.add(ref, N.times.p2pTime))),
  };
}
function setup(X, o) {
  const chain = X.num('chain time'); const p2p = X.num('p2p time', 1n << 20n);
  const N = node(X, { ...o, genesisTime: true, block: (X, l, q) => K.plain(X, l, { ...q, timestamp: X.big(l + '.time') }), times: { p2pTime: p2p, agreementTime: 5, chainFallbackTime: 30, challengeTime: 60 }, contract: { getChainLatestBlockTimestamp: (c, f, h) => { N.asked = [c, f, h]; return X.bigOf(chain); } } });
  // agreed blocks are valid themselves: times do not go back
  N.forks.forEach(f => { let t = X.bigOf(f.time); for (const e of f.blocks) { X.assume(X.ge(K.hdr(e.b).timestamp, t)); t = K.hdr(e.b).timestamp; } });
  N.chain = chain; return N;
}
module.exports = {
  id: 'T08', level: 'model_checking',
  bounds: { agreed_chain: '1..2 forks, 0..2 agreed blocks in the latest one', participants: '2 (thorough: 3)', block: 'every header field, hash, and signature arbitrary', machine: 'any deterministic state machine', times: 'all agreed, block, chain and configured times' },
  outside: ['blocks signed with the key of this node elsewhere', 'block encodings that are loose in another way than bytes after the block', 'numbers of 2^53 and more'],
  mustReach: ['loose', 'other form', 'adopted', 'refused', 'runs otherwise', 'too late', 'time goes back'],
  jobs: tier => {
    const jobs = [];
    const cases = [[[0], 2], [[1], 2], [[2], 2], [[1, 1], 2]]; if (tier === 'thorough') cases.push([[2], 3], [[1, 2], 3], [[3], 2]);
    for (const [lens, n, loose] of [...cases, ...['more bytes than the block', 'compact signature', 'signature counted from 0'].flatMap(l => [[[0], 2, l], [[1], 2, l]])]) jobs.push(job(`${n} participants, ${lens.join('+')} agreed${loose ? ', ' + loose : ''}`, async X => {
      const N = setup(X, { lens, parts: n }); const b = K.plain(X, 'new', { timestamp: X.big('new.time'), ...(lens[0] > 1 ? {} : { channelId: X.hash('new.channel') }) }); const sb = K.signedAny(X, b, 'newSig'); const sig = sb.signature; if (loose) { if (loose.startsWith('more')) sb.encodedBlock = X.eth.concat([sb.encodedBlock, '0x' + '00'.repeat(32)]); else { sb.signature = X.otherForm(sig, loose.startsWith('compact') ? 'compact' : 'v01'); X.reach('other form'); } X.reach('loose'); } X.nowMs = X.mul(1000, X.num('now'));
      const c = verdict(X, N, b, sig, N.chain); X.assume(X.not(X.and(c.signed, X.eq(K.hdr(b).participant, N.me), X.not(X.or(...N.top.blocks.map(e => K.sameBlock(X, e.b, b))))))); // nobody else signs as this node
      const before = N.machine.cur; X.check(X.eq(before, c.state), 'set-up');
      const r = await X.tryAsync(() => N.sm.onSignedBlock(sb)); await X.pump();
      const grown = N.am.getBlock(N.fork, lens[lens.length - 1]) !== undefined; X.obs('adopted', grown); X.obs('threw', r.ok ? false : String(r.error && r.error.message)); X.obs('flag', r.value);
      const turn = N.machine.turn(c.state), out = N.machine.outcome(c.state, b.transaction);
      const exact = X.and(out.ok, X.eq(b.previousStateHash, X.eth.keccak256(c.state)), X.eq(b.stateHash, X.eth.keccak256(out.next)));
      const valid = X.and(c.open, c.fork, c.next, c.signed, c.member, c.time, X.eq(turn, K.hdr(b).participant), exact);
      const known = X.or(...N.top.blocks.map(e => K.sameBlock(X, e.b, b)));
      X.check(X.implies(grown, valid), 'a block is adopted only if it is valid'); X.check(r.ok, 'handling a received block does not fail');
      if (!loose) X.check(X.implies(valid, grown), 'a valid block is adopted');
      const signedIt = N.hasSigned(b); X.check(X.iff(signedIt, grown), 'a block is signed exactly if it is adopted'); X.check(N.signed.length === (grown ? 1 : 0), 'nothing else is signed');
      const conf = N.sent.filter(s => s[0] === 'onBlockConfirmation'); X.check(conf.length === (grown ? 1 : 0), 'exactly an adopted block is confirmed to the others');
      if (grown && loose) for (const k of N.am.getSigantures(b)) X.check(X.or(X.eq(k, sig), ...N.sent.map(q => X.eq(k, q[2]))), 'signatures are kept in the form the contracts read');
      if (grown) {
        X.reach('adopted'); X.check(K.sameBlock(X, b, N.am.getBlock(N.fork, lens[lens.length - 1])), 'the adopted block is the received one');
        X.check(X.eq(N.machine.cur, out.next), 'the machine is in the state after the adopted block'); X.check(X.eq(N.am.getEncodedState(N.fork, lens[lens.length - 1]), out.next), 'the adopted state is the one after the block'); X.check(X.and(X.eq(conf[0][1].encodedBlock, sb.encodedBlock), (loose ? true : X.eq(conf[0][1].signature, sb.signature)), X.signed(conf[0][2], sb.encodedBlock, N.me)), 'the confirmation carries the block and the signature of this node');
        N.top.blocks.push({ b, sigs: [sig, conf[0][2]], state: out.next });
      } else {
        X.reach('refused'); X.check(X.eq(N.machine.cur, before), 'a refused block leaves the state machine where it was');
        const rest = X.and(c.open, c.fork, c.next, c.signed, c.member); if (X.is(X.and(rest, c.time, X.eq(turn, K.hdr(b).participant), X.not(exact)))) X.reach('runs otherwise');
        else if (X.is(X.and(rest, X.not(c.time)))) X.reach(X.is(X.gt(X.num0(K.hdr(b).timestamp), X.add(N.chain, N.times.p2pTime))) ? 'too late' : 'time goes back');
      }
      K.agrees(X, N.am, N.m, 'afterwards'); X.check(!N.locked(), 'the node is not left locked');
      if (r.ok && !loose) { const { ExecutionFlags: F } = K.types(X); X.check((r.value === F.SUCCESS) === grown, 'success is reported exactly for an adopted block'); X.check(X.implies(X.and(known, c.open, c.signed, c.fork), r.value === F.DUPLICATE), 'a block that is agreed already is reported as duplicate'); }
    }, { weight: lens.length + lens[0] + n }));
    // a signature is the same in another form: it neither counts in that form nor is in the way of the one the contracts read
    for (const form of ['compact', 'v01']) for (const early of [false, true]) jobs.push(job(`${early ? 'early ' : ''}confirmation, ${form}`, async X => {
      const N = node(X, { lens: [0], parts: 3, times: { p2pTime: 100, agreementTime: 5, chainFallbackTime: 30, challengeTime: 60 } }); X.nowMs = 7000; const bs = []; let pre = N.machine.cur;
      for (let h = 0; h < 2; h++) { const next = X.blob('state' + h); const b = K.plain(X, 'block' + h, { forkCnt: 0n, transactionCnt: BigInt(h), participant: X.party(1), timestamp: 6n, previousStateHash: X.eth.keccak256(pre), stateHash: X.eth.keccak256(next) }); N.machine.table.unshift({ s: pre, t: K.encTx(X, b.transaction), ok: true, next }); N.machine.turns.unshift({ s: pre, who: X.party(1) }); bs.push({ b, s: K.signedBy(X, b, 1) }); pre = next; }
      const q = bs[early ? 1 : 0], good = X.signBytes(2, q.s.encodedBlock), other = X.otherForm(good, form); const pick = X.choose(3, 'messages'); const list = [[other], [good, other], [other, good]][pick];
      const settle = async () => { for (let i = 0; i < 4; i++) { for (const t of X.liveTimers().filter(t => t.delay === 0)) X.fire(t); await X.pump(2); } };
      if (!early) await X.tryAsync(() => N.sm.onSignedBlock(q.s)); for (const s of list) { await X.tryAsync(() => N.sm.onBlockConfirmation(q.s, s)); await X.pump(2); } if (early) { await X.tryAsync(() => N.sm.onSignedBlock(q.s)); await X.tryAsync(() => N.sm.onSignedBlock(bs[0].s)); } await settle();
      const kept = N.am.getSigantures(q.b); X.check(kept.length === (pick ? 3 : kept.length), 'the confirmation counts in the form the contracts read'); const ok = [q.s.signature, good, ...N.sent.map(e => e[2]).filter(e => e !== undefined)]; for (const k of kept) X.check(X.or(...ok.map(o => X.eq(k, o))), 'signatures are kept in the form the contracts read');
      X.check(kept.length >= 2, 'set-up'); X.obs('kept', kept.length); X.reach('other form'); X.check(!N.locked(), 'the node is not left locked');
    }, { weight: 2 }));
    // a disputed fork is frozen; the other forks are not
    for (const lens of [[1], [1, 0], [0, 1]]) jobs.push(job(`disputed, ${lens.join('+')} agreed`, async X => {
      const N = node(X, { lens, times: { p2pTime: 100, agreementTime: 5, chainFallbackTime: 30, challengeTime: 60 } }); X.nowMs = 7000; const h = lens[lens.length - 1];
      const pre = N.machine.cur, next = X.blob('next'); const b = K.plain(X, 'new', { forkCnt: BigInt(N.fork), transactionCnt: BigInt(h), participant: X.party(1), timestamp: 6n, previousStateHash: X.eth.keccak256(pre), stateHash: X.eth.keccak256(next) });
      N.machine.table.unshift({ s: pre, t: K.encTx(X, b.transaction), ok: true, next }); N.machine.turns.unshift({ s: pre, who: X.party(1) });
      const f = X.big('disputed fork', 3n); const d = { channelId: K.CH, forkCnt: f, challengeCnt: X.big('challenges', 5n), virtualVotingBlocks: [], timedoutParticipant: X.eth.ZeroAddress, foldedTransactionCnt: 0n, postedStateDisputer: X.party(3), slashedParticipants: [] };
      const r0 = await X.tryAsync(() => N.sm.onDisputeUpdate(d)); await X.pump(); const r = await X.tryAsync(() => N.sm.onSignedBlock(K.signedBy(X, b, 1))); await X.pump(); X.check(r0.ok && r.ok, 'handling does not fail'); X.obs('flag', r.value);
      const grown = N.am.getBlock(N.fork, h) !== undefined; X.check(X.iff(grown, X.not(X.eq(f, BigInt(N.fork)))), 'a block of a fork that is being disputed is not adopted, of another fork it is'); X.check(N.hasSigned(b) === grown || X.is(X.iff(N.hasSigned(b), grown)), 'only adopted blocks are signed'); X.reach(grown ? 'not disputed' : 'disputed');
    }, { weight: 2 }));
    return jobs;
  },
};
