'use strict';
const K = require('../ts/blocks'); const { net } = require('../ts/net');
const T0 = 1000000, LIMIT = 5;
module.exports = {
  id: 'T16', level: 'model_checking',
  bounds: { connections: '2', messages: 'up to 2 (thorough: 3) after both connections are open: a request or an answer on either, time passing, a connection closing; signing may finish late', contents: 'challenges, signatures, signers and times arbitrary; challenges and signatures of this node reflected; some malformed times', },
  outside: ['relaying: somebody who passes this node\'s challenge on to the party that answers it', 'malformed challenges and signatures (T19)', 'setting up WebRTC connections'],
  mustReach: ['registered', 'refused', 'answered', 'late', 'reflected', 'moved', 'used twice', 'signed late'],
  jobs: tier => {
    const jobs = []; const kinds = ['request', 'answer', 'wait', 'close']; let seqs = [['request'], ['answer'], ['wait', 'answer']]; for (const a of kinds) for (const b of kinds) if ((a === 'answer' || b === 'answer' || (a === 'request' && b === 'request')) && !(a === 'wait' && b === 'answer')) seqs.push([a, b]);
    if (tier === 'thorough') for (const a of kinds) for (const b of kinds) for (const c of kinds) if ([a, b, c].filter(x => x === 'answer' || x === 'request').length >= 2 && c !== 'wait' && c !== 'close') seqs.push([a, b, c]);
    for (const seq of seqs) jobs.push({ kind: 'ts', samples: 3, weight: seq.filter(x => x === 'answer' || x === 'request').length * 3, name: seq.join(', '), run: async X => {
      X.nowMs = T0 * 1000; const pending = []; const made = [];
      const N = net(X, { me: 0, lens: [0], genesisAt: T0 - 10, times: { p2pTime: 15, agreementTime: LIMIT, chainFallbackTime: 30, challengeTime: 60 }, signing: async (m, s) => { made.push(s); if (seq.length < 3 && X.choose(2, 'signed late')) await new Promise(r => pending.push(r)); } });
      const peer = net(X, { me: 1, lens: [0], genesisAt: T0 - 10 }); const pc = peer.connect();
      const conns = [N.connect(), N.connect()]; const at = [T0, T0]; const issued = conns.map(c => { X.check(c.out.length === 1 && c.out[0].method === 'onInitHandshakeRequest', 'a new connection is challenged'); return c.out[0].params[0]; });
      X.check(X.not(X.eq(issued[0], issued[1])), 'every connection gets its own challenge');
      // what an honest party signs to answer a challenge, and its answer
      const honest = async (ch, time) => { const n = peer.signed.length, k = pc.out.length; peer.deliver(pc, { method: 'onInitHandshakeRequest', params: [ch, time] }); await X.pump(2); return { message: peer.signed[n], answer: pc.out[k] }; };
      const want = []; for (const ch of issued) { const h = await honest(ch, T0); X.check(h.message !== undefined, 'a timely challenge is answered'); want.push(h); }
      const reg = [undefined, undefined], used = [false, false], alive = [true, true]; let now = T0; const verdicts = []; const ought = (c, m) => verdicts.push([c, m]); const asked = [], seen = [];
      const time = l => { const k = X.choose(3, l + ' shape'); return k === 0 ? X.num(l) : k === 1 ? 'soon' : {}; };
      for (const [i, e] of seq.entries()) {
        const j = seq.length > 1 || e === 'request' ? X.choose(2, 'connection' + i) : 0; const c = conns[j];
        if (e === 'wait') { const d = X.num('waited' + i, 1000n); now = X.add(now, d); X.nowMs = X.mul(1000, now); continue; }
        if (e === 'close') { N.drop(c); alive[j] = false; reg[j] = undefined; await X.pump(1); continue; }
        if (e === 'request') { const own = X.choose(2, 'reflected challenge' + i); const ch = own ? issued[1 - j] : X.hash('challenge' + i); const t = time('request time' + i); const up = N.open(c), before = conns.map(x => x.out.length), n = N.signed.length; N.deliver(c, { method: 'onInitHandshakeRequest', params: [ch, t] }); await X.pump(2); const near = !up || typeof t === 'string' || (t && t.constructor === Object) ? false : X.and(X.le(X.sub(t, now), LIMIT), X.le(X.sub(now, t), LIMIT)); const fl = N.signed.length - n;
          ought(X.iff(fl === 1, near), 'a challenge on an open connection is answered exactly if the clocks agree'); if (fl) { asked.push({ j, ch, before, m: N.signed[n], at: i }); X.reach(own ? 'reflected' : 'answered'); } continue; }
        // an answer: an arbitrary signature by anybody else, or one this node made
        const own = made.length && X.choose(2, 'reflected answer' + i) ? made[made.length - 1] : undefined; const sig = own || X.sig('signature' + i); const t = time('answer time' + i); const bad = typeof t === 'string' || (t && t.constructor === Object);
        const by = X.eth.verifyMessage(want[j].message, sig); if (!own) X.assume(X.not(X.eq(X.eth.verifyMessage(want[j].message, sig), N.me)));
        for (const q of seen) X.unforged(by, q); seen.push(by); const fresh = !used[j] && alive[j]; const timely = bad ? false : X.and(X.le(X.sub(now, at[j]), LIMIT), X.le(X.sub(t, at[j]), LIMIT), X.le(X.sub(at[j], t), LIMIT));
        const valid = X.and(fresh, timely, X.not(X.eq(by, N.me)));
        const n = N.opened.length; N.deliver(c, { method: 'onInitHandshakeResponse', params: [sig, t, 0] }); await X.pump(2);
        const p = N.profile(c); const changed = N.opened.length > n;
        ought(X.implies(changed, valid), 'a connection is registered only by a timely answer to its own, unused challenge'); ought(X.implies(valid, changed), 'a timely genuine answer registers the connection');
        if (X.is(valid)) { X.reach('registered'); ought(p && X.eq(p.getEvmAddress(), by) && X.eq(N.opened[n], by), 'under the address that signed'); ought(!!p && p.getIsHandshakeCompleted(), 'and counts as authenticated'); used[j] = true; for (const k of [0, 1]) if (k !== j && reg[k] !== undefined && X.is(X.eq(reg[k], by))) { reg[k] = undefined; alive[k] = false; X.reach('moved'); } reg[j] = by; }
        else { X.reach(X.is(fresh) && !bad ? 'late' : 'refused'); if (used[j]) X.reach('used twice'); if (!N.open(c)) { alive[j] = false; reg[j] = undefined; } }
        for (const k of [0, 1]) { const q = N.profile(conns[k]); ought(reg[k] === undefined ? q === undefined || !N.open(conns[k]) : q !== undefined, 'exactly the authenticated connections are registered'); if (reg[k] !== undefined && q) ought(X.eq(q.getEvmAddress(), reg[k]), 'under their own address'); }
      }
      const waiting = pending.length; if (waiting) X.reach('signed late'); while (pending.length) pending.splice(X.choose(pending.length, 'signing done'), 1)[0](); await X.pump(3);
      const b = K.plain(X, 'signed block'); const enc = X.eth.getBytes(X.eth.keccak256(K.enc(X, b)));
      for (const a of asked) ought(X.not(X.eq(X.eth.hexlify(a.m), X.eth.hexlify(enc))), 'answering a challenge signs nothing that counts as a block');
      for (const [k, c] of conns.entries()) { const got = c.out.filter(m => m.method === 'onInitHandshakeResponse'); ought(got.length === asked.filter(a => a.j === k).length || !N.open(c), 'an answer goes to the connection that asked'); for (const [x, a] of asked.filter(a => a.j === k).entries()) if (got.length === asked.filter(a => a.j === k).length) ought(asked.filter(q => q.j === k).some(q => got.some(g => X.is(X.eq(X.eth.verifyMessage(q.m, g.params[0]), N.me)))), 'and is genuine'); }
      X.obs('opened', N.opened.length); X.obs('unhandled', X.unhandled.length); for (const [c, m] of verdicts) X.check(c, m); X.check(X.unhandled.length === 0, 'nothing fails in the background');
    } });
    return jobs;
  },
};
