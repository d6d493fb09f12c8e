'use strict';
const K = require('../ts/blocks'); const { net } = require('../ts/net');
const T0 = 1000000, U = (1n << 256n) - 1n, DAY = 86400; const JOIN = 'tuple(bytes32 channelId,address participant,uint256 amount,uint256 deadlineTimestamp,bytes data)';
const TIMES = { p2pTime: 15, agreementTime: 5, chainFallbackTime: 30, challengeTime: 60 }; const enc = (X, r) => K.coder(X).encode([JOIN], [r]); const w = (...xs) => '0x' + xs.map(x => BigInt(x).toString(16).padStart(64, '0')).join('');
// the channel id of these requests, taken as an offset, leads to a transaction in their data: Solidity reads them as blocks
const SMALL = '0x' + 'c0'.padStart(64, '0');
const BLOCKS = [w(K.CH, 0xa11ce, 0, 0, 5, 0xc0, 0, 0x60, 0x60, 0), w(K.CH, 0xa11ce, 0, 0, 5, 0xc0, 0, 0x60, 0x7f, 0, 0x1ab)]; // the second ends with bytes that are not filled up to a word
const settle = async X => { let n = 1; for (let i = 0; i < 3; i++) { n = 0; await X.pump(2); for (const t of X.liveTimers()) if (X.is(X.or(X.gt(t.delay, 2147483647), X.le(t.delay, 1)))) { n++; X.fire(t); } } return n === 0; }; // a delay that does not fit fires at once
module.exports = {
  id: 'T32', level: 'model_checking',
  bounds: { messages: 'up to 3 (thorough: 4) about one or two requests, handled one after the other or at once with any order of signing', requests: 'own or arbitrary channel, arbitrary amount, deadline and data, standard or other encoding; two whose bytes read as a block', signatures: 'by the joiner, by participants, by anybody, written in the standard or another form', participants: '1..3, who may change once while a request is open', time: 'any time passes before the last message' },
  outside: ['who consumes the completed requests', 'what the contracts ask of a join (S-checks)', 'other requests whose bytes read as blocks'],
  mustReach: ['consented', 'foreign channel', 'reads as a block', 'forged request', 'other form', 'other encoding', 'expired', 'completed', 'with the first message', 'stranger', 'at once', 'far deadline', 'two requests', 'completed by others'],
  jobs: tier => {
    const jobs = []; const deep = tier === 'thorough'; const job = (name, run, o) => jobs.push({ kind: 'ts', samples: 3, name, run, ...o });
    // what a message says about request r; gives whether the request and the confirmation count, and by whom
    const setup = (X, n, o = {}) => { X.nowMs = T0 * 1000; const own = o.channel || X.hash('own channel'); if (!o.channel) X.assume(X.gt(X.eth.toBigInt(own), 1n << 64n)); const N = net(X, { me: o.me || 0, parts: n, lens: [0], genesisAt: T0 - 10, times: TIMES, channel: own, ...o }); N.own = own; N.at = o.me || 0; N.c = N.connect(); N.joins = () => N.c.out.filter(m => m.method === 'onJoinChannelRequest'); N.done = () => N.net.localRpcService.joinChannelService.joinChannelQueue; return N; };
    const request = (X, N, l, o = {}) => ({ channelId: N.own, participant: X.party(5), amount: X.big(l + ' amount', U), deadlineTimestamp: X.big(l + ' deadline', U), data: X.blob(l + ' data'), ...o });
    const put = (X, encoded, r, l, kinds) => { // a joiner's signature
      const k = X.oneOf(kinds, l + ' joiner signature'); if (k === 'genuine') return { sig: X.signBytes(5, encoded), ok: true }; if (k === 'form') { X.reach('other form'); return { sig: X.otherForm(X.signBytes(5, encoded), X.oneOf(['compact', 'v01'], 'form')), ok: false }; }
      const sig = X.sig(l + ' request signature'); return { sig, ok: X.signed(sig, encoded, r.participant) };
    };
    // one message; the verdict on it
    const message = (X, N, q, l, o = {}) => {
      const j = q.first ? { sig: q.sig, ok: q.sigOk } : put(X, q.encoded, q.r, l, o.joiner || ['genuine', 'any']); let conf, by;
      const k = X.oneOf(o.confs || ['none', 'peer', 'own', 'any', 'form'], l + ' confirmation'); if (k === 'peer') { const i = [0, 1, 2, 3].filter(i => i !== N.at)[X.choose(2, l + ' who')]; conf = X.signBytes(i, q.encoded); by = X.party(i); } if (k === 'own') { conf = X.signBytes(N.at, q.encoded); by = N.me; } if (k === 'any') { conf = X.sig(l + ' confirmation signature'); by = X.signerOf(q.encoded, conf); } if (k === 'form') { conf = X.otherForm(X.signBytes(N.at ? 0 : 1, q.encoded), X.oneOf(['compact', 'v01'], 'form')); X.reach('other form'); }
      N.deliver(N.c, { method: 'onJoinChannelRequest', params: conf === undefined ? [{ encodedJoinChannel: q.encoded, signature: j.sig }] : [{ encodedJoinChannel: q.encoded, signature: j.sig }, conf] });
      return { q, ok: X.is(j.ok), by, conf };
    };
    // what must have come of the messages about a request, in whatever order they were handled
    const judge = (X, N, verdict, n, qs, msgs) => {
      const joins = N.joins(), done = N.done(); let total = 0, all = 0; X.obs('announced', joins.length); X.obs('done', done.length);
      for (const q of qs) {
        const mine = msgs.filter(m => m.q === q); const counted = mine.filter(m => m.counts); const about = joins.filter(m => X.is(X.eq(m.params[0].encodedJoinChannel, q.encoded))); const want = counted.length ? 1 : 0; total += about.length;
        verdict(about.length === want, 'a request is consented to and announced once, exactly if it counts'); if (want) X.reach('consented');
        for (const m of about) { verdict(X.signed(m.params[1], q.encoded, N.me), 'the announcement carries the consent of this node'); verdict(X.signed(m.params[0].signature, q.encoded, q.r.participant), 'and the request as signed by the joiner'); }
        const who = new Set([N.at]); for (const m of counted) if (m.by !== undefined) { let hit = false; for (let i = 0; i < n; i++) if (X.is(X.eq(m.by, N.parts[i]))) { who.add(i); hit = true; } if (!hit) X.reach('stranger'); }
        const full = want && who.size === n; const got = done.filter(d => X.is(X.eq(d.signedJoinChannel.encodedJoinChannel, q.encoded))); all += got.length; verdict(got.length === (full ? 1 : 0), 'a request is passed on once, exactly when everybody consented');
        for (const d of got) { X.reach('completed'); verdict(X.signed(d.signedJoinChannel.signature, q.encoded, q.r.participant), 'with the genuine signature of the joiner'); const s = d.confirmationSignatures; verdict(s.length === n, 'and one consent of each participant'); for (let i = 0; i < n; i++) verdict(X.or(...s.map(x => X.signed(x, q.encoded, N.parts[i]))), 'each of them genuine'); }
        if (got.length && counted.length === 1) X.reach('with the first message');
      }
      verdict(total === joins.length && all === done.length, 'nothing else is announced or passed on');
    };
    const signedIs = (X, N, b) => X.or(...N.signed.map(m => X.eq(X.eth.hexlify(m), X.eth.keccak256(b))));
    const end = (X, verdicts) => { X.obs('unhandled', X.unhandled.length); for (const [c, m] of verdicts) X.check(c, m); X.check(X.unhandled.length === 0, 'nothing fails in the background'); };
    // one after the other, time passing before the last
    for (const n of [1, 2, 3]) for (let k = 1; k <= (deep ? 4 : 3); k++) { if (n === 1 && k === 3 || n === 3 && k > 3) continue; for (const odd of k === 1 ? ['none', 'foreign', 'encoding'] : ['none']) job(`${k} message(s), ${n} participant(s)${odd === 'none' ? '' : ', ' + odd}`, async X => {
      const N = setup(X, n, { me: k % 2 ? n - 1 : 0 }); const verdicts = []; const verdict = (c, m) => verdicts.push([c, m]); const r = request(X, N, 'request', odd === 'foreign' ? { channelId: X.hash('other channel') } : {}); if (odd === 'foreign') X.assume(X.gt(X.eth.toBigInt(r.channelId), 1n << 64n));
      const standard = enc(X, r); const encoded = odd === 'encoding' ? X.eth.concat([standard, '0x' + '00'.repeat(32)]) : standard; const q = { r, encoded: standard }; const sent = { ...q, encoded }; let own = true; if (odd === 'foreign') { own = X.is(X.eq(r.channelId, N.own)); if (!own) X.reach('foreign channel'); } if (odd === 'encoding') X.reach('other encoding');
      const msgs = []; for (let i = 0; i < k; i++) {
        if (i && i === k - 1) { const dt = X.num('waited', BigInt(100 * DAY)); X.nowMs = X.add(X.nowMs, X.mul(1000, dt)); for (const t of X.liveTimers()) if (X.is(X.le(X.add(t.at, t.delay), X.nowMs))) { X.fire(t); await settle(X); } }
        const open = X.is(X.gt(r.deadlineTimestamp, X.bigOf(X.floor(X.div(X.nowMs, 1000))))); if (!open) X.reach('expired'); else if (X.is(X.gt(r.deadlineTimestamp, BigInt(T0 + 30 * DAY)))) X.reach('far deadline');
        const m = message(X, N, sent, 'message' + i, k > 2 ? { joiner: i === 1 ? ['genuine', 'any'] : ['genuine'], confs: i ? ['peer', 'any'] : ['none', 'peer'] } : k === 2 ? (i ? { joiner: ['genuine', 'any'] } : { joiner: ['genuine', 'any'], confs: ['none', 'peer', 'any'] }) : { joiner: ['genuine', 'any', 'form'] }); m.q = q; m.counts = own && open && odd !== 'encoding' && m.ok; if (!m.ok) X.reach('forged request'); msgs.push(m); const quiet = await settle(X); verdict(quiet, 'waiting for the deadline keeps nothing busy');
        judge(X, N, verdict, n, [q], msgs); if (!own || odd === 'encoding') verdict(N.signed.length === 0, 'nothing is signed for a request that does not count');
      }
      end(X, verdicts);
    }, { weight: k * k * n }); }
    // at once: the consent is signed late, messages arrive meanwhile
    for (const n of [1, 2, 3]) for (let k = 2; k <= (deep ? 3 : 2); k++) job(`${k} messages at once, ${n} participant(s)`, async X => {
      const pending = []; const N = setup(X, n, { signing: () => new Promise(r => pending.push(r)) }); const verdicts = []; const verdict = (c, m) => verdicts.push([c, m]); const r = request(X, N, 'request', { deadlineTimestamp: BigInt(T0 + 100) }); const q = { r, encoded: enc(X, r) };
      const msgs = []; for (let i = 0; i < k; i++) { const m = message(X, N, q, 'message' + i, { joiner: i ? ['genuine'] : ['genuine', 'any'], confs: n === 3 ? ['peer'] : ['none', 'peer', 'any'] }); m.counts = m.ok; msgs.push(m); if (X.choose(2, 'settle')) await X.pump(2); }
      X.reach('at once'); for (let j = 0; j < 8; j++) { await X.pump(2); if (!pending.length) break; pending.splice(X.choose(pending.length, 'signed next'), 1)[0](); } await X.pump(2); judge(X, N, verdict, n, [q], msgs); end(X, verdicts);
    }, { weight: 4 * k });
    // who has to consent changes while a request is open
    for (const [from, to] of [[[0, 1], [0, 2]], [[0, 1], [0, 1, 2]], [[0, 1, 2], [0, 3]], [[0, 1, 2], [0, 1]]]) job(`participants change from ${from} to ${to}`, async X => {
      const N = setup(X, 2); const verdicts = []; const verdict = (c, m) => verdicts.push([c, m]); const r = request(X, N, 'request', { deadlineTimestamp: BigInt(T0 + 100) }); const q = { r, encoded: enc(X, r) }; const who = new Set([0]); let passed = null; const most = deep ? 4 : 3, change = X.choose(most - 1, 'change') + 1;
      for (let i = 0; i < most; i++) {
        const parts = i < change ? from : to; N.machine.parts = parts.map(j => X.party(j)); const by = X.choose(5, 'confirmation' + i); const conf = by === 4 ? X.sig('confirmation signature' + i) : by ? X.signBytes(by, q.encoded) : undefined;
        N.deliver(N.c, { method: 'onJoinChannelRequest', params: [{ encodedJoinChannel: q.encoded, signature: X.signBytes(5, q.encoded) }, ...(conf === undefined ? [] : [conf])] }); await settle(X);
        if (by === 4) { const a = X.signerOf(q.encoded, conf); for (const j of parts) if (X.is(X.eq(a, X.party(j)))) who.add(j); } else if (parts.includes(by)) who.add(by);
        if (!passed && parts.every(j => who.has(j))) { passed = parts; if (i >= change) X.reach('completed by others'); }
        const done = N.done(); verdict(done.length === (passed ? 1 : 0), 'a request is passed on once, exactly when all who take part at the time have consented'); if (done.length !== (passed ? 1 : 0)) break;
      }
      const done = N.done(); X.obs('done', done.length); if (passed && done.length) { const s = done[0].confirmationSignatures; verdict(s.length === passed.length, 'with one consent of each who takes part'); for (const j of passed) verdict(X.or(...s.map(x => X.signed(x, q.encoded, X.party(j)))), 'each of them genuine'); }
      verdict(N.joins().length === 1, 'a request is announced once'); end(X, verdicts);
    }, { weight: 10 });
    // two requests do not mix
    for (const n of [1, 2]) job(`two requests, ${n} participant(s)`, async X => {
      const N = setup(X, n); const verdicts = []; const verdict = (c, m) => verdicts.push([c, m]); const qs = [0, 1].map(i => { const r = request(X, N, 'request' + i, { deadlineTimestamp: BigInt(T0 + 100), ...(i ? { participant: X.party(5) } : {}) }); return { r, encoded: enc(X, r) }; }); X.assume(X.not(X.eq(qs[0].encoded, qs[1].encoded))); X.reach('two requests');
      const msgs = []; for (let i = 0; i < (deep ? 4 : 3); i++) { const q = qs[i < 2 ? i : X.choose(2, 'about')]; const m = message(X, N, q, 'message' + i, { joiner: ['genuine'], confs: i < 2 ? ['none', 'any'] : ['peer', 'any'] }); m.counts = true; msgs.push(m); await settle(X); } judge(X, N, verdict, n, qs, msgs); end(X, verdicts);
    }, { weight: 10 });
    // bytes that are also a block
    for (const [b, data] of BLOCKS.entries()) for (const channel of [SMALL, undefined]) job(`a request that reads as a block (${b}), ${channel ? 'own' : 'foreign'} channel`, async X => {
      const N = setup(X, 2, channel ? { channel } : {}); const r = { channelId: SMALL, participant: X.party(5), amount: 7n, deadlineTimestamp: BigInt(T0 + 100), data }; const q = { r, encoded: enc(X, r) }; X.reach('reads as a block');
      for (let i = 0; i < 2; i++) { message(X, N, q, 'message' + i, { joiner: ['genuine'] }); await settle(X); } X.obs('signed', N.signed.length); X.obs('unhandled', X.unhandled.length);
      X.check(X.not(signedIs(X, N, q.encoded)), 'nothing is signed that can be held against this node as a block'); X.check(N.joins().length === 0 && N.done().length === 0, 'nor announced'); X.check(X.unhandled.length === 0, 'nothing fails in the background');
    }, { weight: 2 });
    return jobs;
  },
};
