'use strict';
const K = require('../ts/blocks'); const { net } = require('../ts/net');
const T0 = 1000000;
module.exports = {
  id: 'T18', level: 'model_checking',
  bounds: { tables: 'up to 3 (thorough: 4) operations: register, unregister, move to another connection, connection removed; 3 profiles with arbitrary (possibly equal) addresses and an optional network address, 2 connections', connections: '2 (thorough: 3) connections, up to 3 (thorough: 4) events: authenticated, closed by the other side, removed, all disconnected, sending fails, a broadcast' },
  outside: ['profiles whose transport or address is changed from outside', 'the same connection added twice'],
  mustReach: ['replaced', 'moved', 'taken over', 'gone', 'sent', 'one fails', 'disconnected', 'late message'],
  jobs: tier => {
    const jobs = []; const deep = tier === 'thorough'; const kinds = ['register', 'unregister', 'move', 'remove'];
    const seqs = []; const grow = (s, n) => { if (s.length === n) { seqs.push(s); return; } for (const k of kinds) if (s.length || k === 'register') grow([...s, k], n); }; grow([], deep ? 4 : 3);
    for (const seq of seqs) jobs.push({ kind: 'ts', samples: 2, weight: seq.length + seq.filter(x => x === 'register').length, name: 'tables: ' + seq.join(', '), run: async X => {
      const PM = X.load('@/ProfileManager').default, PeerProfile = X.load('@/PeerProfile').default, AT = X.load('@/transport/ATransport').default; const pm = new PM(); const closed = [];
      class Line extends AT { constructor(i) { super(); this.i = i; this.transportType = 0; } send() {} onMessage() {} _close() { closed.push(this.i); } }
      const lines = [new Line(0), new Line(1)]; const addrs = [X.addr('address0'), X.addr('address1')]; const hps = ['hp0', 'hp1']; let live = []; const profiles = [];
      const fresh = i => { const t = X.choose(2, 'connection' + i), a = addrs[X.choose(2, 'address' + i)], hp = X.choose(2, 'network address' + i) ? hps[0] : undefined; const p = new PeerProfile(lines[t], a, hp); const e = { p, a, hp, t }; profiles.push(e); return e; };
      const owner = t => live.find(e => e.t === t), known = a => live.find(e => X.is(X.eq(e.a, a)));
      let nth = 0; const hpOwner = { hp0: undefined }; const shut = [];
      for (const [i, k] of seq.entries()) {
        if (k === 'register') { const e = fresh(i); const q = known(e.a); if (q) { X.reach('replaced'); live = live.filter(x => x !== q); if (hpOwner.hp0 === q) hpOwner.hp0 = undefined; q.t = undefined; } const o = owner(e.t); if (o) { o.t = undefined; X.reach('taken over'); } live.push(e); if (e.hp) hpOwner.hp0 = e; pm.registerProfile(e.p); }
        else if (k === 'unregister') { const e = profiles[X.choose(profiles.length, 'which' + i)]; const was = live.includes(e); live = live.filter(x => x !== e); if (hpOwner.hp0 === e) hpOwner.hp0 = undefined; if (was) { e.t = undefined; X.reach('gone'); } pm.unregisterProfile(e.p); }
        else if (k === 'move') { const a = addrs[X.choose(2, 'address' + i)], t = X.choose(2, 'connection' + i); const e = known(a); if (e) { const o = owner(t); if (o && o !== e) { o.t = undefined; X.reach('taken over'); } if (e.t !== undefined && e.t !== t) { shut.push(e.t); X.reach('moved'); } e.t = t; } pm.updateTransport(a, lines[t]); }
        else { const t = X.choose(2, 'connection' + i); const o = owner(t); if (o) { o.t = undefined; shut.push(t); } pm.removeTransport(lines[t]); }
        const name = q => { const e = profiles.find(e => e.p === q); return q === undefined ? 'nobody' : e ? 'profile ' + profiles.indexOf(e) : 'something else'; };
        for (const t of [0, 1]) { const o = owner(t); const got = pm.getProfileByTransport(lines[t]); X.obs('at' + t, name(got)); X.check(got === (o && o.p), 'a connection leads to the peer it was last given to'); if (got) X.check(got.getTransport() === lines[t], 'and back'); }
        for (const a of addrs) { const e = known(a); X.check(pm.getProfileByEvmAddress(a) === (e && e.p), 'an address leads to the peer last registered under it'); }
        X.check(pm.getProfileByHpAddress('hp0') === (hpOwner.hp0 && hpOwner.hp0.p), 'so does a network address'); X.check(pm.getProfileByHpAddress('hp1') === undefined, 'nobody is found under a foreign network address');
        const other = X.addr('anybody' + nth++); X.assume(X.not(X.or(...addrs.map(a => X.eq(a, other))))); X.check(pm.getProfileByEvmAddress(other) === undefined, 'nobody is found under a foreign address');
        X.check([...new Set(shut)].sort().join() === [...new Set(closed)].sort().join(), 'exactly replaced and removed connections are closed');
      }
    } });
    const n = deep ? 3 : 2; const events = ['authenticated', 'closed', 'removed', 'all disconnected', 'fails', 'broadcast', 'message']; const es = []; const grow2 = (s, m) => { if (s.length) es.push(s); if (s.length < m) for (const k of events) if (!(k === s[s.length - 1] && k !== 'authenticated' && k !== 'closed')) grow2([...s, k], m); }; grow2([], deep ? 3 : 2);
    for (const seq of es) jobs.push({ kind: 'ts', samples: 2, weight: seq.length, name: 'connections: ' + seq.join(', '), run: async X => {
      X.nowMs = T0 * 1000; const N = net(X, { lens: [0], genesisAt: T0 - 10 }); const cs = Array.from({ length: n }, () => N.connect()); const up = cs.map(() => true), who = cs.map(() => undefined); const party = cs.map((_, i) => X.oneOf([1, 2], 'peer' + i));
      let sends = 0; const out = cs.map(c => c.out.length);
      for (const [i, k] of [...seq, 'broadcast'].entries()) {
        const j = ['authenticated', 'closed', 'removed', 'fails', 'message'].includes(k) ? X.choose(n, 'connection' + i) : 0; const c = cs[j];
        if (k === 'authenticated') { const ch = c.out[0].params[0]; const M = await ask(X, party[j], ch); N.deliver(c, { method: 'onInitHandshakeResponse', params: [M, T0, 0] }); await X.pump(2); if (up[j] && who[j] === undefined) { for (const q of cs.keys()) if (q !== j && who[q] === party[j] && up[q]) { up[q] = false; who[q] = undefined; X.reach('moved'); } who[j] = party[j]; } else if (up[j]) { up[j] = false; who[j] = undefined; } }
        else if (k === 'closed') { N.drop(c); up[j] = false; who[j] = undefined; X.reach('gone'); }
        else if (k === 'removed') { N.net.removeConnection(c.t); up[j] = false; who[j] = undefined; }
        else if (k === 'all disconnected') { N.net.disconnectAll(); up.fill(false); who.fill(undefined); X.reach('disconnected'); }
        else if (k === 'fails') { c.broken = true; }
        else if (k === 'message') { const before = N.signed.length; N.deliver(c, { method: 'onInitHandshakeRequest', params: [X.hash('challenge' + i), T0] }); await X.pump(2); X.check((N.signed.length > before) === up[j], 'exactly messages on open connections are heard'); if (!up[j]) X.reach('late message'); cs.forEach((c, q) => { out[q] = c.out.length; }); }
        else { const r = X.try(() => N.net.rpcProxy.onCanJoinLeaderRequest().broadcast()); X.check(r.ok, 'a broadcast does not fail'); sends++; cs.forEach((c, q) => { const got = c.out.length - out[q]; X.check(got === (up[q] && !c.broken ? 1 : 0), 'a broadcast reaches exactly the open connections, whatever happens to the others'); out[q] = c.out.length; if (got) X.reach('sent'); if (c.broken && up.some((u, z) => u && z !== q && !cs[z].broken)) X.reach('one fails'); }); }
        cs.forEach((c, q) => { X.check(N.open(c) === up[q], 'exactly the connections that were not closed are open'); X.check(c.ended === !up[q], 'a connection that is not open is closed'); const p = N.profile(c); X.check((p === undefined) === (who[q] === undefined), 'exactly authenticated open connections belong to a peer'); if (p) X.check(X.and(X.eq(p.getEvmAddress(), X.party(who[q])), N.net.profileManager.getProfileByEvmAddress(X.party(who[q])) === p), 'and that peer is found under its address'); });
      }
      X.check(X.unhandled.length === 0, 'nothing fails in the background');
      async function ask(X, i, ch) { const peer = net(X, { me: i, lens: [0], genesisAt: T0 - 10 }); const pc = peer.connect(); const k = pc.out.length; peer.deliver(pc, { method: 'onInitHandshakeRequest', params: [ch, T0] }); await X.pump(2); return pc.out[k].params[0]; }
    } });
    return jobs;
  },
};
