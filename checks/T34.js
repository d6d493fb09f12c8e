'use strict';
// A relay, or the local network stack, with everything it is asked for
function network(X, mode) {
  const W = { swarms: [], sockets: [], tried: [], broken: () => false };
  W.Swarm = class { constructor(o) { this.joined = []; this.cbs = []; this.relay = o && o.dht && o.dht.stream && o.dht.stream.ws; W.swarms.push(this); }
    join(t, o) { if (!o || (o.server !== false && o.client !== false)) this.joined.push(t); return { flushed: async () => {} }; } async leave(t) { this.joined = this.joined.filter(x => !X.is(X.eq(x, t))); }
    on(e, cb) { if (e === 'connection') this.cbs.push(cb); return this; } off(e, cb) { if (String(e) === 'connection') this.cbs = this.cbs.filter(x => x !== cb); return this; } removeAllListeners(e) { if (e === undefined || String(e) === 'connection') this.cbs = []; return this; } async destroy() { this.joined = []; } };
  W.Swarm.prototype.addListener = W.Swarm.prototype.on; W.Swarm.prototype.removeListener = W.Swarm.prototype.off;
  const as = d => ({ __esModule: true, default: d }); X.stub('hyperswarm', as(W.Swarm)); X.stub('@hyperswarm/dht-relay', as(class { constructor(s) { this.stream = s; } })); X.stub('@hyperswarm/dht-relay/ws', as(class { constructor(first, ws) { this.ws = ws; } }));
  X.provide('WebSocket', class { constructor(url) { this.url = url; W.tried.push(url); W.sockets.push(this); this.failed = false; this.owner = W.owner; if (W.broken()) { this.failed = true; throw new Error('cannot connect'); } } addEventListener(k, cb) { const p = this['on' + k]; this['on' + k] = e => { if (p) p(e); cb(e); }; } close() { this.closed = true; } });
  if (mode.startsWith('browser')) X.provide('window', mode === 'browser, own stack' ? { Hyperswarm: W.own = new W.Swarm() } : {}); else if (mode === 'shared stack') X.world.globals.global.Hyperswarm = W.own = new W.Swarm();
  return W;
}
const MODES = ['new stack', 'shared stack', 'browser', 'browser, own stack']; const KINDS = ['join', 'peer', 'relay fails', 'disposed', 'renewed'];
module.exports = {
  id: 'T34', level: 'model_checking',
  bounds: { network: 'a stack of its own, one that is shared with later nodes, or one of 2 (relay alone: 3) relays picked at random', events: 'up to 5 (thorough: 6): a topic is joined, a peer connects, a relay fails (error, close or both) or cannot even be connected to, the node is disposed, a new one is created', topics: 'arbitrary, also equal' },
  outside: ['two nodes at once in one process', 'relays that fail where the application brings its own stack', 'what the network does with topics', 'closing the connections of relays that failed'],
  mustReach: ['joined again', 'peer connected', 'relay replaced', 'no relay left', 'disposed', 'peer of a disposed node', 'old relay fails'],
  jobs: tier => {
    const jobs = []; const most = tier === 'thorough' ? 6 : 5;
    for (const mode of MODES) for (const a of KINDS.slice(0, 4)) for (const b of KINDS) { if ((a === 'relay fails' || b === 'relay fails') && mode !== 'browser') continue; if (b === 'renewed' && a !== 'disposed') continue;
      jobs.push({ kind: 'ts', samples: 3, weight: mode === 'browser' ? 6 : 1, name: `${mode}: ${a}, ${b}, anything`, run: async X => {
        const W = network(X, mode); let quiet = true; W.broken = () => !quiet && mode === 'browser' && X.is(X.bool('relay cannot be connected to')); X.randomNumbers(); const Holepunch = X.load('@/Holepunch').default; const verdicts = []; const ought = (c, m) => verdicts.push([c, m]);
        let node; const nodes = []; const start = async () => { const p = { got: [], preferredTransport: 0, addConnection(t) { this.got.push(t); }, removeConnection(t) { t.close(); }, localRpcService: {} }; const k = nodes.length; W.owner = k; const r = X.try(() => new Holepunch(p)); ought(r.ok, 'a node starts whatever its network does'); node = { p, h: r.value, topics: [], gone: false, k }; nodes.push(node); await X.pump(1); };
        const relays = n => W.sockets.filter(w => w.owner === n.k); const current = n => mode.startsWith('browser') && mode !== 'browser, own stack' ? W.swarms.filter(s => s.relay && relays(n).includes(s.relay) && !s.relay.failed).pop() : W.own || W.swarms[nodes.indexOf(n)];
        quiet = false; await start(); quiet = true;
        for (let i = 0; i < most; i++) {
          const kind = i === 0 ? a : i === 1 ? b : KINDS[X.choose(KINDS.length, 'kind' + i)];
          if (kind === 'join') { if (node.gone) return; const t = X.blob('topic' + i); node.topics.push(t); ought((await X.tryAsync(() => node.h.join(t))).ok, 'joining a topic does not fail'); }
          else if (kind === 'disposed') { if (node.gone) return; node.gone = true; ought((await X.tryAsync(() => node.h.dispose())).ok, 'disposing does not fail'); X.reach('disposed'); }
          else if (kind === 'renewed') { if (!node.gone) return; await start(); }
          else if (kind === 'peer') { const s = current(node); if (!s) continue; const was = nodes.map(n => n.p.got.length); const socket = { on() { return socket; }, once() { return socket; }, write() {}, end() { socket.ended = true; }, destroy() { socket.ended = true; } }; const r = X.try(() => { for (const cb of [...s.cbs]) cb(socket, { ban() {} }); }); ought(r.ok, 'a peer that connects does no harm'); await X.pump(1); nodes.forEach((n, k) => ought(n.p.got.length - was[k] === (n === node && !n.gone ? 1 : 0), n === node && !n.gone ? 'a peer that connects is a connection of the node' : 'a disposed node gets no connections')); X.reach(node.gone ? 'peer of a disposed node' : 'peer connected'); }
          else { const live = W.sockets.filter(w => !w.failed); if (!live.length) return; const w = live[X.choose(live.length, 'relay' + i)]; if (!relays(node).includes(w)) X.reach('old relay fails'); w.failed = true; W.owner = w.owner; const n = W.tried.length; quiet = false; const how = X.choose(3, 'how' + i); const r = X.try(() => { if (how !== 1 && w.onerror) w.onerror(new Error('relay')); if (how !== 0 && w.onclose) w.onclose({}); }); quiet = true; ought(r.ok, 'a failing relay does no harm'); await X.pump(1); if (W.tried.length > n) X.reach('relay replaced'); if (relays(node).includes(w) && !current(node)) X.reach('no relay left'); if (current(node) && node.topics.length && relays(node).includes(w)) X.reach('joined again'); }
          const s = current(node); if (s && !node.gone) for (const t of node.topics) ought(X.or(...s.joined.map(x => X.eq(x, t))), 'every topic is joined on the network in use'); if (s && node.gone) ought(s.joined.length === 0, 'a disposed node is found nowhere');
          for (const n of nodes) { const mine = relays(n); ought(new Set(mine.map(w => w.url)).size === mine.length, 'a relay that failed is not used again'); ought(mine.filter(w => !w.failed).length <= 1, 'one relay is in use at a time'); if (mode === 'browser' && !n.gone) ought(mine.some(w => !w.failed) || mine.length === 2, 'as long as there is another relay, it is used'); }
        }
        X.obs('tried', W.tried.length); X.obs('joined', W.swarms.map(s => s.joined.length)); for (const [c, m] of verdicts) X.check(c, m); X.check(X.unhandled.length === 0, 'nothing fails in the background');
      } }); }
    for (let count = 1; count <= 3; count++) jobs.push({ kind: 'ts', samples: 3, name: `relays: ${count}`, run: async X => {
      const W = network(X, 'relays'); W.broken = () => X.is(X.bool('relay cannot be connected to')); X.randomNumbers(); const Relay = X.load('@/HolepunchRelay').default; const urls = ['wss://a', 'wss://b', 'wss://c'].slice(0, count); let told = []; const verdicts = []; const ought = (c, m) => verdicts.push([c, m]);
      ought(X.try(() => Relay.init([...urls], () => told.push(Relay.getInstance().getSwarm()))).ok, 'connecting does not fail');
      for (let i = 0; i <= count; i++) {
        const live = W.sockets.filter(w => !w.failed); ought(live.length === (W.sockets.length === count && W.sockets.every(w => w.failed) ? 0 : 1), 'exactly one relay is in use while there is one that did not fail'); ought(new Set(W.tried).size === W.tried.length && W.tried.every(u => urls.includes(u)), 'a relay that failed is not used again'); if (live.length) { const s = Relay.getInstance().getSwarm(); ought(s && s.relay === live[0] && told.length > 0 && told[told.length - 1] === s, 'whoever uses the network is told about the relay in use'); } if (told.length) ought(told.length === W.sockets.filter(w => W.swarms.some(s => s.relay === w)).length, 'once');
        if (!live.length) break; const w = live[0]; w.failed = true; const how = X.choose(3, 'how' + i); X.try(() => { if (how !== 1) w.onerror(new Error('relay')); if (how !== 0) w.onclose({}); });
        if (X.choose(2, 'again' + i)) { const n = W.tried.length; X.try(() => w.onclose({})); ought(W.tried.length === n, 'a relay fails once'); }
      }
      X.obs('tried', W.tried); for (const [c, m] of verdicts) X.check(c, m);
    } });
    return jobs;
  },
};
