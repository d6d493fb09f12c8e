'use strict';
// A node with its real peer-to-peer side: connections, message dispatch and
// services, over stand-in sockets.
const { node } = require('./node'); const RT = require('./runtime');
const text = (X, v) => X.sym ? new RT.JsonText(v) : JSON.stringify(v); // what arrives on the wire
const untext = s => s instanceof RT.JsonText ? s.value : JSON.parse(s);
function net(X, o = {}) {
  if (!X.netStubs) {
    X.netStubs = true; X.stub('Holepunch.ts', { default: class { async join() {} async dispose() {} }, __esModule: true });
    X.stub('evm/index.ts', { get P2pSigner() { return X.load('@/evm/P2pSigner').default; } });
    X.stub('get-webrtc', o.rtc || { RTCPeerConnection: class { createDataChannel() { return {}; } async createOffer() { return {}; } async createAnswer() { return {}; } async setLocalDescription() {} async setRemoteDescription() {} async addIceCandidate() {} } });
  }
  const N = node(X, { ...o, network: true }); N.net = N.sm.p2pManager; N.conns = []; N.opened = [];
  N.hooks.onConnection = a => { N.opened.push(a); };
  const Transport = X.load('@/transport/HolepunchTransport').default;
  N.connect = () => { const c = { out: [], on: {}, ended: false, banned: false, broken: false }; const socket = { on: (e, cb) => { c.on[e] = cb; return socket; }, write: s => { if (c.broken) throw new Error('socket closed'); c.out.push(untext(s)); }, end: () => { c.ended = true; } }; N.conns.push(c); c.t = new Transport(socket, { ban: () => { c.banned = true; } }, N.net); return c; };
  N.deliver = (c, v, raw) => c.on.data(raw !== undefined ? raw : text(X, v));
  N.drop = c => c.on.close();
  N.open = c => N.net.openConnections.includes(c.t); N.profile = c => N.net.profileManager.getProfileByTransport(c.t);
  return N;
}
module.exports = { net, text, untext };
