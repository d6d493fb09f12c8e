'use strict';
// Blocks, signatures and agreement records for TypeScript scenarios.
const HI = (1n << 40n);
const headerKeys = ['channelId', 'participant', 'forkCnt', 'transactionCnt', 'timestamp'];
// a block with arbitrary fields; o fixes some of them
function block(X, label, o = {}) {
  const g = (k, mk) => (k in o ? o[k] : mk());
  return {
    transaction: {
      header: { channelId: g('channelId', () => X.hash(label + '.channel')), participant: g('participant', () => X.addr(label + '.author')), forkCnt: g('forkCnt', () => X.big(label + '.fork', o.maxFork === undefined ? HI : o.maxFork)), transactionCnt: g('transactionCnt', () => X.big(label + '.height', o.maxHeight === undefined ? HI : o.maxHeight)), timestamp: g('timestamp', () => X.big(label + '.time')) },
      body: { transactionType: g('transactionType', () => 0n), encodedData: g('encodedData', () => X.blob(label + '.encodedData')), data: g('data', () => X.blob(label + '.data')) },
    },
    stateHash: g('stateHash', () => X.hash(label + '.stateHash')), previousStateHash: g('previousStateHash', () => X.hash(label + '.prev')),
  };
}
// a small block: everything the property does not look at is fixed
const plain = (X, label, o = {}) => block(X, label, { channelId: CH, encodedData: '0x', data: '0x1234', timestamp: 5n, ...o });
const ZERO = '0x' + '00'.repeat(20);
const CH = '0x' + '00'.repeat(31) + 'c1';
const types = X => X.load('@/types');
const TX = 'tuple(tuple(bytes32 channelId,address participant,uint forkCnt,uint transactionCnt,uint timestamp) header,tuple(uint8 transactionType,bytes encodedData,bytes data) body)';
const BLOCK = `tuple(${TX} transaction,bytes32 stateHash,bytes32 previousStateHash)`;
const coder = X => X.eth.AbiCoder.defaultAbiCoder();
const encTx = (X, t) => coder(X).encode([TX], [t]);
const enc = (X, b) => coder(X).encode([BLOCK], [b]); // the reference encoding
const hdr = b => b.transaction.header;
function signedBy(X, b, i) { const e = enc(X, b); return { encodedBlock: e, signature: X.signBytes(i, e) }; }
function signedAny(X, b, label) { return { encodedBlock: enc(X, b), signature: X.sig(label) }; }
const genuine = (X, b, sig) => X.signed(sig, enc(X, b), hdr(b).participant);
const sameBlock = (X, a, b) => X.eq(enc(X, a), enc(X, b));
const sameSlot = (X, a, b) => X.and(X.eq(hdr(a).forkCnt, hdr(b).forkCnt), X.eq(hdr(a).transactionCnt, hdr(b).transactionCnt));
// the reference record of what a node agreed to
class Model { constructor(X) { this.X = X; this.forks = []; this.queue = []; this.confs = []; } }
// a manager with nf forks and lens[f] agreed, linked blocks, built through its public operations
function manager(X, o = {}) {
  const AM = X.load('@/agreementManager').default; const am = o.am || new AM(); const m = new Model(X);
  const nf = o.forks || 1; const n = o.parts || 2; const parts = Array.from({ length: n }, (_, i) => X.party(i));
  for (let f = 0; f < nf; f++) {
    const genesis = o.genesis ? o.genesis(f) : X.blob('genesis' + f), time = o.genesisAt !== undefined ? o.genesisAt : o.genesisTime ? X.num('genesisTime' + f) : 3; const fk = { genesis, parts, time, blocks: [] };
    am.newFork(genesis, parts, f, time); m.forks.push(fk);
    const len = o.lens ? o.lens[f] : 0;
    let prev = X.eth.keccak256(genesis);
    for (let h = 0; h < len; h++) {
      const a = o.author ? o.author(f, h) : h % n; const stateBlob = o.state ? o.state(f, h) : X.blob(`state${f}.${h}`);
      const b = (o.block || plain)(X, `agreed${f}.${h}`, { forkCnt: BigInt(f), transactionCnt: BigInt(h), participant: X.party(a), previousStateHash: prev, ...(o.realHash ? { stateHash: X.eth.keccak256(stateBlob) } : {}) });
      const s = signedBy(X, b, a); am.addBlock(b, s.signature, stateBlob); fk.blocks.push({ b, sigs: [s.signature], state: stateBlob, a }); prev = b.stateHash;
    }
  }
  return { am, m, parts, forks: m.forks };
}
// everything stored is what the model says
function agrees(X, am, m, what) {
  const fs = am.forkService;
  X.check(fs.getNextForkIndex() === m.forks.length, what + ': number of forks');
  m.forks.forEach((f, i) => {
    X.check(X.eq(am.getForkGenesisStateEncoded(i), f.genesis), what + ': genesis of a fork'); X.check(X.same([...fs.getFork(i).addressesInThreshold], f.parts), what + ': participants of a fork'); X.check(X.eq(fs.getFork(i).genesisTimestamp, f.time), what + ': start time of a fork');
    f.blocks.forEach((e, h) => {
      const b = am.getBlock(i, h); X.check(b !== undefined, what + ': an agreed block is kept'); X.check(X.same(b, e.b), what + ': an agreed block is returned unchanged'); X.check(X.eq(am.getEncodedState(i, h), e.state), what + ': the state of an agreed block');
      X.check(X.same([...am.getSigantures(e.b)], e.sigs), what + ': the signatures of an agreed block');
    });
    for (let k = f.blocks.length; k < f.blocks.length + 2; k++) { X.check(am.getBlock(i, k) === undefined, what + ': nothing beyond the agreed chain'); X.check(am.getEncodedState(i, k) === undefined, what + ': no state beyond the agreed chain'); }
  });
  X.check(am.getBlock(m.forks.length, 0) === undefined, what + ': nothing in an unknown fork');
  X.check(am.getLatestForkCnt() === Math.max(0, m.forks.length - 1), what + ': latest fork number');
  X.check(am.getNextBlockHeight() === (m.forks.length ? m.forks[m.forks.length - 1].blocks.length : 0), what + ': next height');
}
module.exports = { encTx, block, plain, enc, hdr, signedBy, signedAny, genuine, sameBlock, sameSlot, manager, agrees, Model, CH, ZERO, HI, BLOCK, TX, coder, types };
