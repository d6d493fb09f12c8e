'use strict';
const K = require('../ts/blocks');
const { real } = require('../ts/ethers');
const job = (name, run, o) => ({ kind: 'ts', ast: true, name, run, samples: 4, ...o });
const list = (X, l, mk) => Array.from({ length: X.choose(3, l) }, (_, i) => mk(i));
// values of every exchanged structure, all leaves arbitrary
const MK = {
  Transaction: X => ({ header: { channelId: X.hash('channel'), participant: X.addr('participant'), forkCnt: X.big('fork', U), transactionCnt: X.big('height', U), timestamp: X.big('time', U) }, body: { transactionType: X.big('type', 9n), encodedData: X.blob('encodedData'), data: X.blob('data') } }),
  Block: X => ({ transaction: MK.Transaction(X), stateHash: X.hash('stateHash'), previousStateHash: X.hash('prevHash') }),
  SignedBlock: (X, l = '') => ({ encodedBlock: X.blob('encodedBlock' + l), signature: X.sig('signature' + l) }),
  JoinChannel: X => ({ channelId: X.hash('channel'), participant: X.addr('participant'), amount: X.big('amount', U), deadlineTimestamp: X.big('deadline', U), data: X.blob('data') }),
  SignedJoinChannel: X => ({ encodedJoinChannel: X.blob('encodedJoin'), signature: X.sig('signature') }),
  JoinChannelAgreement: X => ({ signedJoinChannel: MK.SignedJoinChannel(X), submitter: X.addr('submitter'), forkCnt: X.big('fork', U), transactionCnt: X.big('height', U), previousStateHash: X.hash('prevHash') }),
  ConfirmedJoinChannelAgreement: X => ({ encodedJoinChannelAgreement: X.blob('encodedAgreement'), signatures: list(X, 'signatures', i => X.sig('sig' + i)) }),
  FoldRechallengeProof: X => ({ encodedBlock: X.blob('encodedBlock'), signatures: list(X, 'signatures', i => X.sig('sig' + i)) }),
  DoubleSignProof: X => ({ doubleSigns: list(X, 'pairs', i => ({ block1: MK.SignedBlock(X, i + 'a'), block2: MK.SignedBlock(X, i + 'b') })) }),
  IncorrectDataProof: X => ({ block1: MK.SignedBlock(X, '1'), block2: MK.SignedBlock(X, '2'), encodedState: X.blob('state') }),
  NewerStateProof: X => ({ encodedBlock: X.blob('encodedBlock'), confirmationSignature: X.sig('conf') }),
  FoldPriorBlockProof: X => ({ transactionCnt: X.big('height', U) }),
  BlockTooFarInFutureProof: X => ({ block1: MK.SignedBlock(X) }),
};
const U = (1n << 256n) - 1n;
function same(X, a, b) { return X.same(unres(a), unres(b)); }
function unres(v) { if (v instanceof real.Result) { if (!v.length) return []; let o; try { o = v.toObject(); } catch { o = null; } if (!o || Object.keys(o).length !== v.length) return [...v].map(unres); const r = {}; for (const k of Object.keys(o)) r[k] = unres(o[k]); return r; } if (Array.isArray(v)) return v.map(unres); if (v && typeof v === 'object' && Object.getPrototypeOf(v) === Object.prototype) { const r = {}; for (const k of Object.keys(v)) r[k] = unres(v[k]); return r; } return v; }
module.exports = {
  id: 'T20', level: 'model_checking', replayable: false,
  bounds: { structures: Object.keys(MK), values: 'every field arbitrary over its whole Solidity range; lists of 0..2 elements; byte strings opaque' },
  outside: ['longer lists', 'empty byte strings except as covered by the byte string model'],
  assumptions: ['the reference layout is taken from the struct definitions in the contracts as compiled by solc on every run'],
  jobs: () => {
    const jobs = [];
    const both = (name, encode, decode) => jobs.push(job(name, async X => {
      const o = MK[name](X); const ref = K.coder(X).encode([X.solType(name)], [o]);
      const e = encode(X)(o); X.obs('encoded', e); X.check(X.eq(e, ref), `a ${name} is encoded as the contracts decode it`);
      const d = decode(X)(ref); X.check(same(X, d, o), `decoding an encoded ${name} gives it back`);
    }));
    const fn = name => X => v => X.load('@/utils').EvmUtils[name](v); const U_ = (e, d) => [fn(e), fn(d)];
    both('Transaction', ...U_('encodeTransaction', 'decodeTransaction')); both('Block', ...U_('encodeBlock', 'decodeBlock')); both('JoinChannel', ...U_('encodeJoinChannel', 'decodeJoinChannel'));
    for (const n of ['SignedBlock', 'SignedJoinChannel', 'JoinChannelAgreement', 'ConfirmedJoinChannelAgreement']) both(n, X => o => K.coder(X).encode([X.load('@/types')[n + 'EthersType'] || X.load('@/types/ethers')[n + 'EthersType']], [o]), X => b => K.coder(X).decode([X.load('@/types/ethers')[n + 'EthersType']], b)[0]);
    for (const n of Object.keys(MK).filter(n => n.endsWith('Proof'))) both(n, X => o => X.load('@/ProofManager').default.encodeProof(X.load('@/types/disputes').ProofType[n.slice(0, -5)], o), X => b => X.load('@/ProofManager').default.decodeProof(X.load('@/types/disputes').ProofType[n.slice(0, -5)], b));
    jobs.push(job('proof kinds', async X => {
      const { ProofType } = X.load('@/types/disputes'); let members = null; for (const [, n] of X.prog.nodes) if (n.nodeType === 'EnumDefinition' && n.name === 'ProofType') members = n.members.map(m => m.name);
      for (const k of Object.keys(ProofType).filter(k => isNaN(k))) X.check(members[ProofType[k]] === k, 'proof kind ' + k + ' has the number the contract uses'); X.obs('kinds', Object.keys(ProofType).length);
    }));
    // signatures over encoded structures
    jobs.push(job('signatures', async X => {
      const { EvmUtils } = X.load('@/utils'); const kind = X.choose(3, 'kind'); const name = ['Block', 'JoinChannel', 'Transaction'][kind]; const o = MK[name](X); const ref = K.coder(X).encode([X.solType(name)], [o]);
      const r = await EvmUtils['sign' + name](o, X.signer(0)); const e = r.encodedBlock || r.encodedJoinChannel || r.encodedTransaction; X.obs('signature', r.signature);
      X.check(X.eq(e, ref), 'what is signed is the contract encoding'); X.check(X.signed(r.signature, ref, X.party(0)), 'the signature is over the hash of the encoding, as the contract checks it');
      const s = X.sig('any'); if (kind < 2) { const who = EvmUtils['retrieveSignerAddress' + name](o, s); X.check(X.eq(who, X.signerOf(ref, s)), 'the signer recovered off chain is the one the contract recovers'); }
    }));
    return jobs;
  },
};
