'use strict';
// Runs the contracts of the current directory's repository on a real EVM.
const fs = require('fs'), path = require('path');
const REPO = process.cwd(); const req = m => require(require.resolve(m, { paths: [REPO] }));
const { ethers } = req('ethers'); const { Address, hexToBytes, bytesToHex } = req('@ethereumjs/util'); const EV = req('@ethereumjs/evm');
function compile() {
  const base = path.join(REPO, 'node_modules/hardhat/node_modules/solc'); const solc = require(base + '/wrapper')(require(base + '/soljson.js'));
  for (const e of ['uncaughtException', 'unhandledRejection']) process.removeAllListeners(e);
  const res = p => p.startsWith('@openzeppelin/') || p.startsWith('hardhat/') ? path.join(REPO, 'node_modules', p) : p === 'demo/Demo.sol' ? path.join(__dirname, 'Demo.sol') : path.join(REPO, p);
  const src = p => fs.readFileSync(res(p), 'utf8'); const entries = ['demo/Demo.sol', 'contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol', 'contracts/common/DoubleLinkedList.sol'];
  const out = JSON.parse(solc.compile(JSON.stringify({ language: 'Solidity', sources: Object.fromEntries(entries.map(e => [e, { content: src(e) }])), settings: { viaIR: true, evmVersion: 'paris', outputSelection: { '*': { '*': ['abi', 'evm.bytecode'] } } } }), { import: p => { try { return { contents: src(p) }; } catch (e) { return { error: 'no ' + p }; } } }));
  const errs = (out.errors || []).filter(e => e.severity === 'error'); if (errs.length) throw new Error(errs[0].formattedMessage);
  const all = {}; for (const f in out.contracts) for (const n in out.contracts[f]) all[n] = out.contracts[f][n]; return all;
}
const wallets = Array.from({ length: 8 }, (_, i) => new ethers.Wallet(ethers.id('party ' + i)));
const T = {
  Block: 'tuple(tuple(tuple(bytes32 channelId,address participant,uint256 forkCnt,uint256 transactionCnt,uint256 timestamp) header,tuple(uint8 transactionType,bytes encodedData,bytes data) body) transaction,bytes32 stateHash,bytes32 previousStateHash)',
  SignedBlock: 'tuple(bytes encodedBlock,bytes signature)', State: 'tuple(uint256 number,address[] participants,uint256[] balances)',
  JoinChannel: 'tuple(bytes32 channelId,address participant,uint256 amount,uint256 deadlineTimestamp,bytes data)', SignedJoinChannel: 'tuple(bytes encodedJoinChannel,bytes signature)',
};
T.JoinChannelAgreement = `tuple(${T.SignedJoinChannel} signedJoinChannel,address submitter,uint256 forkCnt,uint256 transactionCnt,bytes32 previousStateHash)`;
T.LeaveChannel = 'tuple(bytes32 channelId,address participant,uint256 forkCnt,uint256 transactionCnt,bytes32 previousStateHash,uint256 deadlineTimestamp,bytes data)';
T.DoubleSignProof = `tuple(tuple(${T.SignedBlock} block1,${T.SignedBlock} block2)[] doubleSigns)`; T.IncorrectDataProof = `tuple(${T.SignedBlock} block1,${T.SignedBlock} block2,bytes encodedState)`;
T.FoldRechallengeProof = 'tuple(bytes encodedBlock,bytes[] signatures)'; T.NewerStateProof = 'tuple(bytes encodedBlock,bytes confirmationSignature)'; T.FoldPriorBlockProof = 'tuple(uint256 transactionCnt)'; T.BlockTooFarInFutureProof = `tuple(${T.SignedBlock} block1)`; T.JoinChannelProof = 'tuple(bytes encodedSignedJoinChannel,bytes[] signatures)';
const KIND = { FoldRechallenge: 0, DoubleSign: 1, IncorrectData: 2, NewerState: 3, FoldPriorBlock: 4, BlockTooFarInFuture: 5, JoinChannel: 6 };
const enc = (t, v) => ethers.AbiCoder.defaultAbiCoder().encode([T[t] || t], [v]);
const hash = ethers.keccak256; const Z = ethers.ZeroAddress;
const sign = (i, data) => wallets[i].signMessageSync(ethers.getBytes(hash(data)));
const P = wallets.map(w => w.address); const CH = ethers.zeroPadValue('0xc1', 32);
const state = (number, parts, balances) => enc('State', { number, participants: parts.map(i => P[i]), balances: balances || parts.map(i => 10 + i) });
const block = o => enc('Block', { transaction: { header: { channelId: o.channelId || CH, participant: P[o.by], forkCnt: o.fork || 0, transactionCnt: o.height || 0, timestamp: o.time || 0 }, body: { transactionType: 0, encodedData: '0x', data: o.data || '0x' } }, stateHash: o.stateHash || ethers.ZeroHash, previousStateHash: o.prev || ethers.ZeroHash });
const sb = (i, b) => ({ encodedBlock: b, signature: sign(i, b) });
const proof = (k, v) => ({ proofType: KIND[k], encodedProof: enc(k + 'Proof', v) });
const equivocation = (i, fork = 0, h = 7777) => { const a = block({ by: i, fork, height: h, stateHash: ethers.id('a') }), b = block({ by: i, fork, height: h, stateHash: ethers.id('b') }); return proof('DoubleSign', { doubleSigns: [{ block1: sb(i, a), block2: sb(i, b) }] }); };
const votes = (...l) => l.map(([b, ...s]) => ({ encodedBlock: b, signatures: s.map(i => sign(i, b)) }));
async function boot(names = {}) {
  const all = compile(); const evm = EV.createEVM ? await EV.createEVM({ allowUnlimitedContractSize: true, allowUnlimitedInitCodeSize: true }) : await EV.EVM.create({ allowUnlimitedContractSize: true, allowUnlimitedInitCodeSize: true });
  const mk = h => new Address(hexToBytes(h.toLowerCase())); const GL = 0xffffffffffffn; const libs = {}; const env = { now: 1000 };
  const blk = () => ({ header: { number: 1n, coinbase: mk(Z), timestamp: BigInt(env.now), difficulty: 0n, prevRandao: new Uint8Array(32), gasLimit: GL, baseFeePerGas: 0n, getBlobGasPrice: () => 1n } });
  const deploy = async (n, args = []) => {
    const c = all[n]; let o = c.evm.bytecode.object; for (const f in c.evm.bytecode.linkReferences) for (const l in c.evm.bytecode.linkReferences[f]) for (const { start, length } of c.evm.bytecode.linkReferences[f][l]) { if (!libs[l]) libs[l] = (await deploy(l)).address; o = o.slice(0, 2 * start) + libs[l].slice(2).toLowerCase() + o.slice(2 * (start + length)); }
    const i = new ethers.Interface(c.abi); const r = await evm.runCall({ caller: mk(P[7]), origin: mk(P[7]), data: hexToBytes('0x' + o + i.encodeDeploy(args).slice(2)), gasLimit: GL, block: blk() });
    if (r.execResult.exceptionError) throw new Error('deploy ' + n); return { address: r.createdAddress.toString(), i };
  };
  const call = async (inst, from, name, args = []) => {
    const r = await evm.runCall({ caller: mk(typeof from === 'number' ? P[from] : from), origin: mk(typeof from === 'number' ? P[from] : from), to: mk(inst.address), data: hexToBytes(inst.i.encodeFunctionData(name, args)), gasLimit: GL, block: blk() });
    const ok = !r.execResult.exceptionError; return { ok, ret: ok ? inst.i.decodeFunctionResult(name, bytesToHex(r.execResult.returnValue)) : null };
  };
  const sm = await deploy(names.sm || 'DemoStateMachine'), facet = await deploy('DisputeManagerFacet'), m = await deploy('DemoManager', [sm.address, facet.address]);
  Object.assign(env, { deploy, sm, m, on: call, call: (from, name, ...args) => call(m, from, name, args), open: async (g, ch = CH) => { env.genesis = g; const r = await call(m, 5, 'openChannel', [ch, [g], []]); if (!r.ok) throw new Error('open'); }, times: (...t) => call(m, 5, 'setTimes', t), dispute: async () => (await call(m, 5, 'getDispute', [CH])).ret[0], latest: async () => (await call(m, 5, 'getLatestState', [CH])).ret[0] });
  return env;
}
const play = n => new ethers.Interface(['function play(uint256)']).encodeFunctionData('play', [n]);
function expect(c, msg) { if (!c) { console.error('FAILED: ' + msg); process.exit(1); } console.log('ok: ' + msg); }
module.exports = { boot, P, CH, Z, sign, enc, hash, state, block, sb, proof, equivocation, votes, play, expect, ethers };
