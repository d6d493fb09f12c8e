'use strict';
// Loads the TypeScript sources under the current directory for a demonstration.
const fs = require('fs'), path = require('path'), Module = require('module'), assert = require('assert');
const ROOT = process.cwd(); const req = Module.createRequire(path.join(ROOT, 'x.js'));
const ts = req('typescript'), ethers = req('ethers');
const locate = b => ['', '.ts', '/index.ts'].map(s => b + s).find(f => { try { return fs.statSync(f).isFile(); } catch { return false; } });
const mods = new Map(), stubs = {};
const dummy = () => new Proxy(function () {}, { get: (t, k) => (k === '__esModule' ? true : typeof k === 'symbol' || k === 'then' ? undefined : class {}) });
function load(id, from = path.join(ROOT, 'src/x.ts')) {
  let f = null; if (id.startsWith('@/')) f = locate(path.join(ROOT, 'src', id.slice(2))); else if (id.startsWith('.')) f = locate(path.join(path.dirname(from), id));
  const rel = f && path.relative(path.join(ROOT, 'src'), f); if (rel && rel in stubs) return stubs[rel]; if (id in stubs) return stubs[id];
  if (!f) { if (id.startsWith('@typechain-types')) return dummy(); try { return req(id); } catch { return dummy(); } }
  if (mods.has(f)) return mods.get(f).exports;
  const m = { exports: {} }; mods.set(f, m);
  const js = ts.transpileModule(fs.readFileSync(f, 'utf8'), { compilerOptions: { target: 'es2020', module: 'commonjs', esModuleInterop: true } }).outputText;
  new Function('exports', 'require', 'module', '__filename', '__dirname', js)(m.exports, x => load(x, f), m, f, path.dirname(f));
  return m.exports;
}
const wallets = [1, 2, 3, 4].map(i => new ethers.Wallet('0x' + String(i).padStart(64, '0')));
const CH = '0x' + 'c1'.padStart(64, '0');
const hash = n => '0x' + n.toString(16).padStart(64, '0');
function block({ fork = 0, height = 0, author = 0, time = 5, state = 7, prev = 6, data = '0x1234', channel = CH } = {}) {
  return { transaction: { header: { channelId: channel, participant: typeof author === 'string' ? author : wallets[author].address, forkCnt: BigInt(fork), transactionCnt: BigInt(height), timestamp: BigInt(time) }, body: { transactionType: 0n, encodedData: '0x', data } }, stateHash: typeof state === 'string' ? state : hash(state), previousStateHash: typeof prev === 'string' ? prev : hash(prev) };
}
const TX = 'tuple(tuple(bytes32 channelId,address participant,uint forkCnt,uint transactionCnt,uint timestamp) header,tuple(uint8 transactionType,bytes encodedData,bytes data) body)';
const BLOCK = `tuple(${TX} transaction,bytes32 stateHash,bytes32 previousStateHash)`;
const coder = ethers.AbiCoder.defaultAbiCoder();
const enc = b => coder.encode([BLOCK], [b]);
const signBytes = (i, e) => wallets[i].signingKey.sign(ethers.hashMessage(ethers.getBytes(ethers.keccak256(e)))).serialized;
const signed = (b, i) => ({ encodedBlock: enc(b), signature: signBytes(i, enc(b)) });
// an agreement manager with linked agreed blocks, author rotating
function manager({ parts = 2, len = 0, time = 3 } = {}) {
  const AM = load('@/agreementManager').default, am = new AM(); const ps = wallets.slice(0, parts).map(w => w.address); const genesis = '0xaabb';
  am.newFork(genesis, ps, 0, time); let prev = ethers.keccak256(genesis); const blocks = [];
  for (let h = 0; h < len; h++) { const st = '0x' + (0x10 + h).toString(16); const b = block({ height: h, author: h % parts, prev, state: ethers.keccak256(st), time: 5 + h }); am.addBlock(b, signBytes(h % parts, enc(b)), st); blocks.push(b); prev = b.stateHash; }
  return { am, parts: ps, blocks, genesis, next: prev };
}
function run(name, fn) { (async () => { try { await fn(); console.log('ok: ' + name); process.exit(0); } catch (e) { console.error('FAILED: ' + name + ': ' + (e && e.message)); process.exit(1); } })(); }
const quiet = () => { console.log = console.error = console.warn = () => {}; };
module.exports = { load, stubs, mods, ethers, wallets, CH, hash, block, enc, coder, signBytes, signed, manager, run, assert, BLOCK, quiet };
