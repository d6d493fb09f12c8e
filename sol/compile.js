'use strict';
// Parse and type-check the current Solidity sources with solc and return the ASTs.
const fs = require('fs'), path = require('path'), crypto = require('crypto'), os = require('os');
const REPO = process.env.VERIF_REPO || '/repo';
const HARNESS = path.join(__dirname, '..', 'harness');
let solc = null;
function loadSolc() {
  if (solc) return solc;
  const base = '/repo/node_modules/hardhat/node_modules/solc';
  const wrapper = require(base + '/wrapper');
  const before = { u: process.listeners('uncaughtException').slice(), r: process.listeners('unhandledRejection').slice() };
  solc = wrapper(require(base + '/soljson.js'));
  for (const [ev, l] of [['uncaughtException', before.u], ['unhandledRejection', before.r]])
    for (const f of process.listeners(ev)) if (!l.includes(f)) process.removeListener(ev, f);
  return solc;
}
function resolve(p) {
  if (p.startsWith('@openzeppelin/')) return path.join('/repo/node_modules', p);
  if (p.startsWith('@peer3/state-channels-plus/')) return path.join(REPO, p.slice('@peer3/state-channels-plus/'.length));
  if (p.startsWith('verif/')) return path.join(HARNESS, p.slice(6));
  if (p.startsWith('hardhat/')) return path.join('/repo/node_modules', p);
  return path.join(REPO, p);
}
function compile(entries, output, extraSettings = {}) {
  const sources = {};
  for (const e of entries) sources[e] = { content: fs.readFileSync(resolve(e), 'utf8') };
  const read = new Map();
  const input = { language: 'Solidity', sources, settings: { outputSelection: output, ...extraSettings } };
  const out = JSON.parse(loadSolc().compile(JSON.stringify(input), {
    import: p => { try { const c = fs.readFileSync(resolve(p), 'utf8'); read.set(p, c); return { contents: c }; } catch (e) { return { error: 'not found ' + p }; } },
  }));
  const errs = (out.errors || []).filter(e => e.severity === 'error');
  if (errs.length) throw new Error('solc: ' + errs.map(e => e.formattedMessage).join('\n'));
  return out;
}
const ENTRIES = [
  'contracts/V1/examples/MathStateMachine/MathStateChannelManagerProxy.sol',
  'contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol',
  'contracts/common/DoubleLinkedList.sol',
  'verif/Harness.sol',
];
function asts(cacheFile) {
  if (cacheFile && fs.existsSync(cacheFile)) return JSON.parse(fs.readFileSync(cacheFile, 'utf8'));
  const out = compile(ENTRIES, { '*': { '': ['ast'] } });
  const r = {};
  for (const f of Object.keys(out.sources)) r[f] = out.sources[f].ast;
  if (cacheFile) fs.writeFileSync(cacheFile, JSON.stringify(r));
  return r;
}
// creation bytecode of the named contracts: [{src, name}]
function bytecode(list) {
  const sel = {};
  for (const { src, name } of list) (sel[src] = sel[src] || {})[name] = ['evm.bytecode.object', 'evm.bytecode.linkReferences'];
  const out = compile(ENTRIES, sel, { viaIR: true, optimizer: { enabled: false }, evmVersion: 'paris' });
  const r = {};
  for (const { src, name } of list) { const b = out.contracts[src][name].evm.bytecode; r[src + ':' + name] = { object: b.object, links: b.linkReferences }; }
  return r;
}
module.exports = { asts, bytecode, compile, ENTRIES, REPO };
