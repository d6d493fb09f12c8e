'use strict';
// Scenarios over the TypeScript sources.  The same scenario function runs
// symbolically (instrumented sources, symbolic inputs) and concretely (plain
// sources, real ethers) so that counterexamples and sampled paths are replayed.
const T = require('../engine/terms');
const B = require('../engine/bytes');
const V = require('./values');
const RT = require('./runtime');
const SE = require('./ethers');
const R = require('../sol/replay');
const { World } = require('./load');
const real = SE.real;
const hostImmediate = setImmediate, hostTimeout = setTimeout, hostClear = clearTimeout;
class Violated extends Error { constructor(m) { super(m); this.violated = true; this.engineAbort = true; } }
class Skip extends Error { constructor(m) { super(m); this.skip = true; this.engineAbort = true; } }
let current = null; // context receiving unhandled rejections
process.on('unhandledRejection', e => { if (e && e.engineAbort) return; if (current) current.unhandled.push(e); });

class Ctx {
  constructor(mode, o) {
    Object.assign(this, o); this.mode = mode; this.sym = mode === 'sym'; this.inputs = []; this.obsList = []; this.unhandled = []; this.timers = []; this.nowMs = 1e12; this.labelCount = new Map(); this.choicePos = 0;
    this.eth = this.sym ? SE.ethers : real; current = this;
    const X = this;
    class FakeDate { constructor(x) { this.ms = x === undefined ? X.nowMs : x; } getTime() { return this.ms; } valueOf() { return this.ms; } toISOString() { return 'date'; } static now() { return X.nowMs; } }
    const set = kind => (fn, delay = 0, ...args) => { const t = { kind, fn, delay, args, live: true, at: X.nowMs, unref() { return t; }, ref() { return t; }, hasRef: () => true }; X.timers.push(t); return t; };
    const clear = t => { if (t) t.live = false; };
    this.env = { Date: FakeDate, setTimeout: set('timeout'), setInterval: set('interval'), setImmediate: fn => set('immediate')(fn, 0), clearTimeout: clear, clearInterval: clear, clearImmediate: clear, process: { env: {}, on() {}, exit() {}, argv: [] } };
    this.hashed = []; this.randoms = []; // what the code under test hashed
    const rec = m => new Proxy(m, { get: (t, k) => k === 'keccak256' ? d => { const h = t.keccak256(d); X.hashed.push([d, h]); return h; } : k === 'randomBytes' ? n => X.random(n) : k === 'ethers' ? inner : t[k] }); const inner = rec(this.sym ? SE.ethers : real.ethers);
    this.world = new World(mode, this.sym ? RT.symGlobals(this.env) : RT.concGlobals(this.env), { ethers: rec(this.sym ? SE.mod : real), ...(this.stubs || {}) });
    this.fns = new Set();
  }
  load(id) { return this.world.load(id); }
  provide(name, v) { this.world.global(name, v); }
  randomNumbers() { const M = Object.create(this.world.globals.Math); const of = n => this.sym ? V.bin('/', n, 65536) : n / 65536; M.random = () => of(this.num('random number', 65535n)); this.provide('Math', M); } // Math.random gives any value
  stub(id, m) { this.world.stubs[id] = m; }
  // ---- inputs
  name(label) { const n = this.labelCount.get(label) || 0; this.labelCount.set(label, n + 1); return n ? label + '#' + n : label; }
  input(label, mk) { // mk(): symbolic value
    label = this.name(label);
    if (!this.sym) { if (!(label in this.given)) throw new Skip('no value for ' + label); return this.given[label]; }
    const v = mk(label); this.inputs.push([label, v]); return v;
  }
  num(label, hi = (1n << 40n), lo = 0n) { return this.input(label, l => new V.SymNum(this.E.fresh('in.' + l, 'I', BigInt(lo), BigInt(hi)))); }
  big(label, hi = (1n << 40n), lo = 0n) { return this.input(label, l => new V.SymBig(this.E.fresh('in.' + l, 'I', BigInt(lo), BigInt(hi)))); }
  bool(label) { return this.input(label, l => new V.SymBool(this.E.fresh('in.' + l, 'B'))); }
  hash(label) { return this.input(label, l => new V.SymHex(B.word(this.E.fresh('in.' + l, 'I', 0n, B.MAX256)))); }
  blob(label) { return this.input(label, l => new V.SymHex(B.atom(this.E.fresh('in.' + l, 'I', 0n, B.MAX256)))); }
  addr(label) { return this.input(label, l => new V.SymAddr(this.E.fresh('in.' + l, 'I', 1n, B.NOBODY_LO - 1n))); }
  sig(label) { return this.input(label, l => { const t = this.E.fresh('in.' + l, 'I', 0n, B.MAX256); B.ensureSig(this.E, t); return new V.SymHex(B.sig(t)); }); }
  bytes32(label) { const h = this.hash(label); return h; }
  random(n) { if (n !== 32) throw new Error('random bytes of another length'); const r = this.hash('random'); for (const x of this.randoms) this.assume(this.not(this.eq(x, r))); this.randoms.push(r); return this.raw(r); } // never the same twice
  upper(h) { return this.sym ? new V.SymUpper(h.b) : '0x' + h.slice(2).toUpperCase(); } // h contains a letter
  raw(h) { return this.sym ? new V.SymArr8(h.b) : real.getBytes(h); } // hex -> Uint8Array
  fromSol(label, mk) { return this.input(label, () => new V.SymHex(mk())); } // bytes made by the contract side
  party(i) { return R.wallet(i).address; }
  choose(n, label = '') { if (this.sym) return this.E.choose(n, label); if (n <= 1) return 0; const c = this.choices[this.choicePos++]; if (c === undefined) throw new Skip('end of recorded choices'); if (c[1] !== label || c[2] !== n) throw new Error(`replay diverged at choice ${label} (recorded ${c[1]})`); return c[0]; }
  oneOf(list, label = '') { return list[this.choose(list.length, label)]; }
  wallet(i) { return R.wallet(i); }
  // an ethers-like signer for party i
  signer(i) {
    const X = this; const w = R.wallet(i);
    return { address: w.address, async getAddress() { return w.address; }, provider: null, async signMessage(m) { return X.sym ? X.signDigest(i, X.eth.hashMessage(m)) : w.signMessage(m); } };
  }
  // symbolic signature of party i over the 32-byte message hash
  signDigest(i, digest) {
    const d = SE.bytesOf(digest); const dt = d.k === 'w' ? d.t : T.int('0x' + d.hex);
    const t = T.app('sig.of', [R.PARTY(i), dt], 'I', 0n, B.MAX256); this.E.rangeAxiom(t); B.ensureSig(this.E, t);
    this.E.axiom(T.and(T.eq(B.sigSigner(t), R.PARTY(i)), T.eq(B.sigMsg(t), dt)));
    if (!this.E.memo.has('detsigs')) this.E.memo.set('detsigs', []); this.E.memo.get('detsigs').push(t);
    return new V.SymHex(B.sig(t));
  }
  signBytes(i, data) { // signature over the hash of encoded data, as the protocol uses it
    const m = this.eth.getBytes(this.eth.keccak256(data));
    return this.sym ? this.signDigest(i, this.eth.hashMessage(m)) : R.wallet(i).signingKey.sign(real.hashMessage(m)).serialized;
  }
  signerOf(data, sig) { return this.eth.verifyMessage(this.eth.getBytes(this.eth.keccak256(data)), sig); }
  // two unrelated signatures never recover to the same address by chance
  unforged(a, b) { if (this.sym) this.E.assume(T.or(T.not(V.eqT(a, b)), T.lt(SE.coerce({ name: 'address' }, a), T.int(B.NOBODY_LO)))); }
  // the same signature written in another way
  otherForm(sig, form) { return this.sym ? new V.SymHex(B.xsig(SE.bytesOf(sig).t, form)) : R.otherForm(sig, form); }
  // sig is a genuine signature of addr over data
  signed(sig, data, addr) { return sig === undefined || sig === null ? false : this.eq(this.signerOf(data, sig), addr); }
  // ---- logic over JavaScript values (symbolic or not)
  eq(a, b) { return V.bool(V.eqT(a, b)); }
  numEq(a, b) { return V.bool(T.eq(this.int(a), this.int(b))); } // equal as integers, number or bigint
  int(x) { if (typeof x === 'bigint') return T.int(x); if (typeof x === 'number') return T.int(BigInt(x)); if (x instanceof V.SymNum || x instanceof V.SymBig) return x.t; throw new Error('not an integer ' + String(x)); }
  num0(x) { return V.isSym(x) ? V.num(this.int(x)) : Number(x); } bigOf(x) { return V.isSym(x) ? V.big(this.int(x)) : BigInt(x); } // the same integer as number, as bigint
  lt(a, b) { return V.cmp('<', a, b); } le(a, b) { return V.cmp('<=', a, b); } gt(a, b) { return V.cmp('>', a, b); } ge(a, b) { return V.cmp('>=', a, b); }
  add(a, b) { return V.bin('+', a, b); } sub(a, b) { return V.bin('-', a, b); } mul(a, b) { return V.bin('*', a, b); }
  div(a, b) { return V.bin('/', a, b); } floor(x) { return this.sym ? RT.floor(x) : Math.floor(x); }
  max(a, b) { return this.ite(this.ge(a, b), a, b); }
  ite(c, a, b) { if (!V.isSym(c)) return c ? a : b; if (V.isBigLike(a)) return V.big(T.ite(c.t, V.bigT(a), V.bigT(b))); const x = V.ratio(a), y = V.ratio(b); return V.num(T.ite(c.t, T.mul(x.t, T.int(y.d)), T.mul(y.t, T.int(x.d))), x.d * y.d); }
  and(...c) { return V.bool(T.and(...c.map(V.boolT))); } or(...c) { return V.bool(T.or(...c.map(V.boolT))); } not(c) { return V.bool(T.not(V.boolT(c))); } implies(a, b) { return this.or(this.not(a), b); } iff(a, b) { return V.bool(T.eq(V.boolT(a), V.boolT(b))); }
  count(cs) { return cs.reduce((n, c) => V.bin('+', n, this.ite(c, 1, 0)), 0); }
  // deep equality of plain data
  same(a, b) {
    if (V.isSym(a) || V.isSym(b) || a === null || b === null || typeof a !== 'object' || typeof b !== 'object') { if (a === undefined || b === undefined) return a === b; return this.eq(a, b); }
    if (a instanceof Uint8Array && b instanceof Uint8Array) return real.hexlify(a) === real.hexlify(b);
    if (Array.isArray(a) !== Array.isArray(b)) return false;
    const ka = Object.keys(a), kb = Object.keys(b); if (ka.length !== kb.length || !ka.every(k => k in b)) return false;
    return this.and(...ka.map(k => this.same(a[k], b[k])));
  }
  is(c) { return V.truthy(c); } // decides a condition on this path
  assume(c) { if (this.sym) this.E.assume(V.boolT(c)); else if (!c) throw new Skip('assumption does not hold'); }
  check(c, msg, o) { if (this.sym) { if (V.isSym(c) && !(c instanceof V.SymBool)) throw new Error('not a condition: ' + msg); this.E.check(V.boolT(c), msg, o); } else if (!c) throw new Violated(msg); }
  fail(msg) { this.check(false, msg); }
  reach(l) { if (this.sym) this.E.reach(l); }
  obs(label, v) { this.obsList.push([label, v]); return v; }
  // the ethers type string of a struct as the contracts declare it
  solType(name) {
    const p = this.prog; p.__tsTypes = p.__tsTypes || new Map();
    if (!p.__tsTypes.has(name)) {
      let found = null; for (const [, n] of p.nodes) if (n.nodeType === 'StructDefinition' && n.name === name && n.__src.startsWith('contracts/V1/')) { if (!found || n.__src.startsWith('contracts/V1/D')) found = n; }
      if (!found) throw new Error('no struct ' + name);
      const str = (t, label) => { if (t.k === 'struct') return `tuple(${t.decl.members.map((m, i) => str(t.fields[i], m.name)).join(',')})` + (label ? ' ' + label : ''); if (t.k === 'array') { const e = str(t.el, ''); return e + '[]' + (label ? ' ' + label : ''); } const a = p.abiType(t); return (a.name || 'bytes') + (label ? ' ' + label : ''); };
      p.__tsTypes.set(name, str(p.type(`t_struct$_${name}_$${found.id}_memory_ptr`), ''));
    }
    return p.__tsTypes.get(name);
  }
  preimage(h) { for (const [d, x] of this.hashed) if (this.is(this.eq(x, h))) return d; return undefined; }
  // ---- running code
  abortive(e) { return e && e.engineAbort; }
  try(fn) { try { return { ok: true, value: fn() }; } catch (e) { if (this.abortive(e)) throw e; return { ok: false, error: e }; } }
  async tryAsync(fn) { try { return { ok: true, value: await fn() }; } catch (e) { if (this.abortive(e)) throw e; return { ok: false, error: e }; } }
  async pump(n = 1) { for (let i = 0; i < n; i++) await new Promise(r => hostImmediate(r)); if (this.sym) this.E.guard(); else if (this.pending) throw this.pending; }
  // the scenario, unless it waits for something that never comes
  async go(job) {
    let over = false; const run = (async () => job.run(this))(); run.then(() => { over = true; }, () => { over = true; });
    const watch = (async () => { let last = -1, since = Date.now(), n = 0; while (!over) { await new Promise(r => hostImmediate(r)); const at = this.progress(); if (at !== last) { last = at; since = Date.now(); n = 0; } else if (++n > 3000 && Date.now() - since > 4000) { this.fail('every call comes to an end'); throw new Violated('every call comes to an end'); } } return run; })();
    return Promise.race([run, watch]);
  }
  progress() { return this.timers.length + this.obsList.length + (this.sym ? this.E.path.length + this.E.stats.checks + this.E.stats.decisions : 0); }
  deferred() { const d = {}; d.promise = new Promise((a, b) => { d.resolve = a; d.reject = b; }); return d; }
  liveTimers() { return this.timers.filter(t => t.live); }
  fire(t) { if (!t.live) return; if (t.kind !== 'interval') t.live = false; return t.fn(...t.args); }
  // ---- capturing a model
  capture(ev) {
    const C = new R.Conc(this.E, ev);
    const choices = this.E.path.filter(e => e.choice).map(e => [e.k, e.label, e.n]);
    const given = {}; for (const [l, v] of this.inputs) given[l] = toReal(C, v);
    return { given, choices, obs: this.obsList.map(([l, v]) => [l, toReal(C, v)]) };
  }
}
function toReal(C, v, d = 0) {
  if (d > 30) return '...';
  if (v instanceof V.SymNum) { const x = C.val(v.t); return Number(x) / Number(v.d); }
  if (v instanceof V.SymBig) return C.word(v.t);
  if (v instanceof V.SymBool) return !!C.val(v.t);
  if (v instanceof V.SymAddr) return real.getAddress(C.address(v.t));
  if (v instanceof V.SymHex) return C.bytes(v.b).toLowerCase();
  if (v instanceof V.SymArr8) return real.getBytes(C.bytes(v.b));
  if (v instanceof V.SymText) return v.parts.map(p => String(toReal(C, p, d))).join('');
  if (v instanceof RT.JsonText) return JSON.stringify(toReal(C, v.value, d));
  if (v === null || typeof v !== 'object' || v instanceof Uint8Array) return typeof v === 'function' ? 'function' : v;
  if (v instanceof V.SymMap) return [...v.es.map(e => [toReal(C, e.k, d + 1), toReal(C, e.v, d + 1)])];
  if (v instanceof V.SymSet) return [...v.m.es.map(e => toReal(C, e.k, d + 1))];
  if (v instanceof real.Result) v = [...v];
  if (Array.isArray(v)) return v.map(x => toReal(C, x, d + 1));
  if (v instanceof Error) return 'Error: ' + v.message;
  const o = {}; for (const k of Object.keys(v)) o[k] = toReal(C, v[k], d + 1); return o;
}
function canon(v) {
  return JSON.stringify(v, (k, x) => {
    if (typeof x === 'bigint') return x.toString() + 'n'; if (typeof x === 'function') return 'function'; if (x === undefined) return '\u27e6undefined\u27e7';
    if (typeof x === 'number' && !Number.isFinite(x)) return String(x);
    if (typeof x === 'string' && /^0x[0-9a-fA-F]+$/.test(x) && x.length > 42) return x.toLowerCase();
    if (x instanceof Uint8Array) return real.hexlify(x); if (x instanceof Map) return [...x]; if (x instanceof Set) return [...x]; if (x instanceof Error) return 'Error: ' + x.message;
    return x;
  });
}
// JSON-safe form of a captured record
const enc = v => JSON.stringify(v, (k, x) => typeof x === 'bigint' ? { $big: x.toString() } : x instanceof Uint8Array ? { $u8: real.hexlify(x) } : x === undefined ? { $undef: 1 } : x);
const dec = s => JSON.parse(s, (k, x) => x && typeof x === 'object' ? '$big' in x ? BigInt(x.$big) : '$u8' in x ? real.getBytes(x.$u8) : '$undef' in x ? undefined : x : x);

async function concrete(job, rec, tier, prog) {
  const X = new Ctx('conc', { prog, given: rec.given, choices: rec.choices, job, tier, stubs: undefined });
  V.setEngine(null); let err = null; let timer;
  const limit = new Promise((_, rej) => { timer = hostTimeout(() => rej(new Error('concrete run timed out')), 30000); });
  try { await Promise.race([X.go(job), limit]); } catch (e) { err = e; }
  hostClear(timer); await new Promise(r => hostImmediate(r)); current = null;
  const obs = X.obsList.map(([l, v]) => [l, canon(v)]);
  return { violated: err && err.violated ? err.message : null, skip: err && err.skip ? err.message : null, message: err && err.message, error: err && !err.violated && !err.skip ? err.stack || String(err) : null, obs };
}
async function judge(job, rec, cex, tier, prog) {
  const r = await concrete(job, rec, tier, prog);
  if (cex && rec.throws) return { agree: r.error !== null && r.message === rec.throws, predicted: rec.msg, actual: r.error || 'no exception', given: JSON.parse(enc(rec.given)), choices: rec.choices };
  if (cex) { // a counterexample stands when the same property assertion fails on the real code
    return { agree: r.violated !== null, predicted: rec.msg, actual: r.violated || r.skip || r.error || 'the assertion holds on the concrete run', given: JSON.parse(enc(rec.given)), choices: rec.choices, obs: r.obs };
  }
  const mism = []; rec.obs.forEach(([l, v], i) => { const a = r.obs[i]; const p = canon(v); if (!a || a[0] !== l || a[1] !== p) mism.push({ obs: l, predicted: p, actual: a && a[1] }); });
  const agree = !r.violated && !r.error && !r.skip && mism.length === 0;
  return { agree, ...(agree ? {} : { mismatches: mism, violated: r.violated, skip: r.skip, error: r.error, given: JSON.parse(enc(rec.given)) }) };
}
const { Found } = require('../engine/dse');
// the innermost frame of the exception lies in the code under test
function thrownByCode(e) { const f = String(e && e.stack || '').split('\n').slice(1).find(l => !/node_modules|node:|\/verif\/ts\/(ethers|values|runtime)/.test(l)); return !!f && /verif-(sym|conc)\//.test(f); }
// the scenario itself finds nothing where the code under test owes it a value (what the code returned, recorded or sent is missing)
function valueMissing(e) { const f = String(e && e.stack || '').split('\n').slice(1).find(l => !/node:/.test(l)); return e instanceof TypeError && /^Cannot read properties of (undefined|null)/.test(e.message) && !!f && /\/checks\//.test(f); }
async function prepare(job, m, state, known) {
  const recs = []; let X = null;
  const settle = async () => { await new Promise(r => hostImmediate(r)); current = null; };
  return {
    settle,
    scenario: async E => {
      V.setEngine(E); X = new Ctx('sym', { E, prog: state.prog, job, tier: m.tier, stubs: undefined }); E.X = X; X.known = known;
      if (job.sol) { const S = require('../sol/lib'); X.sol = new S.Ctx(state.prog, E, { tier: m.tier }); }
      E.concretise = ev => { const c = { ts: X.capture(ev) }; if (job.sol) Object.assign(c, R.plan(X.sol.W, ev)); recs.push([c, true]); return c; };
      return X.go(job);
    },
    // an exception the code under test throws where the scenario expects none is a violation
    onError: (E, err) => {
      const missing = valueMissing(err); if (!missing && !thrownByCode(err)) return null;
      if (E.solver.checkSat() !== 'sat') return null;
      let cex; try { cex = E.concretise(t => E.evalTerm(t)); } catch (e) { return null; }
      cex.ts.throws = err.message; return new Found({ msg: (missing ? 'something the scenario needs is missing: ' : 'the code throws unexpectedly: ') + err.message, cex, labels: [...E.pathLabels], extra: null });
    },
    plan: E => { const ev = t => E.evalTerm(t); const c = { ts: X.capture(ev) }; if (job.sol) Object.assign(c, R.plan(X.sol.W, ev)); recs.push([c, false]); return c; },
    finish: async (E, res) => {
      for (const v of res.violations || []) if (v.cex && v.cex.ts) { v.cex.ts.msg = v.msg; }
      const samples = [];
      for (const [c, cex] of recs) { const rec = c.ts; const j = await judge(job, rec, cex, m.tier, state.prog); if (!cex && j.agree && samples.length < 2) c.sample = { job: job.name, inputs: JSON.parse(enc(rec.given)), choices: rec.choices.map(x => x.slice(0, 2)) }; c.ts = { ...j, given: JSON.parse(enc(rec.given)), choices: rec.choices }; }
      return { files: X ? [...X.world.files] : [] };
    },
  };
}
module.exports = { Ctx, prepare, concrete, enc, dec, canon, T, B, V, SE, R };
