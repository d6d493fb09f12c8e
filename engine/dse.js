'use strict';
// Dynamic symbolic execution by replay: a scenario is a (possibly async)
// function run once per path; every branch on a symbolic condition asks the
// solver which sides are feasible and the whole decision tree is explored.
const T = require('./terms');
const { Solver } = require('./smt');

class Abort extends Error { constructor(why) { super('engine abort: ' + why); this.engineAbort = true; this.why = why; } }
class Unsupported extends Error { constructor(m) { super('unsupported: ' + m); this.engineAbort = true; this.unsupported = true; } }
class Found extends Error { constructor(v) { super('violation'); this.engineAbort = true; this.violation = v; } }

class Engine {
  constructor(opts = {}) {
    this.opts = opts;
    this.solver = new Solver(opts.solver || 'z3', { timeoutMs: opts.timeoutMs || 30000 });
    this.stats = { paths: 0, infeasible: 0, decisions: 0, branches: 0, checks: 0, checksUnsat: 0, trivialChecks: 0, forced: 0, maxDepth: 0 };
    this.functions = new Map(); // encoded function -> number of symbolic calls
    this.reached = new Map();   // reachability labels -> paths that reached them
    this.known = [];
    this.notes = new Set();
    this.script = opts.recordQueries ? [] : null;
  }
  enter(fn) { this.functions.set(fn, (this.functions.get(fn) || 0) + 1); }
  get live() { return this.pos >= this.prefix.length; }
  resetRun() {
    this.pos = 0; this.counters = new Map(); this.lits = new Set(); this.memo = new Map();
    this.dead = null; this.path = []; this.inputs = []; this.stepCount = 0; this.pathLabels = new Set();
    this.recHooks = [];
  }
  guard() { if (this.dead) throw this.dead; }
  kill(e) { if (!this.dead) this.dead = e; throw this.dead; }
  abort(why) { this.kill(new Abort(why)); }
  unsupported(m) { this.kill(new Unsupported(m)); }
  // ---- symbols
  fresh(label, sort = 'I', lo = null, hi = null) {
    const n = (this.counters.get(label) || 0); this.counters.set(label, n + 1);
    const v = T.variable(n ? label + '#' + n : label, sort, lo, hi);
    this.rangeAxiom(v);
    return v;
  }
  // terms know their own range, so the range is sent to the solver verbatim
  rangeAxiom(v) {
    this.guard();
    if (!this.live || (v.lo === null && v.hi === null)) return;
    this.solver.declare(v);
    const n = x => x < 0n ? `(- ${-x})` : `${x}`;
    if (v.lo !== null) this.solver.send(`(assert (>= ${T.smt(v)} ${n(v.lo)}))`);
    if (v.hi !== null) this.solver.send(`(assert (<= ${T.smt(v)} ${n(v.hi)}))`);
  }
  // ---- assertions
  axiom(t) { if (t === T.TRUE) return; this.guard(); if (this.live) this.solver.assert(t); }
  addLit(t) { this.lits.add(t.id); if (t.op === 'and') for (const a of t.args) this.addLit(a); }
  assume(t, check = true) {
    this.guard();
    if (t === T.TRUE) return;
    if (t === T.FALSE) this.abort('assume false');
    this.addLit(t);
    if (this.live) {
      this.solver.assert(t);
      if (check && this.solver.checkSat() === 'unsat') this.abort('assumption infeasible');
    }
  }
  // ---- branching
  decide(c) {
    this.guard();
    if (c === T.TRUE) return true; if (c === T.FALSE) return false;
    if (this.lits.has(c.id)) return true;
    const nc = T.not(c);
    if (this.lits.has(nc.id)) return false;
    if (c.op === 'and' || c.op === 'or') { // partially known connectives
      let all = true;
      for (const a of c.args) {
        const pos = this.lits.has(a.id), neg = this.lits.has(T.not(a).id);
        if (c.op === 'and' && neg) return false;
        if (c.op === 'or' && pos) return true;
        if (!(c.op === 'and' ? pos : neg)) all = false;
      }
      if (all) return c.op === 'and';
    }
    if (++this.stepCount > (this.opts.maxDecisions || 5000)) this.unsupported('path has more than ' + (this.opts.maxDecisions || 5000) + ' decisions');
    if (this.pos < this.prefix.length) {
      const e = this.prefix[this.pos];
      if (e.cond !== c.id) this.kill(new Unsupported('nondeterministic replay: ' + T.smt(c)));
      this.pos++;
      this.path.push(e);
      const lit = e.taken ? c : nc;
      this.addLit(lit);
      if (this.pos === this.prefix.length && e.pushed) { this.solver.push(); this.solver.assert(lit); }
      return e.taken;
    }
    this.stats.decisions++;
    const r1 = this.solver.checkWith(c);
    let e;
    if (r1 === 'unsat') e = { cond: c.id, taken: false, alt: false, pushed: false };
    else {
      const r2 = this.solver.checkWith(nc);
      if (r2 === 'unsat') e = { cond: c.id, taken: true, alt: false, pushed: false };
      else e = { cond: c.id, taken: true, alt: true, pushed: true };
    }
    if (e.pushed) { this.stats.branches++; this.solver.push(); this.solver.assert(c); } else this.stats.forced++;
    this.path.push(e); this.pos = ++this.prefixLenVirtual;
    this.prefix.push(e); this.pos = this.prefix.length;
    this.addLit(e.taken ? c : nc);
    return e.taken;
  }
  // structural (non-solver) choice among n alternatives: all are explored
  choose(n, label = '') {
    this.guard();
    if (n <= 0) this.abort('empty choice');
    if (n === 1) return 0;
    if (this.pos < this.prefix.length) {
      const e = this.prefix[this.pos];
      if (e.n !== n || e.label !== label) this.kill(new Unsupported('nondeterministic replay at choice ' + label));
      this.pos++; this.path.push(e);
      if (this.pos === this.prefix.length) this.solver.push();
      return e.k;
    }
    const e = { choice: true, n, k: 0, label, alt: true, pushed: true };
    this.solver.push(); this.stats.branches++;
    this.path.push(e); this.prefix.push(e); this.pos = this.prefix.length;
    return 0;
  }
  // concretise an Int term to one of the given values (forks)
  pick(t, values, label = 'pick') {
    for (const v of values) if (this.decide(T.eq(t, T.int(v)))) return BigInt(v);
    return null;
  }
  // ---- properties
  // prop must hold on this path for every value.  opts.known: [{id, when}] listed findings.
  check(prop, msg, opts = {}) {
    this.guard();
    this.stats.checks++;
    if (prop === T.TRUE) { this.stats.trivialChecks++; return; }
    const kn = opts.known || [];
    if (!this.live) { if (kn.length) this.addLit(prop); return; } // was checked when this prefix was first explored
    const bad = T.not(prop);
    const excl = T.and(bad, ...kn.map(k => T.not(k.when)));
    this.solver.push(); this.solver.assert(excl);
    const r = this.solver.checkSat();
    if (r === 'unsat') { this.stats.checksUnsat++; this.solver.pop(); }
    else if (r === 'unknown') { this.solver.pop(); this.kill(new Unsupported('solver gave no answer on: ' + msg)); }
    else {
      const ev = t => this.evalTerm(t);
      let cex = null;
      try { cex = this.concretise ? this.concretise(ev) : null; } catch (e) { cex = { error: String(e && e.stack || e) }; }
      this.solver.pop();
      this.kill(new Found({ msg, cex, labels: [...this.pathLabels], extra: opts.extra || null }));
    }
    for (const k of kn) {
      if (this.solver.checkWith(T.and(bad, k.when)) === 'sat') this.known.push({ id: k.id, msg });
    }
    if (kn.length) this.assume(prop);
  }
  evalTerm(t) {
    if (t.op === 'int') return t.v; if (t === T.TRUE) return true; if (t === T.FALSE) return false;
    return this.solver.values([t])[0];
  }
  fail(msg, opts) { this.check(T.FALSE, msg, opts); }
  reach(label) { this.pathLabels.add(label); }
  // ---- exploration
  async explore(scenario, opts = {}) {
    this.prefix = []; this.prefixLenVirtual = 0;
    const t0 = Date.now(); const violations = []; const samples = [];
    const maxMs = opts.maxMs || 840000, maxPaths = opts.maxPaths || 2e6;
    this.solver.push();
    for (;;) {
      this.resetRun(); this.concretise = null;
      let err = null, out = null;
      try { out = await scenario(this); } catch (e) { err = e; }
      if (opts.settle) await opts.settle();
      if (this.dead) err = this.dead;
      if (err && !err.engineAbort) { const f = opts.onError && opts.onError(this, err); if (!f) throw err; err = f; }
      if (err && err.unsupported) throw err;
      if (err && err.violation) {
        violations.push(err.violation);
        this.stats.paths++;
        if (violations.length >= (opts.maxViolations || 1)) break;
      } else if (err) this.stats.infeasible++;
      else {
        this.stats.paths++;
        for (const l of this.pathLabels) this.reached.set(l, (this.reached.get(l) || 0) + 1);
        if (opts.onPath) await opts.onPath(this, out, samples);
      }
      this.stats.maxDepth = Math.max(this.stats.maxDepth, this.path.length);
      // backtrack
      this.prefix = this.prefix.slice(0, this.path.length);
      while (this.prefix.length) {
        const e = this.prefix[this.prefix.length - 1];
        if (e.pushed) this.solver.pop();
        if (e.choice && e.k + 1 < e.n) { this.prefix[this.prefix.length - 1] = { ...e, k: e.k + 1 }; break; }
        if (!e.choice && e.alt) { this.prefix[this.prefix.length - 1] = { cond: e.cond, taken: false, alt: false, pushed: true }; break; }
        this.prefix.pop();
      }
      if (!this.prefix.length) break;
      if (Date.now() - t0 > maxMs || this.stats.paths > maxPaths) throw new Unsupported(`exploration budget exhausted (${this.stats.paths} paths)`);
    }
    this.solver.pop(this.solver.depth);
    return { violations, samples };
  }
  close() { this.solver.close(); }
}
module.exports = { Engine, Abort, Unsupported, Found };
