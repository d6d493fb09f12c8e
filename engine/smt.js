'use strict';
// Synchronous SMT-LIB pipe to a solver process (through two FIFOs).
const fs = require('fs'), os = require('os'), path = require('path'), cp = require('child_process');
const T = require('./terms');
const CMDS = {
  z3: ['z3-new', '-in', '-smt2'],
  z3old: ['z3', '-in', '-smt2'],
  cvc5: ['cvc5', '--incremental', '--produce-models', '--lang=smt2'],
};
let seq = 0;
class Solver {
  constructor(kind = 'z3', opts = {}) {
    this.kind = kind; this.timeoutMs = opts.timeoutMs || 20000;
    this.queries = 0; this.timeMs = 0; this.unknowns = 0; this.sat = 0; this.unsat = 0;
    this.dir = fs.mkdtempSync(path.join(os.tmpdir(), 'vsmt-'));
    this.start();
  }
  start() {
    const n = seq++;
    const fin = path.join(this.dir, 'in' + n), fout = path.join(this.dir, 'out' + n);
    cp.execFileSync('mkfifo', [fin, fout]);
    const args = CMDS[this.kind];
    this.child = cp.spawn('sh', ['-c', `exec ${args.join(' ')} < '${fin}' > '${fout}' 2>&1`], { stdio: 'ignore' });
    this.child.unref();
    this.win = fs.openSync(fin, 'w');
    this.rout = fs.openSync(fout, 'r');
    fs.unlinkSync(fin); fs.unlinkSync(fout);
    this.buf = ''; this.pending = [];
    this.declared = new Set(); this.seenTerms = new Set();
    this.depth = 0;
    this.stackLog = [[]]; // assertion log per level, so the process can be restarted
    if (this.kind === 'cvc5') this.send('(set-logic ALL)');
    this.send('(set-option :global-declarations true)');
    if (this.kind !== 'cvc5') this.send(`(set-option :timeout ${this.timeoutMs})`);
    else this.send(`(set-option :tlimit-per ${this.timeoutMs})`);
  }
  send(s) { this.pending.push(s); if (this.pending.length > 400) this.flush(); }
  flush() {
    if (!this.pending.length) return;
    let data = Buffer.from(this.pending.join('\n') + '\n'); this.pending = [];
    let off = 0;
    while (off < data.length) off += fs.writeSync(this.win, data, off);
  }
  readLine() {
    for (;;) {
      const i = this.buf.indexOf('\n');
      if (i >= 0) { const l = this.buf.slice(0, i); this.buf = this.buf.slice(i + 1); return l; }
      const b = Buffer.allocUnsafe(65536);
      const n = fs.readSync(this.rout, b, 0, b.length, null);
      if (n === 0) throw new Error('solver ended: ' + this.buf);
      this.buf += b.toString('latin1', 0, n);
    }
  }
  readSexp() {
    let s = '', depth = 0, inq = false;
    for (;;) {
      const l = this.readLine(); s += l + '\n';
      for (const c of l) { if (c === '|') inq = !inq; else if (!inq) { if (c === '(') depth++; else if (c === ')') depth--; } }
      if (depth <= 0 && s.trim()) return s.trim();
    }
  }
  declare(t) {
    const out = []; T.collect(t, this.seenTerms, out);
    for (const [n, as, s] of out) {
      if (this.declared.has(n)) continue; this.declared.add(n);
      const S = x => x === 'I' ? 'Int' : 'Bool';
      this.send(`(declare-fun ${T.sym(n)} (${as.map(S).join(' ')}) ${S(s)})`);
    }
  }
  assert(t) { if (t === T.TRUE) return; this.declare(t); this.send(`(assert ${T.smt(t)})`); }
  push() { this.send('(push 1)'); this.depth++; }
  pop(n = 1) { if (n > 0) { this.send(`(pop ${n})`); this.depth -= n; } }
  checkSat() {
    this.send('(check-sat)'); this.flush();
    const t0 = process.hrtime.bigint();
    const l = this.readLine().trim();
    this.timeMs += Number(process.hrtime.bigint() - t0) / 1e6;
    this.queries++;
    if (l.startsWith('(error')) throw new Error('solver: ' + l);
    if (l !== 'sat' && l !== 'unsat') { this.unknowns++; if (l !== 'unknown' && l !== 'timeout') throw new Error('solver: ' + l); return 'unknown'; }
    this[l]++;
    return l;
  }
  checkWith(t) { // satisfiability of current stack and t
    if (t === T.FALSE) return 'unsat';
    this.push(); this.assert(t); const r = this.checkSat(); this.pop(); return r;
  }
  // values of terms in the current model (call right after a sat checkSat, before pop)
  values(terms) {
    if (!terms.length) return [];
    for (const t of terms) this.declare(t);
    this.flush();
    const out = [];
    for (let i = 0; i < terms.length; i += 50) {
      const part = terms.slice(i, i + 50);
      this.send(`(get-value (${part.map(T.smt).join(' ')}))`); this.flush();
      const s = this.readSexp();
      if (s.startsWith('(error')) throw new Error(s);
      const e = parse(s);
      for (let j = 0; j < part.length; j++) out.push(val(e[j][1]));
    }
    return out;
  }
  close() { try { fs.closeSync(this.win); fs.closeSync(this.rout); } catch (e) {} try { this.child.kill('SIGKILL'); } catch (e) {} try { fs.rmdirSync(this.dir); } catch (e) {} }
}
function parse(s) {
  let i = 0;
  const go = () => {
    while (/\s/.test(s[i])) i++;
    if (s[i] === '(') { i++; const r = []; for (;;) { while (/\s/.test(s[i])) i++; if (s[i] === ')') { i++; return r; } r.push(go()); } }
    if (s[i] === '|') { const j = s.indexOf('|', i + 1); const r = s.slice(i, j + 1); i = j + 1; return r; }
    let j = i; while (j < s.length && !/[\s()]/.test(s[j])) j++;
    const r = s.slice(i, j); i = j; return r;
  };
  return go();
}
function val(e) {
  if (e === 'true') return true; if (e === 'false') return false;
  if (Array.isArray(e) && e[0] === '-') return -BigInt(e[1]);
  return BigInt(e);
}
module.exports = { Solver };
