'use strict';
// Hash-consed terms over Int and Bool with light simplification and interval
// tracking.  Int terms are kept in a linear normal form where possible so that
// most syntactic equalities are decided without the solver.
const table = new Map();
let nextId = 1;
function cons(op, key, mk) {
  const k = op + '|' + key;
  let t = table.get(k);
  if (t) return t;
  t = mk();
  t.op = op; t.id = nextId++;
  table.set(k, t);
  return t;
}
class Term {
  constructor(sort) { this.sort = sort; this.lo = null; this.hi = null; this._s = null; }
  get isConst() { return this.op === 'int' || this.op === 'true' || this.op === 'false'; }
  toString() { return smt(this); }
}
const TRUE = cons('true', '', () => new Term('B'));
const FALSE = cons('false', '', () => new Term('B'));
function int(n) {
  n = BigInt(n);
  return cons('int', n.toString(), () => { const t = new Term('I'); t.v = n; t.lo = n; t.hi = n; return t; });
}
const ZERO = int(0), ONE = int(1);
function bool(b) { return b ? TRUE : FALSE; }
// free constant.  lo/hi are asserted by the engine when it is created.
function variable(name, sort = 'I', lo = null, hi = null) {
  return cons('var', name + ':' + sort + ':' + lo + ':' + hi, () => {
    const t = new Term(sort); t.name = name; t.lo = lo; t.hi = hi; return t;
  });
}
function app(fn, args, sort = 'I', lo = null, hi = null) {
  return cons('app', fn + '(' + args.map(a => a.id).join(',') + ')' + sort, () => {
    const t = new Term(sort); t.fn = fn; t.args = args; t.lo = lo; t.hi = hi; return t;
  });
}
// ---- linear forms -------------------------------------------------------
function linParts(t) { // -> [const, Map(term->coef)]
  if (t.op === 'int') return [t.v, new Map()];
  if (t.op === 'lin') return [t.k, new Map(t.ts)];
  return [0n, new Map([[t, 1n]])];
}
function mkLin(k, m) {
  const ts = [...m].filter(([, c]) => c !== 0n).sort((a, b) => a[0].id - b[0].id);
  if (ts.length === 0) return int(k);
  if (ts.length === 1 && k === 0n && ts[0][1] === 1n) return ts[0][0];
  return cons('lin', k + ';' + ts.map(([t, c]) => t.id + '*' + c).join(','), () => {
    const t = new Term('I'); t.k = k; t.ts = ts;
    let lo = k, hi = k;
    for (const [a, c] of ts) {
      const l = c > 0n ? a.lo : a.hi, h = c > 0n ? a.hi : a.lo;
      lo = lo === null || l === null ? null : lo + c * l;
      hi = hi === null || h === null ? null : hi + c * h;
    }
    t.lo = lo; t.hi = hi;
    return t;
  });
}
function addScaled(a, b, s) {
  if (a.op === 'int' && b.op === 'int') return int(a.v + s * b.v);
  const [k, m] = linParts(a); const [k2, m2] = linParts(b);
  for (const [t, c] of m2) m.set(t, (m.get(t) || 0n) + s * c);
  return mkLin(k + s * k2, m);
}
const add = (a, b) => addScaled(a, b, 1n);
const sub = (a, b) => addScaled(a, b, -1n);
function mul(a, b) {
  if (a.op === 'int') {
    const [k, m] = linParts(b); const r = new Map();
    for (const [t, c] of m) r.set(t, c * a.v);
    return mkLin(k * a.v, r);
  }
  if (b.op === 'int') return mul(b, a);
  if (a.id > b.id) [a, b] = [b, a];
  return cons('mul', a.id + ',' + b.id, () => {
    const t = new Term('I'); t.args = [a, b];
    if (a.lo !== null && b.lo !== null && a.lo >= 0n && b.lo >= 0n) {
      t.lo = a.lo * b.lo;
      if (a.hi !== null && b.hi !== null) t.hi = a.hi * b.hi;
    }
    return t;
  });
}
function fdiv(x, y) { let q = x / y; if (x % y !== 0n && ((x < 0n) !== (y < 0n))) q -= 1n; return q; }
// Euclidean division and remainder as in SMT-LIB (positive divisor in all uses)
function div(a, b) {
  if (b.op === 'int' && b.v === 1n) return a;
  if (a.op === 'int' && b.op === 'int' && b.v > 0n) return int(fdiv(a.v, b.v));
  return cons('div', a.id + ',' + b.id, () => {
    const t = new Term('I'); t.args = [a, b];
    if (a.lo !== null && a.lo >= 0n && b.lo !== null && b.lo >= 0n) { t.lo = 0n; t.hi = a.hi; }
    return t;
  });
}
function mod(a, b) {
  if (b.op === 'int' && b.v === 1n) return ZERO;
  if (a.op === 'int' && b.op === 'int' && b.v > 0n) return int(a.v - b.v * fdiv(a.v, b.v));
  if (b.op === 'int' && a.lo !== null && a.hi !== null && a.lo >= 0n && a.hi < b.v) return a;
  return cons('mod', a.id + ',' + b.id, () => {
    const t = new Term('I'); t.args = [a, b]; t.lo = 0n; if (b.op === 'int') t.hi = b.v - 1n;
    return t;
  });
}
// ---- booleans -----------------------------------------------------------
function not(a) {
  if (a === TRUE) return FALSE; if (a === FALSE) return TRUE;
  if (a.op === 'not') return a.args[0];
  return cons('not', '' + a.id, () => { const t = new Term('B'); t.args = [a]; return t; });
}
function nary(op, args) {
  const unit = op === 'and' ? TRUE : FALSE, zero = op === 'and' ? FALSE : TRUE;
  const set = new Map();
  const push = a => {
    if (a === unit) return true;
    if (a === zero) return false;
    if (a.op === op) { for (const x of a.args) if (!push(x)) return false; return true; }
    set.set(a.id, a); return true;
  };
  for (const a of args) if (!push(a)) return zero;
  for (const a of set.values()) if (set.has(not(a).id)) return zero;
  const l = [...set.values()].sort((a, b) => a.id - b.id);
  if (l.length === 0) return unit; if (l.length === 1) return l[0];
  return cons(op, l.map(a => a.id).join(','), () => { const t = new Term('B'); t.args = l; return t; });
}
const and = (...a) => nary('and', a), or = (...a) => nary('or', a);
const implies = (a, b) => or(not(a), b);
function iff(a, b) { return eq(a, b); }
function eq(a, b) {
  if (a === b) return TRUE;
  if (a.sort !== b.sort) throw new Error('eq: sorts ' + a.sort + '/' + b.sort);
  if (a.sort === 'B') {
    if (a === TRUE) return b; if (b === TRUE) return a;
    if (a === FALSE) return not(b); if (b === FALSE) return not(a);
    if (a.id > b.id) [a, b] = [b, a];
    return cons('eq', a.id + ',' + b.id, () => { const t = new Term('B'); t.args = [a, b]; return t; });
  }
  const d = sub(a, b);
  if (d.op === 'int') return bool(d.v === 0n);
  if ((d.lo !== null && d.lo > 0n) || (d.hi !== null && d.hi < 0n)) return FALSE;
  if (a.op === 'ite' && a.args[1].isConst && b.op === 'int') return or(and(a.args[0], eq(a.args[1], b)), and(not(a.args[0]), eq(a.args[2], b)));
  if (a.id > b.id) [a, b] = [b, a];
  return cons('eq', a.id + ',' + b.id, () => { const t = new Term('B'); t.args = [a, b]; return t; });
}
const ne = (a, b) => not(eq(a, b));
function le(a, b) { // a <= b  <=>  b-a >= 0
  const d = sub(b, a);
  if (d.op === 'int') return bool(d.v >= 0n);
  if (d.lo !== null && d.lo >= 0n) return TRUE;
  if (d.hi !== null && d.hi < 0n) return FALSE;
  return cons('ge0', '' + d.id, () => { const t = new Term('B'); t.args = [d]; return t; });
}
const lt = (a, b) => le(add(a, ONE), b);
const gt = (a, b) => lt(b, a), ge = (a, b) => le(b, a);
function ite(c, a, b) {
  if (c === TRUE) return a; if (c === FALSE) return b; if (a === b) return a;
  if (a.sort === 'B') return or(and(c, a), and(not(c), b));
  return cons('ite', c.id + ',' + a.id + ',' + b.id, () => {
    const t = new Term(a.sort); t.args = [c, a, b];
    t.lo = a.lo !== null && b.lo !== null ? (a.lo < b.lo ? a.lo : b.lo) : null;
    t.hi = a.hi !== null && b.hi !== null ? (a.hi > b.hi ? a.hi : b.hi) : null;
    return t;
  });
}
// ---- printing -----------------------------------------------------------
const num = v => v < 0n ? `(- ${-v})` : `${v}`;
function sym(n) { return '|' + n.replace(/[|\\]/g, '_') + '|'; }
function smt(t) {
  if (t._s !== null) return t._s;
  let s;
  switch (t.op) {
    case 'true': case 'false': s = t.op; break;
    case 'int': s = num(t.v); break;
    case 'var': s = sym(t.name); break;
    case 'app': s = t.args.length ? `(${sym(t.fn)} ${t.args.map(smt).join(' ')})` : sym(t.fn); break;
    case 'lin': {
      const ps = t.ts.map(([a, c]) => c === 1n ? smt(a) : `(* ${num(c)} ${smt(a)})`);
      if (t.k !== 0n) ps.push(num(t.k));
      s = ps.length === 1 ? ps[0] : `(+ ${ps.join(' ')})`; break;
    }
    case 'mul': s = `(* ${smt(t.args[0])} ${smt(t.args[1])})`; break;
    case 'div': s = `(div ${smt(t.args[0])} ${smt(t.args[1])})`; break;
    case 'mod': s = `(mod ${smt(t.args[0])} ${smt(t.args[1])})`; break;
    case 'not': s = `(not ${smt(t.args[0])})`; break;
    case 'and': case 'or': s = `(${t.op} ${t.args.map(smt).join(' ')})`; break;
    case 'eq': s = `(= ${smt(t.args[0])} ${smt(t.args[1])})`; break;
    case 'ge0': s = `(>= ${smt(t.args[0])} 0)`; break;
    case 'ite': s = `(ite ${t.args.map(smt).join(' ')})`; break;
    default: throw new Error('smt: ' + t.op);
  }
  t._s = s;
  return s;
}
// collect declarations (vars and uninterpreted functions) below t
function collect(t, seen, out) {
  if (seen.has(t)) return; seen.add(t);
  if (t.op === 'var') out.push([t.name, [], t.sort]);
  else if (t.op === 'app') { for (const a of t.args) collect(a, seen, out); out.push([t.fn, t.args.map(a => a.sort), t.sort]); }
  else if (t.op === 'lin') for (const [a] of t.ts) collect(a, seen, out);
  else if (t.args) for (const a of t.args) collect(a, seen, out);
}
const isTerm = x => x instanceof Term;
module.exports = { Term, isTerm, TRUE, FALSE, ZERO, ONE, int, bool, variable, app, add, sub, mul, div, mod, not, and, or, implies, iff, eq, ne, le, lt, ge, gt, ite, smt, sym, collect, size: () => table.size };
