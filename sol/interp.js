'use strict';
// Symbolic interpreter for Solidity.  It runs the typed AST that solc produces
// from the current sources; integers are SMT terms, byte strings are structured
// symbolic byte strings, and every branch is handed to the engine.
const T = require('../engine/terms');
const B = require('../engine/bytes');
const abi = require('../engine/abi');

const M256 = (1n << 256n) - 1n;
const BREAK = { c: 'break' }, CONT = { c: 'continue' }, RET = { c: 'return' };
class Revert { constructor(data) { this.data = data; this.solRevert = true; } toString() { return revStr(this.data); } }
const errStr = (m) => ({ kind: 'string', msg: m });
function revStr(d) { return d.kind === 'string' ? `Error(${d.msg})` : d.kind === 'custom' ? d.name : d.kind === 'panic' ? 'Panic(' + d.code + ')' : d.kind === 'raw' ? (d.inner ? revStr(d.inner) : 'raw') : 'empty'; }
const panic = (code) => { throw new Revert({ kind: 'panic', code }); };

// ------------------------------------------------------------------ program
class Program {
  constructor(asts) {
    this.nodes = new Map(); this.contracts = []; this.sources = asts;
    for (const src of Object.keys(asts)) this.index(asts[src], src, null);
    this.fnCache = new Map(); this.typeCache = new Map(); this.vts = new Map();
  }
  index(n, src, contract) {
    if (!n || typeof n !== 'object') return;
    if (Array.isArray(n)) { for (const x of n) this.index(x, src, contract); return; }
    if (n.nodeType) {
      if (n.id !== undefined && !n.nodeType.startsWith('Yul')) this.nodes.set(n.id, n);
      n.__src = src;
      if (n.nodeType === 'ContractDefinition') { this.contracts.push(n); contract = n; }
      if (contract) n.__contract = contract;
    }
    for (const k in n) if (k[0] !== '_' && k !== 'typeDescriptions') this.index(n[k], src, contract);
  }
  contract(name, srcPrefix) {
    const c = this.contracts.filter(c => c.name === name && (!srcPrefix || c.__src.startsWith(srcPrefix)));
    if (!c.length) throw new Error('no contract ' + name);
    return c[0];
  }
  lin(c) { return c.linearizedBaseContracts.map(id => this.nodes.get(id)); }
  fkey(f) { return f.name + '(' + f.parameters.parameters.map(p => this.typeOf(p).key).join(',') + ')'; }
  // most derived implementation of f in contract c
  resolve(c, f) {
    if (f.visibility === 'private' || !f.__contract || f.__contract.contractKind === 'library') return f;
    let vt = this.vts.get(c.id);
    if (!vt) {
      vt = new Map();
      for (const b of this.lin(c)) for (const n of b.nodes) if (n.nodeType === 'FunctionDefinition' && n.kind === 'function' && n.visibility !== 'private') {
        const k = this.fkey(n);
        if (!vt.has(k) && (n.body || b.contractKind !== 'interface')) vt.set(k, n);
      }
      this.vts.set(c.id, vt);
    }
    return vt.get(this.fkey(f)) || f;
  }
  resolveModifier(c, m) {
    for (const b of this.lin(c)) for (const n of b.nodes) if (n.nodeType === 'ModifierDefinition' && n.name === m.name) return n;
    return m;
  }
  resolveSuper(c, cur, f) {
    const l = this.lin(c); let i = l.findIndex(x => x.id === cur.id); const k = this.fkey(f);
    for (i++; i < l.length; i++) for (const n of l[i].nodes) if (n.nodeType === 'FunctionDefinition' && n.body && n.kind === 'function' && this.fkey(n) === k) return n;
    return f;
  }
  // externally callable function (or public state variable) with a selector
  external(c, selector) {
    for (const b of this.lin(c)) for (const n of b.nodes) {
      if (n.nodeType === 'FunctionDefinition' && n.functionSelector === selector && (n.visibility === 'public' || n.visibility === 'external')) { const r = this.resolve(c, n); if (r.body) return r; }
      if (n.nodeType === 'VariableDeclaration' && n.functionSelector === selector) return n;
    }
    return null;
  }
  special(c, kind) { for (const b of this.lin(c)) for (const n of b.nodes) if (n.nodeType === 'FunctionDefinition' && n.kind === kind) return n; return null; }
  byName(c, name) {
    for (const b of this.lin(c)) for (const n of b.nodes) {
      if (n.nodeType === 'FunctionDefinition' && n.name === name && n.functionSelector) return this.resolve(c, n);
      if (n.nodeType === 'VariableDeclaration' && n.name === name && n.functionSelector) return n;
    }
    throw new Error('no function ' + name + ' in ' + c.name);
  }
  stateVars(c) {
    if (c.__sv) return c.__sv;
    const r = []; for (const b of this.lin(c).slice().reverse()) for (const n of b.nodes) if (n.nodeType === 'VariableDeclaration' && n.stateVariable && !n.constant && n.mutability !== 'immutable') r.push(n);
    return (c.__sv = r);
  }
  // ---- types from solc type identifiers
  typeOf(node) { return this.type(node.typeDescriptions.typeIdentifier); }
  type(id) {
    let t = this.typeCache.get(id);
    if (!t) { t = this.parseType(id); this.typeCache.set(id, t); }
    return t;
  }
  parseType(s) {
    let m; const loc = /_(memory|storage|calldata)(_ptr(_slice)?)?$/.exec(s);
    const L = loc ? loc[1] : null;
    const mk = (o) => { o.loc = L; o.ptr = !!(loc && loc[2]); return o; };
    if ((m = /^t_uint(\d+)$/.exec(s))) return { k: 'uint', bits: +m[1], key: 'uint' + m[1], lo: 0n, hi: (1n << BigInt(m[1])) - 1n };
    if ((m = /^t_int(\d+)$/.exec(s))) return { k: 'int', bits: +m[1], key: 'int' + m[1], lo: -(1n << BigInt(m[1] - 1)), hi: (1n << BigInt(m[1] - 1)) - 1n };
    if (s === 't_address' || s === 't_address_payable') return { k: 'address', key: 'address', lo: 0n, hi: (1n << 160n) - 1n };
    if (s === 't_bool') return { k: 'bool', key: 'bool' };
    if ((m = /^t_bytes(\d+)$/.exec(s))) return { k: 'fbytes', n: +m[1], key: 'bytes' + m[1], lo: 0n, hi: (1n << BigInt(8 * m[1])) - 1n };
    if ((m = /^t_contract\$_.*_\$(\d+)$/.exec(s))) return { k: 'contract', id: +m[1], key: 'address', lo: 0n, hi: (1n << 160n) - 1n };
    if ((m = /^t_super\$_.*_\$(\d+)$/.exec(s))) return { k: 'super', id: +m[1], key: 'super' };
    if ((m = /^t_enum\$_.*_\$(\d+)$/.exec(s))) { const d = this.nodes.get(+m[1]); return { k: 'enum', id: +m[1], key: 'uint8', lo: 0n, hi: BigInt(d.members.length - 1), members: d.members.length }; }
    if ((m = /^t_struct\$_.*_\$(\d+)(_(memory|storage|calldata)(_ptr)?)?$/.exec(s))) {
      const d = this.nodes.get(+m[1]); const self = this;
      return mk({ k: 'struct', id: +m[1], decl: d, get fields() { return d.members.map(x => self.typeOf(x)); }, get key() { return '(' + this.fields.map(f => f.key).join(',') + ')'; } });
    }
    if (/^t_bytes(_|$)/.test(s)) return mk({ k: 'bytes', key: 'bytes' });
    if (/^t_string(_|$)/.test(s)) return mk({ k: 'string', key: 'string' });
    if (s.startsWith('t_array$_')) {
      const [inner, rest] = this.bracket(s, 7);
      const dm = /^(dyn|\d+)/.exec(rest);
      const el = this.type(inner); const self = this;
      return mk({ k: 'array', el, n: dm[1] === 'dyn' ? null : +dm[1], get key() { return this.el.key + '[' + (this.n === null ? '' : this.n) + ']'; } });
    }
    if (s.startsWith('t_mapping$_')) { const parts = this.bracket(s, 9)[2]; return { k: 'mapping', keyT: this.type(parts[0]), val: this.type(parts[1]), key: 'mapping', loc: 'storage' }; }
    if (s.startsWith('t_tuple$_')) { const ps = this.bracket(s, 7)[2]; return { k: 'tuple', comps: ps.length === 1 && ps[0] === '' ? [] : ps.map(x => x === '' || x === 't_' ? null : this.type(x)), key: 'tuple' }; }
    if (s.startsWith('t_type$_')) { const inner = this.bracket(s, 6)[0]; return { k: 'type', get t() { return this._t || (this._t = inner.startsWith('t_super') ? { k: 'super' } : PROG_TYPE(inner)); }, key: 'type' }; }
    if (/^t_rational/.test(s)) return { k: 'rational', key: 'uint256', lo: null, hi: null };
    if (/^t_stringliteral/.test(s)) return { k: 'string', key: 'string', loc: 'memory' };
    if (s.startsWith('t_function')) return { k: 'function', id: s, key: 'function' };
    if (s.startsWith('t_magic')) return { k: 'magic', key: 'magic' };
    if (s.startsWith('t_error')) return { k: 'error', key: 'error' };
    if (s.startsWith('t_userDefinedValueType')) throw new Error('user-defined value type');
    return { k: 'other', id: s, key: s };
  }
  // type identifiers nest as  name$_elem_$_elem_$suffix
  list(s, i) { // s at i is '$_'; returns [elements, index after the closing '_$']
    if (!s.startsWith('$_', i)) throw new Error('list ' + s);
    const out = []; let cur = ''; i += 2;
    while (i < s.length) {
      if (s.startsWith('_$', i)) {
        if (s.startsWith('_$_t_', i) || s.startsWith('_$__', i)) { out.push(cur); cur = ''; i += 3; continue; }
        out.push(cur); return [out, i + 2];
      }
      if (s.startsWith('$_', i)) { const [, j] = this.list(s, i); cur += s.slice(i, j); i = j; continue; }
      cur += s[i++];
    }
    throw new Error('list ' + s);
  }
  bracket(s, i) { if (s[i] !== '$') i = s.indexOf('$', 0); const [p, j] = this.list(s, i); return [p.join('_$_'), s.slice(j), p]; }
}
let PROG_TYPE = null;

// ------------------------------------------------------------------ values
class MStruct { constructor(t, f) { this.t = t; this.f = f; } }
class MArr { constructor(el, items) { this.el = el; this.items = items; } }
class SStruct { constructor(t) { this.t = t; this.f = t.fields.map(x => defStorage(x)); } }
class SArr { constructor(t) { this.t = t; this.el = t.el; this.items = []; if (t.n !== null) for (let i = 0; i < t.n; i++) this.items.push(defStorage(t.el)); } }
class SMap { constructor(t) { this.t = t; this.entries = []; } }
class Ref { constructor(get, set) { this.get = get; this.set = set; } } // storage pointer to a bytes value / generic lvalue
const isS = v => v instanceof SStruct || v instanceof SArr || v instanceof SMap;
function isVal(t) { return ['uint', 'int', 'address', 'bool', 'fbytes', 'contract', 'enum', 'rational'].includes(t.k); }
function zero(t) { return t.k === 'bool' ? T.FALSE : T.ZERO; }
function defStorage(t) {
  if (isVal(t)) return zero(t);
  if (t.k === 'bytes' || t.k === 'string') return B.EMPTY;
  if (t.k === 'struct') return new SStruct(t);
  if (t.k === 'array') return new SArr(t);
  if (t.k === 'mapping') return new SMap(t);
  if (t.k === 'function') return T.ZERO;
  throw new Error('defStorage ' + t.k);
}
function defMemory(t) {
  if (isVal(t)) return zero(t);
  if (t.k === 'bytes' || t.k === 'string') return B.EMPTY;
  if (t.k === 'struct') return new MStruct(t, t.fields.map(x => x.k === 'mapping' ? null : defMemory(x)));
  if (t.k === 'array') { const a = new MArr(t.el, []); if (t.n !== null) for (let i = 0; i < t.n; i++) a.items.push(defMemory(t.el)); return a; }
  if (t.k === 'mapping') return null;
  throw new Error('defMemory ' + t.k);
}
function copyMem(v) { // deep copy to memory
  if (v instanceof Ref) return v.get();
  if (v instanceof SStruct || v instanceof MStruct) return new MStruct(v.t, v.f.map(x => x instanceof SMap ? null : copyMem(x)));
  if (v instanceof SArr || v instanceof MArr) return new MArr(v.el, v.items.map(copyMem));
  return v;
}
function deref(v) { return v instanceof Ref ? v.get() : v; }

// ------------------------------------------------------------------ world
class World {
  constructor(prog, E) {
    this.prog = prog; this.E = E; this.instances = new Map(); this.journal = []; this.now = T.int(1700000000);
    this.txs = []; this.events = []; this.nextAddr = 0xc0de0001n; this.depth = 0; this.external = null;
  }
  mark() { return { j: this.journal.length, e: this.events.length }; }
  rollback(m) { while (this.journal.length > m.j) this.journal.pop()(); this.events.length = m.e; }
  deploy(contract, args = [], opts = {}) {
    const c = typeof contract === 'string' ? this.prog.contract(contract) : contract;
    const address = opts.address || this.nextAddr++;
    const inst = { address: T.int(address), addr: BigInt(address), c, cells: [], cellVars: [], imm: new Map() };
    this.instances.set(BigInt(address), inst);
    this.prog.construct(this, inst, args.map((a, i) => a && a.cells ? a.address : a));
    this.txs.push({ deploy: c, inst, args: args.map(a => a && a.cells ? a.address : a) });
    return inst;
  }
  cell(inst, code, decl) { // index of a state variable in inst's storage as seen by code
    const sv = this.prog.stateVars(code); const i = sv.indexOf(decl);
    if (i < 0) throw new Error('state var ' + decl.name);
    if (inst.cells[i] === undefined) { inst.cells[i] = defStorage(this.prog.typeOf(decl)); inst.cellVars[i] = decl; }
    else if (inst.cellVars[i] !== decl && inst.cellVars[i].typeDescriptions.typeIdentifier !== decl.typeDescriptions.typeIdentifier)
      this.E.unsupported(`storage layouts of ${code.name} and ${inst.c.name} collide at ${decl.name}`);
    return i;
  }
  setCell(inst, i, v) { const old = inst.cells[i]; inst.cells[i] = v; this.journal.push(() => { inst.cells[i] = old; }); }
  // find an instance by address term
  at(t) {
    if (t.op === 'int') return this.instances.get(t.v) || null;
    for (const inst of this.instances.values()) if (this.E.decide(T.eq(t, inst.address))) return inst;
    return null;
  }
  // external message call; returns array of return values or throws Revert
  call(inst, f, args, sender) {
    if (++this.depth > 60) panic(0x99);
    const m = this.mark();
    try { return this.prog.run(this, f, args, { self: inst, code: inst.c, sender }); }
    catch (e) { if (e.solRevert) this.rollback(m); throw e; }
    finally { this.depth--; }
  }
  // a transaction from the outside.  args: JS values (terms, SBytes, nested arrays)
  tx(from, inst, name, args = []) {
    const E = this.E; const f = this.prog.byName(inst.c, name);
    const rec = { from, inst, name, f, args, now: this.now, ok: false };
    this.txs.push(rec);
    try {
      if (f.nodeType === 'VariableDeclaration') rec.ret = this.prog.getter(this, inst, inst.c, f, args);
      else {
        const ps = f.parameters.parameters;
        if (ps.length !== args.length) throw new Error(`${name}: ${ps.length} arguments expected`);
        const vals = args.map((a, i) => this.prog.fromAbi(this.prog.typeOf(ps[i]), a, null));
        rec.ret = this.call(inst, f, vals, from);
      }
      rec.ok = true;
    } catch (e) { if (!e.solRevert) throw e; rec.revert = e.data; rec.why = e.toString(); }
    return rec;
  }
}

// ------------------------------------------------------------------ compiler
Object.assign(Program.prototype, {
  // ABI conversions
  abiType(t) {
    if (t.__abi) return t.__abi;
    let r;
    switch (t.k) {
      case 'uint': case 'int': r = abi.word(t.k + t.bits); break;
      case 'address': case 'contract': r = abi.word('address'); break;
      case 'bool': r = abi.word('bool'); break;
      case 'fbytes': r = abi.word('bytes' + t.n); break;
      case 'enum': r = abi.word('uint8'); break;
      case 'rational': r = abi.word('uint256'); break;
      case 'bytes': r = abi.BYTES; break;
      case 'string': r = abi.STRING; break;
      case 'array': r = abi.arr(this.abiType(t.el), t.n); break;
      case 'struct': r = abi.tup(t.fields.map(f => this.abiType(f)), t.decl.members.map(m => m.name)); break;
      default: throw new Error('abiType ' + t.k);
    }
    return (t.__abi = r);
  },
  // memory/storage value -> plain ABI value
  toAbi(t, v) {
    v = deref(v);
    if (isVal(t) || t.k === 'bytes' || t.k === 'string') return v;
    if (t.k === 'array') return v.items.map(x => this.toAbi(t.el, x));
    if (t.k === 'struct') return t.fields.map((f, i) => this.toAbi(f, v.f[i]));
    throw new Error('toAbi ' + t.k);
  },
  // plain ABI value -> memory value.  E given: values are untrusted and range-checked (reverting)
  fromAbi(t, v, E) {
    if (isVal(t)) {
      if (v === true || v === false) v = T.bool(v);
      if (typeof v === 'number' || typeof v === 'bigint') v = T.int(v);
      if (t.k === 'bool') {
        if (v.sort === 'B') return v;
        if (E && !E.decide(T.le(v, T.ONE))) throw new Revert({ kind: 'empty' });
        return T.eq(v, T.ONE);
      }
      if (v.sort === 'B') v = T.ite(v, T.ONE, T.ZERO);
      if (E && t.hi !== null) {
        const c = T.and(T.le(T.int(t.lo), v), T.le(v, T.int(t.hi)));
        if (!E.decide(c)) throw new Revert({ kind: 'empty' });
      }
      return v;
    }
    if (t.k === 'bytes' || t.k === 'string') { if (!(v instanceof B.SBytes)) throw new Error('bytes expected, got ' + v); return v; }
    if (t.k === 'array') { if (!Array.isArray(v)) throw new Error('array expected'); return new MArr(t.el, v.map(x => this.fromAbi(t.el, x, E))); }
    if (t.k === 'struct') {
      if (!Array.isArray(v)) v = t.decl.members.map(m => v[m.name]);
      return new MStruct(t, t.fields.map((f, i) => this.fromAbi(f, v[i], E)));
    }
    throw new Error('fromAbi ' + t.k);
  },
  encode(ts, vs) { return B.enc(ts.map(t => this.abiType(t)), vs.map((v, i) => this.toAbi(ts[i], v))); },
  decode(E, ts, data) {
    if (data.k !== 'enc') {
      if (ts.length === 1 && ts[0].k !== 'bytes' && isVal(ts[0]) && data.k === 'w') return [this.fromAbi(ts[0], data.t, E)];
      throw new Revert({ kind: 'empty' });
    }
    const at = ts.map(t => this.abiType(t));
    if (!abi.sameList(at, data.ty)) throw new Revert({ kind: 'empty' });
    return ts.map((t, i) => this.fromAbi(t, data.vals[i], E));
  },
  getter(W, inst, code, decl, args) {
    let v = decl.constant ? this.constant(decl) : decl.mutability === 'immutable' ? inst.imm.get(decl.id) : inst.cells[W.cell(inst, code, decl)];
    let t = this.typeOf(decl); let i = 0;
    while (t.k === 'mapping' || t.k === 'array') {
      const k = args[i++];
      if (t.k === 'mapping') { v = mapGet(W, v, k); t = t.val; } else { v = arrAt(W.E, v.items, k); t = t.el; }
    }
    if (t.k === 'struct') return t.fields.map((f, j) => ({ f, v: v.f[j] })).filter(x => x.f.k !== 'mapping' && x.f.k !== 'array').map(x => copyMem(x.v));
    return [copyMem(v)];
  },
  constant(decl) { return decl.__const === undefined ? (decl.__const = this.expr(decl.value)({ env: {}, W: null })) : decl.__const; },
  // run function f with already-copied args in a fresh frame
  run(W, f, args, ctx) {
    if (f.nodeType === 'VariableDeclaration') return this.getter(W, ctx.self, ctx.code, f, args);
    const cf = this.fn(f);
    return cf(W, args, ctx);
  },
  fn(f) {
    let c = this.fnCache.get(f.id);
    if (c) return c;
    if (!f.body) throw new Error('no body: ' + f.name);
    const label = (f.__contract ? f.__contract.name + '.' : '') + (f.name || f.kind);
    const stub = STUBS[label];
    const params = f.parameters.parameters, rets = f.returnParameters.parameters;
    const ptypes = params.map(p => this.typeOf(p)), rtypes = rets.map(p => this.typeOf(p));
    const P = this;
    if (stub) {
      c = (W, args, ctx) => { W.E.enter(label + ' (modelled)'); return stub(W, args.map(deref), f); };
    } else {
      let body = null, mods = null;
      c = (W, args, ctx) => {
        W.E.enter(label);
        if (!body) {
          body = P.block(f.body);
          mods = (f.modifiers || []).filter(m => m.kind !== 'baseConstructorSpecifier' && P.nodes.get(m.modifierName.referencedDeclaration).nodeType === 'ModifierDefinition')
            .map(m => ({ def: P.nodes.get(m.modifierName.referencedDeclaration), args: (m.arguments || []).map(a => P.expr(a)) }));
        }
        const fr = { W, E: W.E, env: {}, self: ctx.self, code: ctx.code, sender: ctx.sender, ret: null, unchecked: false, data: ctx.data };
        for (let i = 0; i < params.length; i++) fr.env[params[i].id] = P.coerce(args[i], ptypes[i]);
        for (let i = 0; i < rets.length; i++) fr.env[rets[i].id] = rtypes[i].loc === 'storage' ? null : defMemory(rtypes[i]);
        const exec = (i) => {
          if (i === mods.length) { body(fr); return; }
          const md = P.resolveModifier(fr.code, mods[i].def); const mc = P.modifier(md);
          const vals = mods[i].args.map(a => a(fr));
          mc.params.forEach((p, j) => { fr.env[p.id] = P.coerce(vals[j], P.typeOf(p)); });
          const prev = fr.hole; fr.hole = () => { const h = fr.hole; fr.hole = prev; exec(i + 1); fr.hole = h; };
          mc.body(fr);
          fr.hole = prev;
        };
        exec(0);
        if (fr.ret) return fr.ret.map((v, i) => P.coerce(v, rtypes[i]));
        return rets.map(r => fr.env[r.id]);
      };
    }
    this.fnCache.set(f.id, c);
    return c;
  },
  modifier(md) {
    if (!md.__c) md.__c = { params: md.parameters.parameters, body: null };
    if (!md.__c.body) md.__c.body = this.block(md.body);
    return md.__c;
  },
  construct(W, inst, args) {
    const c = inst.c; const l = this.lin(c); // derived first
    const ctor = b => b.nodes.find(n => n.nodeType === 'FunctionDefinition' && n.kind === 'constructor');
    const argsOf = new Map([[c.id, args]]); const frames = new Map();
    for (const b of l) {
      const k = ctor(b);
      const fr = { W, E: W.E, env: {}, self: inst, code: c, sender: W.deployer || T.ONE, ret: null };
      frames.set(b.id, fr);
      if (k) {
        const a = argsOf.get(b.id) || [];
        k.parameters.parameters.forEach((p, i) => { fr.env[p.id] = this.coerce(a[i] === undefined ? defMemory(this.typeOf(p)) : a[i], this.typeOf(p)); });
        for (const m of k.modifiers || []) { const d = this.nodes.get(m.modifierName.referencedDeclaration); if (d.nodeType === 'ContractDefinition') argsOf.set(d.id, (m.arguments || []).map(x => this.expr(x)(fr))); }
      }
      for (const s of b.baseContracts || []) if (s.arguments && s.arguments.length) argsOf.set(s.baseName.referencedDeclaration, s.arguments.map(x => this.expr(x)(fr)));
    }
    for (const b of l.slice().reverse()) {
      const fr = frames.get(b.id);
      for (const n of b.nodes) if (n.nodeType === 'VariableDeclaration' && n.stateVariable && !n.constant && n.value) {
        const v = this.expr(n.value)(fr);
        if (n.mutability === 'immutable') inst.imm.set(n.id, copyMem(v)); else this.stateLV(n)(fr).set(v);
      }
      const k = ctor(b);
      if (k && k.body) { W.E.enter(b.name + '.constructor'); this.block(k.body)(fr); }
    }
  },
  // convert a value to the data location / type of its target
  coerce(v, t) {
    if (t.loc === 'storage') return v;
    if (v instanceof Ref) v = v.get();
    if (isS(v)) return copyMem(v);
    return v;
  },
  // -------------------------------------------------------------- statements
  block(n) {
    if (n.nodeType !== 'Block' && n.nodeType !== 'UncheckedBlock') { return this.stmt(n); }
    const ss = (n.statements || []).map(s => this.stmt(s));
    if (n.nodeType === 'UncheckedBlock') return fr => {
      const u = fr.unchecked; fr.unchecked = true;
      try { for (const s of ss) { const r = s(fr); if (r) return r; } } finally { fr.unchecked = u; }
    };
    return fr => { for (let i = 0; i < ss.length; i++) { const r = ss[i](fr); if (r) return r; } };
  },
  stmt(n) {
    const P = this;
    let impl = null; // compiled on first execution
    return fr => { if (!impl) impl = P.stmt1(n); return impl(fr); };
  },
  stmt1(n) {
    const P = this;
    switch (n.nodeType) {
      case 'Block': case 'UncheckedBlock': return this.block(n);
      case 'ExpressionStatement': { const e = this.expr(n.expression); return fr => { e(fr); }; }
      case 'VariableDeclarationStatement': {
        const ds = n.declarations; const iv = n.initialValue ? this.expr(n.initialValue) : null;
        if (!iv) return fr => { for (const d of ds) { const t = P.typeOf(d); fr.env[d.id] = t.loc === 'storage' ? null : defMemory(t); } };
        if (ds.length === 1) { const t = this.typeOf(ds[0]); const ft = this.typeOf(n.initialValue); return fr => { fr.env[ds[0].id] = P.implicit(P.coerce(iv(fr), t), ft, t); }; }
        return fr => { const v = iv(fr); ds.forEach((d, i) => { if (d) fr.env[d.id] = P.coerce(v[i], P.typeOf(d)); }); };
      }
      case 'IfStatement': {
        const c = this.expr(n.condition), a = this.block(n.trueBody), b = n.falseBody ? this.block(n.falseBody) : null;
        return fr => fr.E.decide(c(fr)) ? a(fr) : b ? b(fr) : undefined;
      }
      case 'ForStatement': {
        const i = n.initializationExpression ? this.stmt(n.initializationExpression) : null, c = n.condition ? this.expr(n.condition) : null;
        const l = n.loopExpression ? this.stmt(n.loopExpression) : null, b = this.block(n.body);
        return fr => {
          if (i) i(fr);
          for (let k = 0; ; k++) {
            if (c && !fr.E.decide(c(fr))) return;
            if (k > LOOP_BOUND) fr.E.unsupported('loop bound exceeded');
            const r = b(fr);
            if (r === BREAK) return; if (r === RET) return r;
            if (l) l(fr);
          }
        };
      }
      case 'WhileStatement': case 'DoWhileStatement': {
        const c = this.expr(n.condition), b = this.block(n.body), first = n.nodeType === 'DoWhileStatement';
        return fr => {
          for (let k = 0; ; k++) {
            if (!(first && k === 0) && !fr.E.decide(c(fr))) return;
            if (k > LOOP_BOUND) fr.E.unsupported('loop bound exceeded');
            const r = b(fr); if (r === BREAK) return; if (r === RET) return r;
          }
        };
      }
      case 'Break': return () => BREAK;
      case 'Continue': return () => CONT;
      case 'Return': {
        const f = this.nodes.get(n.functionReturnParameters); const cnt = f ? f.parameters.length : 0;
        if (!n.expression) return fr => { fr.ret = null; return RET; };
        const e = this.expr(n.expression); const ft = this.typeOf(n.expression); const rts = f.parameters.map(p => this.typeOf(p));
        if (cnt > 1) return fr => { fr.ret = e(fr).map((v, i) => P.coerce(v, rts[i])); return RET; };
        return fr => { const v = e(fr); fr.ret = [P.implicit(P.coerce(v, rts[0]), ft, rts[0])]; return RET; };
      }
      case 'EmitStatement': { const name = n.eventCall.expression.name || n.eventCall.expression.memberName; const as = n.eventCall.arguments.map(a => this.expr(a)); return fr => { const vals = as.map(a => copyMem(deref(a(fr)))); fr.W.events.push({ name, args: vals, from: fr.self }); }; }
      case 'RevertStatement': { const name = errName(n.errorCall); const as = n.errorCall.arguments.map(a => this.expr(a)); return fr => { const args = as.map(a => a(fr)); throw new Revert({ kind: 'custom', name, args }); }; }
      case 'PlaceholderStatement': return fr => { fr.hole(); };
      case 'InlineAssembly': return this.assembly(n);
      case 'TryStatement': return this.tryStmt(n);
      default: throw new Error('statement ' + n.nodeType);
    }
  },
  assembly(n) {
    // the only inline assembly the framework uses re-throws returned revert data
    const names = new Set(); (function w(x) { if (!x || typeof x !== 'object') return; if (x.nodeType === 'YulFunctionCall') names.add(x.functionName.name); for (const k in x) if (k[0] !== '_') w(x[k]); })(n.AST);
    const hasRevert = names.has('revert');
    const odd = [...names].some(x => !['revert', 'mload', 'add', 'sub', 'mul'].includes(x));
    const refs = (n.externalReferences || []).map(r => r.declaration);
    if (!hasRevert || odd || !refs.length) return this.yul(n);
    return fr => { const v = deref(fr.env[refs[0]]); if (!(v instanceof B.SBytes)) fr.E.unsupported('inline assembly'); throw new Revert({ kind: 'raw', bytes: v, inner: fr.lastRevert }); };
  },
  // inline assembly over words: no memory, storage or calls
  yul(n) {
    const P = this; const ref = new Map(); for (const r of n.externalReferences || []) ref.set(r.src, r); const M = 1n << 256n; const no = (fr, w) => fr.E.unsupported('inline assembly: ' + w);
    const decl = x => { const r = ref.get(x.src); if (!r || r.isSlot || r.isOffset || r.suffix) return null; const d = P.nodes.get(r.declaration); return d && isVal(P.typeOf(d)) ? d : undefined; };
    const word = v => { v = deref(v); return v.sort === 'B' ? T.ite(v, T.ONE, T.ZERO) : v; }; const mod = t => t.op === 'int' ? T.int(((t.v % M) + M) % M) : T.mod(t, T.int(M)); const bit = c => T.ite(c, T.ONE, T.ZERO);
    const bits = (fr, op, a, b) => a.op === 'int' && b.op === 'int' ? T.int(op === 'and' ? a.v & b.v : op === 'or' ? a.v | b.v : a.v ^ b.v) : [a, b].every(x => x.lo !== null && x.hi !== null && x.lo >= 0n && x.hi <= 1n || fr.E.decide(T.le(x, T.ONE))) ? (op === 'and' ? T.mul(bit(T.eq(a, T.ONE)), b) : bit(op === 'or' ? T.or(T.eq(a, T.ONE), T.eq(b, T.ONE)) : T.ne(a, b))) : no(fr, op);
    const OPS = { add: (fr, a, b) => mod(T.add(a, b)), sub: (fr, a, b) => mod(T.sub(a, b)), mul: (fr, a, b) => mod(T.mul(a, b)), div: (fr, a, b) => fr.E.decide(T.eq(b, T.ZERO)) ? T.ZERO : T.div(a, b), mod: (fr, a, b) => fr.E.decide(T.eq(b, T.ZERO)) ? T.ZERO : T.mod(a, b), lt: (fr, a, b) => bit(T.lt(a, b)), gt: (fr, a, b) => bit(T.lt(b, a)), eq: (fr, a, b) => bit(T.eq(a, b)), iszero: (fr, a) => bit(T.eq(a, T.ZERO)), not: (fr, a) => T.sub(T.int(M - 1n), a), caller: fr => word(fr.sender), timestamp: fr => fr.W.now,
      and: (fr, a, b) => bits(fr, 'and', a, b), or: (fr, a, b) => bits(fr, 'or', a, b), xor: (fr, a, b) => bits(fr, 'xor', a, b), shl: (fr, a, b) => a.op === 'int' ? mod(T.mul(b, T.int(1n << a.v))) : no(fr, 'shl'), shr: (fr, a, b) => a.op === 'int' ? T.div(b, T.int(1n << a.v)) : no(fr, 'shr'), pop: () => T.ZERO };
    const expr = x => {
      if (x.nodeType === 'YulLiteral') { const v = x.kind === 'bool' ? BigInt(x.value === 'true') : x.kind === 'number' ? BigInt(x.value) : null; return fr => v === null ? no(fr, 'literal') : T.int(v); }
      if (x.nodeType === 'YulIdentifier') { const d = decl(x); return (fr, L) => x.name in L ? L[x.name] : d ? word(fr.env[d.id]) : no(fr, x.name); }
      const f = x.functionName.name, as = x.arguments.map(expr); return (fr, L) => { const vs = []; for (let i = as.length - 1; i >= 0; i--) vs[i] = as[i](fr, L); const r = OPS[f] ? OPS[f](fr, ...vs) : undefined; return r === undefined ? no(fr, f) : r; };
    };
    const back = (v, t) => t.k === 'bool' ? T.ne(v, T.ZERO) : v;
    const stmt = x => {
      switch (x.nodeType) {
        case 'YulBlock': { const ss = x.statements.map(stmt); return (fr, L) => { const I = Object.create(L); for (const s of ss) { const r = s(fr, I); if (r) return r; } }; }
        case 'YulExpressionStatement': { const e = expr(x.expression); return (fr, L) => { e(fr, L); }; }
        case 'YulVariableDeclaration': { const e = x.value ? expr(x.value) : null; return (fr, L) => { if (x.variables.length > 1 && e) no(fr, 'several values'); for (const v of x.variables) L[v.name] = e ? e(fr, L) : T.ZERO; }; }
        case 'YulAssignment': { const e = expr(x.value); const v = x.variableNames[0], d = decl(v); return (fr, L) => { if (x.variableNames.length > 1) no(fr, 'several values'); const r = e(fr, L); if (d) { fr.env[d.id] = back(r, P.typeOf(d)); return; } let o = L; while (o && !Object.prototype.hasOwnProperty.call(o, v.name)) o = Object.getPrototypeOf(o); if (!o) no(fr, v.name); o[v.name] = r; }; }
        case 'YulIf': { const c = expr(x.condition), b = stmt(x.body); return (fr, L) => fr.E.decide(T.ne(c(fr, L), T.ZERO)) ? b(fr, L) : undefined; }
        case 'YulSwitch': { const e = expr(x.expression); const cs = x.cases.map(c => ({ v: c.value === 'default' ? null : expr(c.value), b: stmt(c.body) })); return (fr, L) => { const v = e(fr, L); for (const c of cs) if (!c.v || fr.E.decide(T.eq(v, c.v(fr, L)))) return c.b(fr, L); }; }
        case 'YulForLoop': { const a = x.pre.statements.map(stmt), c = expr(x.condition), p = stmt(x.post), b = stmt(x.body); return (fr, L) => { const I = Object.create(L); a.forEach(s => s(fr, I)); for (let k = 0; fr.E.decide(T.ne(c(fr, I), T.ZERO)); k++) { if (k > LOOP_BOUND) fr.E.unsupported('loop bound exceeded'); const r = b(fr, I); if (r === 'break') break; if (r && r !== 'continue') return r; p(fr, I); } }; }
        case 'YulBreak': return () => 'break'; case 'YulContinue': return () => 'continue';
        default: return fr => no(fr, x.nodeType);
      }
    };
    const body = stmt(n.AST); return fr => { body(fr, Object.create(null)); };
  },
  tryStmt(n) {
    const P = this; const call = n.externalCall; const clauses = n.clauses;
    const ok = clauses[0], okBody = this.block(ok.block);
    const e = this.expr(call);
    const rest = clauses.slice(1).map(c => ({ name: c.errorName, params: c.parameters ? c.parameters.parameters : [], body: this.block(c.block) }));
    return fr => {
      let r;
      try { r = e(fr); } catch (x) {
        if (!x.solRevert) throw x;
        const d = x.data.kind === 'raw' && x.data.inner ? x.data.inner : x.data;
        const c = rest.find(c => c.name === 'Error' && d.kind === 'string') || rest.find(c => c.name === 'Panic' && d.kind === 'panic') || rest.find(c => c.name === '');
        if (!c) throw x;
        if (c.params.length) fr.env[c.params[0].id] = c.name === 'Error' ? B.lit(Buffer.from(d.msg).toString('hex')) : c.name === 'Panic' ? T.int(d.code) : P.revertBytes(x.data);
        return c.body(fr);
      }
      if (ok.parameters) { const ps = ok.parameters.parameters; const vs = ps.length > 1 ? r : [r]; ps.forEach((p, i) => { fr.env[p.id] = P.coerce(vs[i], P.typeOf(p)); }); }
      return okBody(fr);
    };
  },
  revertBytes(d) {
    if (d.kind === 'empty') return B.EMPTY;
    if (d.kind === 'raw') return d.bytes;
    if (d.kind === 'string') return B.call('Error(string):' + d.msg, [], []);
    if (d.kind === 'panic') return B.call('Panic:' + d.code, [], []);
    return B.call('custom:' + d.name, [], []);
  },
  // -------------------------------------------------------------- lvalues
  stateLV(decl) {
    const P = this; const t = this.typeOf(decl);
    if (decl.constant) return () => ({ get: () => P.constant(decl), set: () => { throw new Error('const'); } });
    if (decl.mutability === 'immutable') return fr => ({ get: () => fr.self.imm.get(decl.id), set: v => fr.self.imm.set(decl.id, v) });
    return fr => {
      const i = fr.W.cell(fr.self, fr.code, decl);
      return { get: () => fr.self.cells[i], set: v => P.assignStorage(fr.W, t, () => fr.self.cells[i], x => fr.W.setCell(fr.self, i, x), v), storage: true };
    };
  },
  // assignment into a storage slot: containers are replaced by deep copies
  assignStorage(W, t, get, put, v) { put(this.toStorage(W, t, v)); },
  toStorage(W, t, v) {
    v = deref(v);
    if (isVal(t) || t.k === 'bytes' || t.k === 'string' || t.k === 'function') return v;
    if (t.k === 'struct') { const s = new SStruct(t); t.fields.forEach((f, i) => { if (f.k !== 'mapping') s.f[i] = this.toStorage(W, f, v.f[i]); }); return s; }
    if (t.k === 'array') { const s = new SArr(t); s.items = v.items.map(x => this.toStorage(W, t.el, x)); if (t.n !== null) while (s.items.length < t.n) s.items.push(defStorage(t.el)); return s; }
    throw new Error('toStorage ' + t.k);
  },
  lv(n) {
    const P = this;
    switch (n.nodeType) {
      case 'Identifier': {
        const d = this.nodes.get(n.referencedDeclaration);
        if (d.stateVariable) return this.stateLV(d);
        const t = this.typeOf(d);
        return fr => {
          const cur = fr.env[d.id];
          return { get: () => fr.env[d.id], set: v => { fr.env[d.id] = P.coerce(v, t); } };
        };
      }
      case 'TupleExpression': {
        if (n.components.length === 1 && n.components[0]) return this.lv(n.components[0]);
        const ls = n.components.map(c => c ? this.lv(c) : null);
        return fr => { const rs = ls.map(l => l ? l(fr) : null); return { get: () => rs.map(r => r && r.get()), set: v => { rs.forEach((r, i) => { if (r) r.set(v[i]); }); } }; };
      }
      case 'MemberAccess': {
        const bt = this.typeOf(n.expression); const e = this.expr(n.expression);
        if (bt.k === 'struct') {
          const i = bt.decl.members.findIndex(m => m.name === n.memberName); const ft = this.typeOf(bt.decl.members[i]);
          return fr => { const o = e(fr); if (o === null) throw new Error('null struct'); return P.fieldLV(fr.W, o, o.f, i, ft); };
        }
        if (bt.k === 'type' || bt.k === 'contract' || bt.k === 'super') { const d = this.nodes.get(n.referencedDeclaration); if (d && d.stateVariable) return this.stateLV(d); }
        throw new Error('lvalue member ' + n.memberName);
      }
      case 'IndexAccess': {
        const bt = this.typeOf(n.baseExpression); const b = this.expr(n.baseExpression), ix = this.expr(n.indexExpression);
        if (bt.k === 'mapping') return fr => { const m = b(fr); const k = deref(ix(fr)); return mapLV(P, fr.W, m, k); };
        if (bt.k === 'array') return fr => { const a = deref(b(fr)); const i = arrIdx(fr.E, a.items, ix(fr)); return P.fieldLV(fr.W, a, a.items, i, a.el); };
        return fr => fr.E.unsupported('byte-wise access to ' + bt.k);
      }
      case 'FunctionCall': { const e = this.expr(n); return fr => { const v = e(fr); return { get: () => deref(v), set: x => v.set(x) }; }; }
      default: throw new Error('lvalue ' + n.nodeType);
    }
  },
  fieldLV(W, owner, arr, i, t) {
    const P = this;
    if (isS(owner)) return { storage: true, get: () => arr[i], set: v => { const nv = P.toStorage(W, t, v); const old = arr[i]; arr[i] = nv; W.journal.push(() => { arr[i] = old; }); } };
    return { get: () => arr[i], set: v => { arr[i] = P.coerce(v, { loc: 'memory' }); } };
  },
  // -------------------------------------------------------------- expressions
  expr(n) {
    const P = this; let impl = null;
    return fr => { if (!impl) impl = P.expr1(n); return impl(fr); };
  },
  // implicit conversion between value types (bytesN widening, literals)
  implicit(v, from, to) {
    if (to.k === 'fbytes' && v instanceof B.SBytes) return this.litToFixed(v, to.n);
    if (to.k === 'fbytes' && from.k === 'fbytes' && to.n > from.n) return T.mul(v, T.int(1n << BigInt(8 * (to.n - from.n))));
    return v;
  },
  litToFixed(v, n) { if (v.k !== 'lit') throw new Error('bytes to fixed'); return T.int(BigInt('0x' + (v.hex + '0'.repeat(2 * n)).slice(0, 2 * n) || '0x0')); },
  pure(n) {
    switch (n.nodeType) {
      case 'Identifier': return true; case 'Literal': return true;
      case 'TupleExpression': return n.components.length === 1 && this.pure(n.components[0]);
      case 'MemberAccess': { const t = this.typeOf(n.expression); return (t.k === 'struct' || t.k === 'magic' || n.memberName === 'length') && this.pure(n.expression); }
      case 'BinaryOperation': return ['==', '!=', '<', '>', '<=', '>=', '&&', '||'].includes(n.operator) && this.pure(n.leftExpression) && this.pure(n.rightExpression);
      case 'UnaryOperation': return n.operator === '!' && this.pure(n.subExpression);
      case 'FunctionCall': return n.kind === 'typeConversion' && this.pure(n.arguments[0]);
      case 'ElementaryTypeNameExpression': return true;
      default: return false;
    }
  },
  expr1(n) {
    const P = this;
    switch (n.nodeType) {
      case 'Literal': return this.literal(n);
      case 'Identifier': return this.ident(n);
      case 'TupleExpression': {
        if (n.isInlineArray) { const es = n.components.map(c => this.expr(c)); const t = this.typeOf(n); return fr => new MArr(t.el, es.map(e => deref(e(fr)))); }
        if (n.components.length === 1) return this.expr(n.components[0]);
        const es = n.components.map(c => c ? this.expr(c) : null); return fr => es.map(e => e ? e(fr) : null);
      }
      case 'UnaryOperation': return this.unary(n);
      case 'BinaryOperation': return this.binary(n);
      case 'Conditional': { const c = this.expr(n.condition), a = this.expr(n.trueExpression), b = this.expr(n.falseExpression); return fr => fr.E.decide(c(fr)) ? a(fr) : b(fr); }
      case 'Assignment': return this.assignment(n);
      case 'MemberAccess': return this.member(n);
      case 'IndexAccess': {
        if (!n.indexExpression) return () => null;
        const bt = this.typeOf(n.baseExpression);
        if (bt.k === 'type') return () => null;
        const t = this.typeOf(n);
        if (bt.k === 'mapping' || bt.k === 'array') {
          const l = this.lv(n); const asRef = (t.k === 'bytes' || t.k === 'string');
          if (asRef && bt.loc === 'storage') return fr => { const r = l(fr); return new Ref(r.get, r.set); };
          return fr => l(fr).get();
        }
        return fr => fr.E.unsupported('byte-wise access');
      }
      case 'FunctionCall': return this.call(n);
      case 'FunctionCallOptions': return this.expr(n.expression);
      case 'NewExpression': return () => null;
      case 'ElementaryTypeNameExpression': return () => null;
      default: throw new Error('expression ' + n.nodeType);
    }
  },
  literal(n) {
    if (n.kind === 'bool') { const v = T.bool(n.value === 'true'); return () => v; }
    if (n.kind === 'number') {
      let s = n.value.replace(/_/g, ''); let v;
      if (/^0x/i.test(s)) v = BigInt(s); else if (/e/i.test(s) || s.includes('.')) v = BigInt(Math.round(Number(s))); else v = BigInt(s);
      const mult = { wei: 1n, gwei: 10n ** 9n, ether: 10n ** 18n, seconds: 1n, minutes: 60n, hours: 3600n, days: 86400n, weeks: 604800n }[n.subdenomination];
      if (mult) v *= mult;
      const t = T.int(v); return () => t;
    }
    const b = B.lit(n.hexValue || ''); return () => b;
  },
  ident(n) {
    const P = this; const name = n.name; const d = this.nodes.get(n.referencedDeclaration);
    if (!d) {
      if (name === 'this') return fr => fr.self.address;
      if (name === 'now') return fr => fr.W.now;
      return () => ({ magic: name });
    }
    if (d.nodeType === 'VariableDeclaration') {
      if (d.stateVariable) {
        const l = this.stateLV(d); const t = this.typeOf(d);
        if ((t.k === 'bytes' || t.k === 'string') && !d.constant) return fr => { const r = l(fr); return new Ref(r.get, r.set); };
        return fr => l(fr).get();
      }
      if (d.constant) return () => P.constant(d);
      const id = d.id; return fr => fr.env[id];
    }
    return () => ({ decl: d });
  },
  unary(n) {
    const P = this; const t = this.typeOf(n);
    if (n.operator === '!') { const e = this.expr(n.subExpression); return fr => T.not(e(fr)); }
    if (n.operator === '-') { const e = this.expr(n.subExpression); return fr => P.wrap(fr, T.sub(T.ZERO, e(fr)), t); }
    if (n.operator === '++' || n.operator === '--') {
      const l = this.lv(n.subExpression); const s = n.operator === '++' ? T.ONE : T.int(-1);
      return fr => { const r = l(fr); const old = r.get(); const nv = P.wrap(fr, T.add(old, s), t); r.set(nv); return n.prefix ? nv : old; };
    }
    if (n.operator === 'delete') { const l = this.lv(n.subExpression); const st = this.typeOf(n.subExpression); return fr => { const r = l(fr); r.set(st.loc === 'storage' ? defStorage(st) : defMemory(st)); }; }
    if (n.operator === '~') { const e = this.expr(n.subExpression); return fr => { if (t.lo !== 0n) fr.E.unsupported('~ on signed'); return T.sub(T.int(t.hi), e(fr)); }; }
    throw new Error('unary ' + n.operator);
  },
  wrap(fr, v, t) { // range of an arithmetic result
    if (t.k === 'rational') return v;
    if (v.lo !== null && v.hi !== null && v.lo >= t.lo && v.hi <= t.hi) return v;
    if (fr.unchecked) { const m = T.int(t.hi - t.lo + 1n); return t.lo === 0n ? T.mod(v, m) : T.add(T.mod(T.sub(v, T.int(t.lo)), m), T.int(t.lo)); }
    if (!fr.E.decide(T.and(T.le(T.int(t.lo), v), T.le(v, T.int(t.hi))))) panic(0x11);
    return v;
  },
  arith(op, t) {
    const P = this;
    switch (op) {
      case '+': return (fr, a, b) => P.wrap(fr, T.add(a, b), t);
      case '-': return (fr, a, b) => P.wrap(fr, T.sub(a, b), t);
      case '*': return (fr, a, b) => P.wrap(fr, T.mul(a, b), t);
      case '/': case '%': return (fr, a, b) => {
        if (fr.E.decide(T.eq(b, T.ZERO))) panic(0x12);
        if (!(a.lo !== null && a.lo >= 0n && b.lo !== null && b.lo >= 0n)) fr.E.unsupported('signed division');
        return op === '/' ? T.div(a, b) : T.mod(a, b);
      };
      case '**': return (fr, a, b) => { if (a.op === 'int' && b.op === 'int') return P.wrap(fr, T.int(a.v ** b.v), t); return fr.E.unsupported('symbolic power'); };
      case '<<': return (fr, a, b) => { if (b.op !== 'int') fr.E.unsupported('symbolic shift'); const v = T.mul(a, T.int(1n << b.v)); return t.k === 'rational' ? v : T.mod(v, T.int(t.hi + 1n)); };
      case '>>': return (fr, a, b) => { if (b.op !== 'int') fr.E.unsupported('symbolic shift'); return T.div(a, T.int(1n << b.v)); };
      case '&': case '|': case '^': return (fr, a, b) => {
        if (a.op === 'int' && b.op === 'int') return T.int(op === '&' ? a.v & b.v : op === '|' ? a.v | b.v : a.v ^ b.v);
        if (op === '&') { for (const [x, m] of [[a, b], [b, a]]) if (m.op === 'int' && ((m.v + 1n) & m.v) === 0n) return T.mod(x, T.int(m.v + 1n)); }
        if (op === '|' && a === T.ZERO) return b; if (op === '|' && b === T.ZERO) return a;
        return fr.E.unsupported('symbolic bitwise ' + op);
      };
      default: throw new Error('op ' + op);
    }
  },
  binary(n) {
    const P = this; const op = n.operator; const a = this.expr(n.leftExpression), b = this.expr(n.rightExpression);
    if (op === '&&' || op === '||') {
      const simple = this.pure(n.rightExpression);
      const isAnd = op === '&&';
      return fr => {
        const x = a(fr);
        if (x === (isAnd ? T.FALSE : T.TRUE)) return x;
        if (x === (isAnd ? T.TRUE : T.FALSE)) return b(fr);
        if (simple) return isAnd ? T.and(x, b(fr)) : T.or(x, b(fr));
        if (isAnd) return fr.E.decide(x) ? b(fr) : T.FALSE;
        return fr.E.decide(x) ? T.TRUE : b(fr);
      };
    }
    const ct = n.commonType ? this.type(n.commonType.typeIdentifier) : null;
    const lt = this.typeOf(n.leftExpression), rt = this.typeOf(n.rightExpression);
    const conv = v => v;
    if (['==', '!=', '<', '>', '<=', '>='].includes(op)) {
      const f = { '==': T.eq, '!=': T.ne, '<': T.lt, '>': T.gt, '<=': T.le, '>=': T.ge }[op];
      return fr => { let x = deref(a(fr)), y = deref(b(fr)); if (ct) { x = P.implicit(x, lt, ct); y = P.implicit(y, rt, ct); } return f(x, y); };
    }
    const t = this.typeOf(n);
    const g = this.arith(op, t);
    return fr => { const x = a(fr); const y = b(fr); return g(fr, x, y); };
  },
  assignment(n) {
    const P = this; const r = this.expr(n.rightHandSide); const l = this.lv(n.leftHandSide); const t = this.typeOf(n.leftHandSide), ft = this.typeOf(n.rightHandSide);
    if (n.operator === '=') {
      return fr => {
        let v = r(fr);
        const ref = l(fr);
        if (!Array.isArray(v)) v = P.implicit(v, ft, t);
        ref.set(v); return n.leftHandSide.nodeType === 'TupleExpression' ? v : ref.get();
      };
    }
    const g = this.arith(n.operator.slice(0, -1), t);
    return fr => { const y = deref(r(fr)); const ref = l(fr); const nv = g(fr, ref.get(), y); ref.set(nv); return nv; };
  },
  member(n) {
    const P = this; const bt = this.typeOf(n.expression); const name = n.memberName;
    if (bt.k === 'struct') {
      const l = this.lv(n); const t = this.typeOf(n);
      if ((t.k === 'bytes' || t.k === 'string') && bt.loc === 'storage') return fr => { const r = l(fr); return new Ref(r.get, r.set); };
      return fr => l(fr).get();
    }
    const e = this.expr(n.expression);
    if (name === 'length') {
      if (bt.k === 'array') return fr => T.int(deref(e(fr)).items.length);
      if (bt.k === 'bytes' || bt.k === 'string') return fr => B.len(fr.E, deref(e(fr)));
    }
    if (bt.k === 'magic') {
      const m = n.expression.name || (n.expression.expression && n.expression.expression.name);
      if (m === 'msg' && name === 'sender') return fr => fr.sender;
      if (m === 'msg' && name === 'value') return () => T.ZERO;
      if (m === 'msg' && name === 'data') return fr => fr.data || fr.E.unsupported('msg.data');
      if (m === 'block' && name === 'timestamp') return fr => fr.W.now;
      if (m === 'block' && name === 'number') return fr => fr.W.blockNumber || (fr.W.blockNumber = T.int(1));
      if (m === 'block' && name === 'chainid') return () => T.int(1);
      if (m === 'tx' && name === 'origin') return fr => fr.W.origin || fr.sender;
      if (n.expression.nodeType === 'FunctionCall') { // type(X).max
        const tt = this.typeOf(n.expression.arguments[0]).t;
        if (name === 'max') { const v = T.int(tt.hi); return () => v; }
        if (name === 'min') { const v = T.int(tt.lo); return () => v; }
      }
      return () => ({ magic: m + '.' + name });
    }
    const d = n.referencedDeclaration ? this.nodes.get(n.referencedDeclaration) : null;
    if (bt.k === 'type') {
      if (bt.t.k === 'enum') { const i = this.nodes.get(bt.t.id).members.findIndex(m => m.name === name); return () => T.int(i); }
      if (d && d.nodeType === 'VariableDeclaration') { const l = this.stateLV(d); return fr => l(fr).get(); }
      return () => ({ decl: d, direct: true });
    }
    if (name === 'selector' && bt.k === 'function') { const fd = this.nodes.get(n.expression.referencedDeclaration); return () => T.int(BigInt('0x' + fd.functionSelector)); }
    if (bt.k === 'address' || bt.k === 'contract') {
      if (bt.k === 'address' && name === 'code') return fr => ({ codeOf: e(fr) });
      if (bt.k === 'address' && name === 'balance') return fr => fr.E.unsupported('balance');
      return fr => ({ recv: e(fr), decl: d, name });
    }
    if (bt.k === 'other' || bt.k === 'function') return fr => ({ decl: d, name });
    return fr => fr.E.unsupported('member ' + name + ' of ' + bt.k);
  },
  // ---- calls
  call(n) {
    const P = this; const ex = n.expression.nodeType === 'FunctionCallOptions' ? n.expression.expression : n.expression;
    const ft = n.expression.typeDescriptions.typeIdentifier;
    if (n.kind === 'typeConversion') return this.conversion(n);
    if (n.kind === 'structConstructorCall') {
      const t = this.typeOf(n); const members = t.decl.members.filter(m => this.typeOf(m).k !== 'mapping');
      const es = n.arguments.map(a => this.expr(a));
      const order = n.names && n.names.length ? members.map(m => n.names.indexOf(m.name)) : members.map((_, i) => i);
      return fr => { const vs = es.map(e => e(fr)); return new MStruct(t, members.map((m, i) => P.implicit(P.coerce(vs[order[i]], { loc: 'memory' }), P.typeOf(n.arguments[order[i]]), P.typeOf(m)))); };
    }
    const kind = /^t_function_([a-z0-9]+)_/.exec(ft);
    const k = kind ? kind[1] : null;
    const args = n.arguments.map(a => this.expr(a)); const atypes = n.arguments.map(a => this.typeOf(a));
    switch (k) {
      case 'require': {
        const two = n.arguments.length > 1 ? n.arguments[1] : null;
        return fr => {
          if (fr.E.decide(args[0](fr))) return;
          if (!two) throw new Revert({ kind: 'empty' });
          if (two.nodeType === 'FunctionCall' && /t_function_error/.test(two.expression.typeDescriptions.typeIdentifier)) throw new Revert({ kind: 'custom', name: errName(two), args: [] });
          const m = deref(args[1](fr)); throw new Revert(errStr(m.k === 'lit' ? Buffer.from(m.hex, 'hex').toString() : '?'));
        };
      }
      case 'assert': return fr => { if (!fr.E.decide(args[0](fr))) panic(1); };
      case 'revert': return fr => { if (!args.length) throw new Revert({ kind: 'empty' }); const m = deref(args[0](fr)); throw new Revert(errStr(m.k === 'lit' ? Buffer.from(m.hex, 'hex').toString() : '?')); };
      case 'error': return () => null;
      case 'event': return fr => { args.forEach(a => a(fr)); };
      case 'keccak256': return fr => B.keccak(fr.E, deref(args[0](fr)));
      case 'abiencode': return fr => P.encode(atypes, args.map(a => a(fr)));
      case 'abiencodepacked': return fr => B.cat(args.map((a, i) => P.packed(fr, atypes[i], deref(a(fr)))));
      case 'abiencodecall': {
        const fd = this.nodes.get(n.arguments[0].referencedDeclaration); const pts = fd.parameters.parameters.map(p => this.typeOf(p));
        return fr => { let v = args[1](fr); if (!Array.isArray(v)) v = [v]; return B.call(fd.functionSelector, pts.map(t => P.abiType(t)), v.map((x, i) => P.toAbi(pts[i], x))); };
      }
      case 'abiencodewithselector': return fr => { const s = args[0](fr); if (s.op !== 'int') fr.E.unsupported('symbolic selector'); return B.call(s.v.toString(16).padStart(8, '0'), atypes.slice(1).map(t => P.abiType(t)), args.slice(1).map((a, i) => P.toAbi(atypes[i + 1], a(fr)))); };
      case 'abiencodewithsignature': return fr => { const s = deref(args[0](fr)); const sel = P.selectorOf(Buffer.from(s.hex, 'hex').toString()); return B.call(sel, atypes.slice(1).map(t => P.abiType(t)), args.slice(1).map((a, i) => P.toAbi(atypes[i + 1], a(fr)))); };
      case 'abidecode': {
        const tn = n.arguments[1]; const ts = tn.nodeType === 'TupleExpression' ? tn.components.map(c => this.typeOf(c).t) : [this.typeOf(tn).t];
        return fr => { const r = P.decode(fr.E, ts, deref(args[0](fr))); return r.length === 1 ? r[0] : r; };
      }
      case 'bytesconcat': case 'stringconcat': return fr => B.cat(args.map((a, i) => P.packed(fr, atypes[i], deref(a(fr)))));
      case 'ecrecover': return fr => fr.E.unsupported('ecrecover');
      case 'objectcreation': {
        const t = this.typeOf(n);
        return fr => {
          const len = args[0](fr);
          if (t.k === 'bytes' || t.k === 'string') { if (len.op !== 'int') fr.E.unsupported('symbolic bytes length'); return B.lit('00'.repeat(Number(len.v))); }
          if (len.op !== 'int' || len.v > 64n) fr.E.unsupported('symbolic array length');
          const a = new MArr(t.el, []); for (let i = 0n; i < len.v; i++) a.items.push(defMemory(t.el)); return a;
        };
      }
      case 'creation': return fr => fr.E.unsupported('contract creation');
      case 'arraypush': {
        const l = this.lv(ex.expression); const at = this.typeOf(ex.expression);
        if (at.k === 'bytes') return fr => fr.E.unsupported('bytes.push');
        return fr => {
          const v = args.length ? P.toStorage(fr.W, at.el, args[0](fr)) : defStorage(at.el); const a = l(fr).get();
          a.items.push(v); fr.W.journal.push(() => { a.items.pop(); });
          if (!args.length) { const i = a.items.length - 1; return isS(v) ? v : new Ref(() => a.items[i], x => P.fieldLV(fr.W, a, a.items, i, a.el).set(x)); }
        };
      }
      case 'arraypop': { const l = this.lv(ex.expression); return fr => { const a = l(fr).get(); if (!a.items.length) panic(0x31); const v = a.items.pop(); fr.W.journal.push(() => { a.items.push(v); }); }; }
      case 'barecall': case 'baredelegatecall': case 'barestaticcall': case 'barecallcode': return this.lowLevel(n, ex, k, args);
      case 'internal': return this.internalCall(n, ex, args);
      case 'external': return this.externalCall(n, ex, args);
      case 'delegatecall': return this.internalCall(n, ex, args, true);
      case 'gasleft': return fr => fr.E.unsupported('gasleft');
      case 'metatype': return () => null;
      case 'addmod': case 'mulmod': return fr => { const m = args[2](fr); if (fr.E.decide(T.eq(m, T.ZERO))) panic(0x12); return T.mod((k === 'addmod' ? T.add : T.mul)(args[0](fr), args[1](fr)), m); };
      default:
        if (n.expression.name === 'type') return () => null;
        return fr => fr.E.unsupported('call ' + ft);
    }
  },
  selectorOf(s) { return require('/repo/node_modules/ethers').id(s).slice(2, 10); },
  packed(fr, t, v) {
    if (v instanceof B.SBytes) return v;
    if (t.k === 'bool') return B.word(T.ite(v, T.ONE, T.ZERO), 1);
    if (isVal(t)) { const w = t.k === 'address' || t.k === 'contract' ? 20 : t.k === 'fbytes' ? t.n : t.k === 'enum' ? 1 : (t.bits || 256) / 8; return B.word(v, w); }
    if (t.k === 'array') return B.cat(v.items.map(x => B.word(x.sort === 'B' ? T.ite(x, T.ONE, T.ZERO) : x, 32)));
    return fr.E.unsupported('encodePacked of ' + t.k);
  },
  conversion(n) {
    const P = this; const to = this.typeOf(n); const from = this.typeOf(n.arguments[0]); const e = this.expr(n.arguments[0]);
    return fr => {
      const v = e(fr);
      if (to.k === from.k && to.key === from.key && (to.k !== 'enum')) return v;
      if (v && v.magic === 'this') return fr.self.address;
      if (to.k === 'bytes' || to.k === 'string') { const d = deref(v); if (d instanceof B.SBytes) return v; return fr.E.unsupported('conversion to bytes'); }
      const d = deref(v);
      if (d instanceof B.SBytes) {
        if (d.k === 'lit') { if (to.k === 'fbytes') return P.litToFixed(d, to.n); return T.int('0x' + (d.hex || '0')); }
        if (d.k === 'w' && to.k === 'fbytes' && d.width === to.n) return d.t;
        return fr.E.unsupported('bytes to fixed conversion');
      }
      if (to.k === 'fbytes' && from.k === 'fbytes') {
        if (to.n === from.n) return d;
        return to.n > from.n ? T.mul(d, T.int(1n << BigInt(8 * (to.n - from.n)))) : T.div(d, T.int(1n << BigInt(8 * (from.n - to.n))));
      }
      if (to.k === 'enum') { if (!fr.E.decide(T.and(T.le(T.ZERO, d), T.le(d, T.int(to.hi))))) panic(0x21); return d; }
      if (to.hi !== undefined && to.hi !== null) {
        if (d.lo !== null && d.hi !== null && d.lo >= to.lo && d.hi <= to.hi) return d;
        const m = T.int(to.hi - to.lo + 1n);
        return to.lo === 0n ? T.mod(d, m) : T.add(T.mod(T.sub(d, T.int(to.lo)), m), T.int(to.lo));
      }
      return d;
    };
  },
  argList(n, params, args) { // named arguments
    if (!n.names || !n.names.length) return args;
    return params.map(p => args[n.names.indexOf(p.name)]);
  },
  internalCall(n, ex, args, lib = false) {
    const P = this; const bound = /bound_to|attached_to/.test(n.expression.typeDescriptions.typeIdentifier);
    const d = this.nodes.get(ex.referencedDeclaration);
    if (!d || d.nodeType !== 'FunctionDefinition') return fr => fr.E.unsupported('function value call');
    const recv = bound ? this.expr(ex.expression) : null;
    const params = bound ? d.parameters.parameters.slice(1) : d.parameters.parameters;
    const al = this.argList(n, params, args); const pts = params.map(p => this.typeOf(p)); const ats = this.argList(n, params, n.arguments.map(a => this.typeOf(a)));
    const isSuper = ex.nodeType === 'MemberAccess' && this.typeOf(ex.expression).k === 'super' || (ex.nodeType === 'MemberAccess' && ex.expression.name === 'super');
    const direct = ex.nodeType === 'MemberAccess' && !isSuper && !bound;
    const curContract = n.__contract;
    const single = d.returnParameters.parameters.length === 1;
    return fr => {
      let vals = al.map((a, i) => P.implicit(P.coerce(a(fr), pts[i]), ats[i] || pts[i], pts[i]));
      if (recv) vals.unshift(P.coerce(recv(fr), P.typeOf(d.parameters.parameters[0])));
      let f = d;
      if (isSuper) f = P.resolveSuper(fr.code, curContract, d);
      else if (!direct && d.virtual !== undefined && d.__contract) f = P.resolve(fr.code, d);
      if (!f.body) return fr.E.unsupported('abstract function ' + f.name);
      if (lib) vals = vals.map(v => isS(v) || v instanceof Ref ? v : copyMem(v));
      if (++fr.W.depth > 200) panic(0x99);
      let r;
      if (lib) { const m = fr.W.mark(); try { r = P.fn(f)(fr.W, vals, fr); } catch (e) { if (e.solRevert) fr.W.rollback(m); throw e; } finally { fr.W.depth--; } }
      else try { r = P.fn(f)(fr.W, vals, fr); } finally { fr.W.depth--; }
      return single ? r[0] : r;
    };
  },
  externalCall(n, ex, args) {
    const P = this; const d = this.nodes.get(ex.referencedDeclaration);
    const recv = this.expr(ex.expression);
    const params = d.nodeType === 'FunctionDefinition' ? d.parameters.parameters : null;
    const al = params ? this.argList(n, params, args) : args; const pts = params ? params.map(p => this.typeOf(p)) : null; const ats0 = n.arguments.map(a => this.typeOf(a)), ats = params ? this.argList(n, params, ats0) : ats0;
    const single = d.nodeType !== 'FunctionDefinition' || d.returnParameters.parameters.length === 1;
    return fr => {
      const addr = recv(fr);
      const vals = al.map((a, i) => { const v = copyMem(deref(a(fr))); return pts ? P.implicit(v, ats[i] || pts[i], pts[i]) : v; });
      const inst = fr.W.at(addr);
      if (!inst) throw new Revert({ kind: 'empty' });
      const f = P.external(inst.c, d.functionSelector);
      if (!f) throw new Revert({ kind: 'empty' });
      const r = fr.W.call(inst, f, vals, fr.self.address).map(copyMem);
      return single ? r[0] : r;
    };
  },
  lowLevel(n, ex, k, args) {
    const P = this; const recv = this.expr(ex.expression);
    return fr => {
      const addr = recv(fr); const data = deref(args[0](fr));
      const inst = fr.W.at(addr);
      if (!inst) return [T.TRUE, B.EMPTY]; // no code: the call succeeds
      let f = null, vals = null;
      const fail = d => { fr.lastRevert = d; return [T.FALSE, P.revertBytes(d)]; };
      if (data.k === 'call') {
        f = P.external(inst.c, data.sig);
      }
      if (!f) { if (P.special(inst.c, 'fallback') || (data === B.EMPTY && P.special(inst.c, 'receive'))) return fr.E.unsupported('fallback'); return fail({ kind: 'empty' }); }
      const m = fr.W.mark();
      fr.W.depth++;
      try {
        if (f.nodeType === 'FunctionDefinition') {
          const pts = f.parameters.parameters.map(p => P.typeOf(p));
          if (!abi.sameList(pts.map(t => P.abiType(t)), data.ty)) return fail({ kind: 'empty' });
          vals = pts.map((t, i) => P.fromAbi(t, data.vals[i], fr.E));
        } else vals = data.vals;
        const ctx = k === 'baredelegatecall' ? { self: fr.self, code: inst.c, sender: fr.sender, data } : { self: inst, code: inst.c, sender: fr.self.address, data };
        const r = P.run(fr.W, f, vals, ctx);
        const rts = f.nodeType === 'FunctionDefinition' ? f.returnParameters.parameters.map(p => P.typeOf(p)) : [P.typeOf(f)];
        return [T.TRUE, rts.length ? P.encode(rts, r) : B.EMPTY];
      } catch (e) { if (!e.solRevert) throw e; fr.W.rollback(m); return fail(e.data.kind === 'raw' ? e.data : e.data); }
      finally { fr.W.depth--; }
    };
  },
});
const LOOP_BOUND = 64;
function errName(c) { const e = c.expression; return e.name || e.memberName; }
function arrIdx(E, items, i) {
  if (i.op === 'int') { if (i.v < 0n || i.v >= BigInt(items.length)) panic(0x32); return Number(i.v); }
  for (let j = 0; j < items.length; j++) if (E.decide(T.eq(i, T.int(j)))) return j;
  panic(0x32);
}
function arrAt(E, items, i) { return items[arrIdx(E, items, i)]; }
function mapEntry(W, m, k) {
  const es = m.entries; const bytesKey = k instanceof B.SBytes;
  for (const e of es) if (e.k === k) return e;
  for (const e of es) if (W.E.decide(bytesKey ? B.eq(k, e.k) : T.eq(k, e.k))) return e;
  const e = { k, v: defStorage(m.t.val) }; es.push(e); return e;
}
function mapGet(W, m, k) { return mapEntry(W, m, k).v; }
function mapLV(P, W, m, k) {
  const e = mapEntry(W, m, k);
  return { storage: true, get: () => e.v, set: v => { const nv = P.toStorage(W, m.t.val, v); const old = e.v; e.v = nv; W.journal.push(() => { e.v = old; }); } };
}
// cryptographic primitives replaced by their specification
const STUBS = {
  'ECDSA.recover': (W, args) => {
    if (args.length !== 2) W.E.unsupported('ECDSA.recover with split signature');
    const r = B.recover(W.E, args[0], args[1]);
    if (!r) throw new Revert({ kind: 'custom', name: 'ECDSAInvalidSignatureLength', args: [] });
    return [r];
  },
  'ECDSA.tryRecover': (W, args) => {
    if (args.length !== 2) W.E.unsupported('ECDSA.tryRecover with split signature');
    const r = B.recover(W.E, args[0], args[1]);
    return r ? [r, T.ZERO, T.ZERO] : [T.ZERO, T.int(2), T.ZERO];
  },
};
function load(asts) { const p = new Program(asts); PROG_TYPE = id => p.type(id); return p; }
module.exports = { load, World, Revert, MStruct, MArr, SStruct, SArr, SMap, copyMem, revStr };
