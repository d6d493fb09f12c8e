'use strict';
// Loads the current TypeScript sources, instrumented or as they are.
const fs = require('fs'), path = require('path'), Module = require('module');
const { compile } = require('./instrument');
const REPO = process.env.VERIF_REPO || '/repo';
const cache = { sym: new Map(), conc: new Map() };
const builtin = new Set(Module.builtinModules);
function locate(base) { for (const s of ['', '.ts', '.js', '/index.ts', '/index.js']) { try { if (fs.statSync(base + s).isFile()) return base + s; } catch {} } return null; }
function resolve(id, from) {
  if (id.startsWith('@/')) return locate(path.join(REPO, 'src', id.slice(2)));
  if (id === '@typechain-types' || id.startsWith('@typechain-types/')) return null;
  if (id.startsWith('.')) return locate(path.join(path.dirname(from), id));
  return null;
}
const GLOBALS = ['$', 'Map', 'Set', 'Number', 'BigInt', 'String', 'Boolean', 'Math', 'JSON', 'parseInt', 'parseFloat', 'isNaN', 'isFinite', 'Date', 'setTimeout', 'clearTimeout', 'setInterval', 'clearInterval', 'setImmediate', 'console', 'queueMicrotask', 'process', 'RTCIceCandidate', 'WebSocket', 'window', 'global', 'globalThis'];
function wrapper(file, mode) {
  let w = cache[mode].get(file);
  if (!w) {
    const rel = path.relative(REPO, file); const src = fs.readFileSync(file, 'utf8');
    const js = file.endsWith('.ts') ? compile(src, rel, mode === 'sym' ? rel.replace(/^src\//, '') : null) : src;
    w = new Function('exports', 'require', 'module', '__filename', '__dirname', ...GLOBALS, js + '\n//# sourceURL=verif-' + mode + '/' + rel); cache[mode].set(file, w);
  }
  return w;
}
// an object that stands for a package which is not modelled
function dummy(name) {
  const f = function () {}; 
  return new Proxy(f, { get(t, k) { if (k === '__esModule') return true; if (k === 'default') return class Stub {}; if (typeof k === 'symbol' || k === 'then') return undefined; if (k === 'prototype') return f.prototype; return class Stub { constructor() { this.stub = name; } }; } });
}
// a module world: one set of module instances
class World {
  constructor(mode, globals, stubs = {}) { this.mode = mode; const own = Object.create(globalThis, Object.fromEntries(Object.entries(globals).filter(([k]) => k !== '$').map(([k, value]) => [k, { value, writable: true, enumerable: true, configurable: true }]))); this.globals = { ...globals, global: own, globalThis: own }; this.stubs = stubs; this.mods = new Map(); this.files = new Set(); }
  global(name, v) { this.globals[name] = v; Object.defineProperty(this.globals.global, name, { value: v, writable: true, configurable: true }); } // what the host provides, to be given before anything is loaded
  load(id, from = path.join(REPO, 'src', 'x.ts')) {
    if (id in this.stubs) return this.stubs[id];
    const file = resolve(id, from);
    if (file) {
      const rel = path.relative(path.join(REPO, 'src'), file); if (rel in this.stubs) return this.stubs[rel];
      let m = this.mods.get(file); if (m) return m.exports;
      m = { exports: {}, id: file }; this.mods.set(file, m); this.files.add(rel);
      wrapper(file, this.mode).call(m.exports, m.exports, x => this.load(x, file), m, file, path.dirname(file), ...GLOBALS.map(g => this.globals[g]));
      return m.exports;
    }
    if (builtin.has(id.replace(/^node:/, ''))) return require(id);
    return dummy(id);
  }
}
module.exports = { World, REPO };
