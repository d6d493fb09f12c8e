'use strict';
// ABI type trees.  {k:'w', name, bits?} | {k:'bytes'} | {k:'arr', el, n|null} | {k:'tup', comps, names}
const W = (name, lo, hi, isBool = false) => ({ k: 'w', name, lo, hi, isBool });
function word(name) {
  let m;
  if (name === 'address') return W(name, 0n, (1n << 160n) - 1n);
  if (name === 'bool') return W(name, 0n, 1n, true);
  if ((m = /^uint(\d*)$/.exec(name))) return W('uint' + (m[1] || 256), 0n, (1n << BigInt(m[1] || 256)) - 1n);
  if ((m = /^int(\d*)$/.exec(name))) return W('int' + (m[1] || 256), -(1n << (BigInt(m[1] || 256) - 1n)), (1n << (BigInt(m[1] || 256) - 1n)) - 1n);
  if ((m = /^bytes(\d+)$/.exec(name))) return W(name, 0n, (1n << 256n) - 1n);
  return null;
}
const BYTES = { k: 'bytes', name: 'bytes' }, STRING = { k: 'bytes', name: 'string' };
const arr = (el, n = null) => ({ k: 'arr', el, n });
const tup = (comps, names) => ({ k: 'tup', comps, names: names || comps.map((_, i) => '' + i) });
// layout key: words are words, string = bytes
function key(t) {
  if (t.k === 'w') return 'w'; if (t.k === 'bytes') return 'b';
  if (t.k === 'arr') return key(t.el) + '[' + (t.n === null ? '' : t.n) + ']';
  return '(' + t.comps.map(key).join(',') + ')';
}
function canon(t) {
  if (t.k === 'w' || t.k === 'bytes') return t.name;
  if (t.k === 'arr') return canon(t.el) + '[' + (t.n === null ? '' : t.n) + ']';
  return '(' + t.comps.map(canon).join(',') + ')';
}
const same = (a, b) => key(a) === key(b);
const sameList = (a, b) => a.length === b.length && a.every((x, i) => same(x, b[i]));
module.exports = { word, BYTES, STRING, arr, tup, key, canon, same, sameList };
