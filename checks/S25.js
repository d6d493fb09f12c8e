'use strict';
const { T, B } = require('../sol/lib');
// sequences of k operations; identifiers are symbolic and distinct
function job(k, first) {
  return { name: `${k} operations, starting with ${first}`, weight: 2 ** k, samples: 3, run(X) {
    X.setup({ times: null }); const L = X.W.deploy(X.prog.contract('DoubleLinkedList')); let list = []; const all = [];
    const call = (f, a) => X.W.tx(X.P[0], L, f, a);
    const check = () => {
      const len = X.must(call('length', [])).ret[0]; X.check(T.eq(len, T.int(list.length)), 'the length is the number of elements');
      for (let i = 0; i < list.length; i++) {
        const r = call('getAtIndex', [T.int(i)]); X.check(T.bool(r.ok), 'every index below the length can be read'); if (!r.ok) return; const n = X.obj(r.ret[0]);
        X.check(T.and(T.eq(n.data.tableId, list[i]), T.eq(n.uniquePtr, list[i])), 'walking the list yields its elements in order');
        X.check(T.and(T.eq(n.next, i + 1 < list.length ? list[i + 1] : T.ZERO), T.eq(n.prev, i > 0 ? list[i - 1] : T.ZERO)), 'neighbours are linked both ways');
        const g = X.obj(X.must(call('getNode', [list[i]])).ret[0]); X.check(T.eq(g.data.tableId, list[i]), 'an element is found by its identifier');
      }
      const r = call('getAtIndex', [X.u('index', (1n << 256n) - 1n, BigInt(list.length))]); X.check(T.bool(!r.ok), 'an index beyond the end is refused');
      for (const x of all) if (!list.includes(x)) { const g = X.obj(X.must(call('getNode', [x])).ret[0]); X.check(T.eq(g.uniquePtr, T.ZERO), 'a removed element is gone'); }
    };
    for (let i = 0; i < k; i++) {
      const op = i < first.length ? first[i] : X.E.choose(list.length + 2 - (list.length === 0 ? 1 : 0), 'op' + i);
      if (op === 0) { const reuse = all.filter(x => !list.includes(x)); const id = reuse.length && X.E.choose(2, 'reuse') ? reuse[0] : X.b32('id' + i); X.E.assume(T.and(T.ne(id, T.ZERO), ...all.filter(x => x !== id).map(x => T.ne(x, id)))); X.must(call('addFront', [X.v('NodeData', { tableId: id })])); list.unshift(id); if (!all.includes(id)) all.push(id); }
      else if (op === 1) { const r = call('removeFront', []); X.check(T.bool(r.ok), 'the front can be removed'); if (!r.ok) return; list.shift(); }
      else { const j = op - 2; const r = call('removeNode', [list[j]]); X.check(T.bool(r.ok), 'a present element can be removed'); if (!r.ok) return; list.splice(j, 1); }
      if (list.length === 0) X.E.reach('emptied'); else X.E.reach('elements ' + list.length);
      if (i === k - 1 || i % 2 === 1) check();
    }
  } };
}
module.exports = { id: 'S25', contracts: [['contracts/common/DoubleLinkedList.sol', 'DoubleLinkedList'], ['verif/Harness.sol', 'HarnessStateMachine'], ['verif/Harness.sol', 'HarnessManager'], ['contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol', 'DisputeManagerFacet'], ['contracts/V1/StateChannelDiamondProxy/StateChannelUtilLibrary.sol', 'StateChannelUtilLibrary']],
  bounds: { operations: 'all sequences of up to 6 (7 thorough) operations', words: 'all distinct non-zero identifiers' }, outside: ['removing elements that are not in the list, identifiers already present or zero'], mustReach: ['emptied', 'elements 3', 'elements 4'],
  jobs: tier => { const a = []; const n = tier === 'thorough' ? 7 : 6; for (const f of [[0, 0, 0], [0, 0, 1], [0, 0, 2], [0, 0, 3], [0, 1, 0], [0, 2, 0]]) a.push(job(n, f)); a.push(job(n + 1, [0, 0, 0, 0])); return a; } };
