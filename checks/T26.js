'use strict';
// Set helpers against their mathematical definition, element by element.
const N = { quick: 3, thorough: 4 };
const job = (name, n, run) => ({ kind: 'ts', name, run, samples: 4 });
module.exports = {
  id: 'T26', level: 'model_checking',
  bounds: { set_sizes: 'all pairs of sets with up to 3 (thorough: 4) elements each, all equalities between elements' },
  outside: ['sets with more elements', 'elements other than numbers and addresses'],
  mustReach: ['union', 'difference', 'subset'],
  jobs: tier => {
    const n = N[tier]; const jobs = [];
    const elems = (X, l, k, kind) => Array.from({ length: k }, (_, i) => kind ? X.addr(l + i) : X.num(l + i));
    const isIn = (X, x, l) => X.or(...l.map(y => X.eq(x, y)));
    const sets = (X, kind) => {
      const a = elems(X, 'a', X.choose(n + 1, 'size a'), kind), b = elems(X, 'b', X.choose(n + 1, 'size b'), kind);
      const S = X.load('@/utils/set'); const mk = l => S.fromArray(l); const A = mk(a), B = mk(b);
      return { S, a, b, A, B, before: [[...A], [...B]] };
    };
    const unchanged = (X, s) => { X.check(X.and(X.same([...s.A], s.before[0]), X.same([...s.B], s.before[1])), 'the operands are not modified'); };
    const exact = (X, r, all, want, what) => {
      const l = [...r];
      for (const x of all) X.check(X.iff(isIn(X, x, l), want(x)), what + ': an element is in the result exactly if the definition says so');
      for (const x of l) X.check(isIn(X, x, all), what + ': nothing foreign is in the result');
      for (let i = 0; i < l.length; i++) for (let j = 0; j < i; j++) X.check(X.not(X.eq(l[i], l[j])), what + ': no element twice');
      X.check(r.has === undefined || true, what); X.obs(what, l);
    };
    for (const kind of [0, 1]) {
      const k = kind ? ' of addresses' : ' of numbers';
      jobs.push(job('union and difference' + k, n, async X => {
        const s = sets(X, kind); const all = [...s.a, ...s.b]; const op = X.choose(4, 'op');
        if (op === 0) { X.reach('union'); exact(X, s.S.union(s.A, s.B), all, () => true, 'union'); }
        if (op === 1) exact(X, s.S.intersection(s.A, s.B), all, x => X.and(isIn(X, x, s.a), isIn(X, x, s.b)), 'intersection');
        if (op === 2) { X.reach('difference'); exact(X, s.S.difference(s.A, s.B), all, x => X.and(isIn(X, x, s.a), X.not(isIn(X, x, s.b))), 'difference'); }
        if (op === 3) exact(X, s.S.symmetricDifference(s.A, s.B), all, x => X.not(X.and(isIn(X, x, s.a), isIn(X, x, s.b))), 'symmetric difference');
        unchanged(X, s);
      }));
      jobs.push(job('subset' + k, n, async X => {
        const s = sets(X, kind); X.reach('subset');
        const sub = X.and(...s.a.map(x => isIn(X, x, s.b))), sup = X.and(...s.b.map(x => isIn(X, x, s.a)));
        X.check(X.iff(X.obs('subset', s.S.isSubset(s.A, s.B)), sub), 'subset test'); X.check(X.iff(X.obs('superset', s.S.isSuperset(s.A, s.B)), sup), 'superset test');
        unchanged(X, s);
      }));
    }
    jobs.push(job('arrays', n, async X => {
      const S = X.load('@/utils/set'); const a = elems(X, 'a', X.choose(n + 1, 'size a'), 1), b = elems(X, 'b', X.choose(n + 1, 'size b'), 1);
      const bs = S.stringSetFromArray(b); const r = S.excludeFromArray(a, bs);
      const want = a.filter(x => !X.is(isIn(X, x, b))); X.check(X.same(r, want), 'exclusion keeps exactly the elements outside, in order');
      const arr = S.toArray(bs); X.check(X.and(...b.map(x => isIn(X, x, arr)), ...arr.map(x => isIn(X, x, b))), 'conversion keeps the elements'); X.obs('r', r);
    }));
    return jobs;
  },
};
