'use strict';
const job = (name, run, o) => ({ kind: 'ts', name, run, samples: 4, ...o });
module.exports = {
  id: 'T24', level: 'model_checking',
  bounds: { schedule: 'every sequence of 7 (thorough: 10) requests and releases by users who release what they hold, with or without letting other work run in between' },
  outside: ['releasing a lock one does not hold', 'longer schedules'],
  mustReach: ['waits', 'handed over', 'free again'],
  jobs: tier => [0, 1].map(first => job(first ? 'settling between steps' : 'steps at once', async X => {
    const { Mutex } = X.load('@/utils'); const m = new Mutex(); const STEPS = tier === 'thorough' ? 10 : 7;
    const asked = [], granted = [], released = []; let extra = 0;
    for (let i = 0; i < STEPS; i++) {
      const holder = granted.length > released.length;
      const op = X.is(X.bool('release' + i));
      if (op) { if (!holder) continue; released.push(granted[released.length]); m.unlock(); }
      else { const id = asked.length; asked.push(id); const p = m.lock(); X.check(p && typeof p.then === 'function', 'requesting the lock gives something to wait for'); p.then(() => { if (granted.includes(id)) extra++; granted.push(id); }); }
      if (first || X.is(X.bool('settle' + i))) await X.pump();
      X.check(granted.length <= released.length + 1, 'at most one holder at any time');
    }
    await X.pump();
    X.check(extra === 0, 'a request is granted once'); X.check(granted.every((g, i) => g === i), 'requests are granted in order of arrival');
    X.check(granted.length === Math.min(asked.length, released.length + 1), 'the next waiter gets the lock as soon as it is released, and only then');
    X.obs('granted', granted.length); if (granted.length < asked.length) X.reach('waits'); if (granted.length > 1) X.reach('handed over');
    // everybody gets it in the end
    for (let k = 0; k < asked.length && granted.length > released.length; k++) { released.push(granted[released.length]); m.unlock(); await X.pump(); X.check(granted.length <= released.length + 1, 'at most one holder at any time'); }
    X.check(granted.length === asked.length && granted.every((g, i) => g === i), 'everybody gets the lock in the end');
    let again = false; m.lock().then(() => { again = true; }); await X.pump(); X.check(again, 'a lock that everybody released is free'); X.reach('free again');
    X.obs('total', granted.length);
  })),
};
