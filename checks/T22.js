'use strict';
const job = (name, run, o) => ({ kind: 'ts', name, run, samples: 4, ...o });
// the chain and the local clock as the node sees them while synchronising
function world(X, rounds, young) {
  const seen = []; X.nowMs = X.num('start', 1n << 42n); const sec = () => X.floor(X.div(X.nowMs, 1000)); let cur = null;
  const provider = {
    async getBlock(tag) {
      if (tag === 'latest') {
        const n = seen.length; cur = { before: sec(), ts: X.num('chain time' + n), number: young ? X.num('number' + n, 99n) : X.num('number' + n, 1n << 30n, 100n) };
        if (n) { const p = seen[n - 1]; X.assume(X.and(X.ge(cur.ts, p.ts), X.ge(cur.number, p.number))); }
        cur.past = young ? cur.ts : X.num('earlier chain time' + n); X.assume(X.le(cur.past, cur.ts)); cur.est = young ? 0 : X.div(X.sub(cur.ts, cur.past), 100);
        X.nowMs = X.add(X.nowMs, X.num('answer takes' + n, 1n << 20n)); cur.after = sec(); seen.push(cur);
        if (seen.length === rounds) X.assume(X.or(X.eq(cur.est, 0), X.le(X.sub(cur.ts, X.add(cur.before, seen.offset())), X.mul(2, cur.est)))); // synchronised at last
        if (seen.length > rounds) X.assume(false);
        return { timestamp: cur.ts, number: cur.number };
      }
      if (X.is(X.eq(tag, cur.number))) return { timestamp: cur.ts, number: tag };
      return { timestamp: X.is(X.eq(tag, X.sub(cur.number, 100))) ? cur.past : X.num('other block'), number: tag };
    },
  };
  return { provider, seen, sec };
}
module.exports = {
  id: 'T22', level: 'model_checking',
  bounds: { measurements: '1..3 (thorough: 4) rounds until the node is in step', values: 'all chain times, earlier chain times, block numbers, local clock readings and answer delays arbitrary' },
  outside: ['chains that go back in time', 'more rounds of measurement', 'a local clock that is stepped back'],
  mustReach: ['behind', 'in step', 'no estimate', 'jumped'],
  jobs: tier => {
    const jobs = [];
    for (const young of [false, true]) for (let r = 1; r <= (young ? 1 : tier === 'thorough' ? 4 : 3); r++) jobs.push(job(`${young ? 'young' : 'grown'} chain, ${r} rounds`, async X => {
      const Clock = X.load('@/Clock').default; const { provider, seen, sec } = world(X, r, young); seen.offset = () => X.sub(Clock.getTimeInSeconds(), sec());
      // the offset in force before each measurement is read through the public time
      await Clock.init(provider); const now = Clock.getTimeInSeconds(); const off = X.sub(now, sec()); X.obs('offset', off);
      const last = seen[seen.length - 1];
      const none = X.eq(last.est, 0);
      if (X.is(none)) {
        X.reach('no estimate'); X.check(X.and(X.ge(off, X.sub(last.ts, last.after)), X.le(off, X.sub(last.ts, last.before))), 'without an estimate of the block time the clock is set to the chain time');
      } else {
        X.check(X.le(X.sub(last.ts, now), X.mul(2, last.est)), 'the clock is never behind the chain by more than two average block times');
      }
      if (!young) X.check(X.or(X.is(none) ? true : false, X.ge(off, 0)), 'with an estimate the local clock is only ever moved forward');
      X.check(X.or(X.and(X.not(none), X.eq(off, 0)), ...seen.map(s => X.le(off, X.sub(s.ts, s.before)))), 'the clock never runs ahead of both the local clock and the measured chain time');
      if (seen.length === 1 && !X.is(none)) { X.check(X.or(X.eq(off, 0), X.gt(X.sub(last.ts, last.before), X.mul(2, last.est))), 'a clock that is in step is left alone'); X.reach(X.is(X.eq(off, 0)) ? 'in step' : 'behind'); }
      if (seen.length > 1) X.reach('behind');
      // afterwards it follows the local clock
      X.nowMs = X.add(X.nowMs, X.num('later', 1n << 36n)); X.check(X.eq(Clock.getTimeInSeconds(), X.add(sec(), off)), 'afterwards the clock follows the local clock with a fixed offset');
    }));
    // a chain that runs in step with the local clock, but for one jump while it is measured
    jobs.push(job('steady chain with one jump', async X => {
      const Clock = X.load('@/Clock').default; X.nowMs = X.num('start', 1n << 42n); const sec = () => X.floor(X.div(X.nowMs, 1000)); const lead = X.num('lead'), jump = X.num('jump'), est = X.num('block time', 1n << 20n, 1n), n = X.num('number', 1n << 30n, 100n), when = 1 + X.choose(2, 'jumps before'); let asked = 0;
      const now = () => X.add(sec(), X.add(lead, asked > when ? jump : 0)); let latest;
      const r = await X.tryAsync(() => Clock.init({ async getBlock(tag) { if (tag === 'latest') { if (++asked > 6) return null; latest = now(); return { timestamp: latest, number: n }; } return { timestamp: X.sub(latest, X.mul(100, est)), number: tag }; } }));
      X.obs('ok', r.ok); X.check(r.ok, 'synchronising with a steady chain ends'); if (!r.ok) return; const off = X.sub(Clock.getTimeInSeconds(), sec()); X.obs('offset', off);
      X.check(X.le(X.sub(latest, Clock.getTimeInSeconds()), X.mul(2, est)), 'the clock is in step with a steady chain'); X.check(X.and(X.ge(off, 0), X.or(X.eq(off, 0), X.le(off, X.sub(latest, sec())))), 'the clock is never ahead of a steady chain'); if (asked > 2) X.reach('jumped');
    }));
    jobs.push(job('no answer', async X => {
      const Clock = X.load('@/Clock').default; X.nowMs = X.num('start', 1n << 42n); const which = X.choose(2, 'missing');
      const t = X.num('time'), p = X.num('past'); const r = await X.tryAsync(() => Clock.init({ async getBlock(tag) { if (tag === 'latest') return which === 0 ? null : { timestamp: t, number: 500 }; return null; } }));
      X.obs('ok', r.ok); X.check(!r.ok, 'synchronising fails when the chain does not answer');
    }));
    jobs.push(job('before synchronising', async X => { const Clock = X.load('@/Clock').default; X.nowMs = X.num('start', 1n << 42n); const r = X.try(() => Clock.getTimeInSeconds()); X.check(!r.ok, 'there is no channel time before the clock is synchronised'); X.obs('ok', r.ok); }));
    return jobs;
  },
};
