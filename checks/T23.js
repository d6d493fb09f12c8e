'use strict';
const job = (name, run, o) => ({ kind: 'ts', name, run, samples: 4, ...o });
module.exports = {
  id: 'T23', level: 'model_checking',
  bounds: { retries: 'the configured maximum arbitrary in 0..4 (thorough: 6)', outcomes: 'every attempt succeeds or fails arbitrarily, immediately or after a while, by exception or rejection, with or without a reason (undefined, null, 0, empty)', values: 'results, errors and delays arbitrary; backoff factor 1..3 or the default' },
  outside: ['a negative or fractional maximum', 'an operation that never ends', 'an onRetry callback that throws'],
  mustReach: ['succeeds', 'gives up', 'waits', 'no wait'],
  jobs: tier => {
    const MAX = tier === 'thorough' ? 6 : 4; const jobs = [];
    for (const shape of ['plain', 'delay', 'backoff', 'backoff default', 'no reason']) jobs.push(job(shape, async X => {
      const { retry } = X.load('@/utils'); const plain = shape === 'plain' || shape === 'no reason'; const max = X.num('maxRetries', BigInt(MAX)); const cfg = { maxRetries: max }; const withCb = X.choose(2, 'callback');
      const delay = plain ? 0 : X.num('delay'); if (!plain) cfg.delayMs = delay; const factor = shape === 'backoff' ? 1 + X.choose(3, 'factor') : 2;
      if (shape.startsWith('backoff')) { cfg.useExponentialBackoff = true; if (shape === 'backoff') cfg.backoffFactor = factor; }
      const cb = []; if (withCb) cfg.onRetry = (n, e) => { cb.push([n, e]); };
      const odd = shape === 'no reason' ? 1 + X.choose(4, 'failure') : 0; const tries = []; let running = 0, state = null;
      const op = () => {
        const i = tries.length; X.check(X.le(i, max), 'an operation is attempted at most once more than the configured number of retries'); X.check(running === 0, 'attempts do not overlap');
        X.check(!tries.some(t => t.ok), 'nothing is attempted after a success');
        const ok = X.is(X.bool('succeeds' + i)), t = { ok, v: X.num('value' + i) }; t.e = ok ? undefined : odd ? [undefined, null, 0, ''][odd - 1] : t; tries.push(t); const how = X.choose(2, 'how' + i);
        if (ok) { if (how === 0) return Promise.resolve(t.v); running++; return X.pump().then(() => { running--; return t.v; }); }
        if (how === 0) throw t.e; running++; return X.pump().then(() => { running--; throw t.e; });
      };
      const p = retry(op, cfg).then(v => { state = { ok: true, v }; }, e => { if (X.abortive(e)) { X.pendingAbort = e; return; } state = { ok: false, e }; });
      const waits = [];
      for (let k = 0; k < 2 * MAX + 6 && !state; k++) {
        await X.pump(2); if (X.pendingAbort) throw X.pendingAbort; const live = X.liveTimers(); X.check(live.length <= 1, 'at most one delay is pending');
        if (live.length) { const n = tries.length; waits.push([n, live[0].delay]); X.nowMs = X.add(X.nowMs, live[0].delay); X.fire(live[0]); }
      }
      if (X.pendingAbort) throw X.pendingAbort;
      X.check(state !== null, 'a retried operation ends'); X.obs('attempts', tries.length); X.obs('ok', state.ok);
      const last = tries[tries.length - 1]; X.check(tries.length > 0, 'at least one attempt is made');
      if (state.ok) { X.reach('succeeds'); X.check(last.ok && X.is(X.eq(state.v, last.v)), 'the result of the first success is returned'); }
      else { X.reach('gives up'); X.check(!last.ok && state.e === last.e, 'the failure reported is the one of the last attempt'); X.check(X.eq(tries.length, X.add(max, 1)), 'failure is reported only after the last attempt'); }
      const failed = tries.length - 1; // attempts that were followed by another one
      if (withCb) { X.check(cb.length === failed, 'the caller is told about every retry'); cb.forEach(([n, e], i) => X.check(n === i + 1 && e === tries[i].e, 'and is told which attempt failed and why')); }
      if (plain || X.is(X.eq(delay, 0))) { X.check(waits.length === 0, 'without a delay nothing waits'); X.reach('no wait'); }
      else { if (failed) X.reach('waits'); X.check(waits.length === failed, 'there is one delay before every retry'); waits.forEach(([n, d], i) => X.check(X.and(n === i + 1, X.eq(d, X.mul(delay, shape.startsWith('backoff') ? factor ** i : 1))), 'the delay is the configured one, growing by the factor with every retry when asked to')); }
    }));
    return jobs;
  },
};
