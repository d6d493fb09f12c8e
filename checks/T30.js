'use strict';
const job = (name, run, o) => ({ kind: 'ts', name, run, samples: 4, ...o });
const READS = ['getState', 'getNextToWrite', 'getParticipants'];
const ERRORS = ['0x', '0x12345678', '0x08c379a0' + '00'.repeat(31) + '20' + '00'.repeat(31) + '02' + '6e6f' + '00'.repeat(30)];
const LOGS = [[], [['11', '0xaa01', '12']], [['22', '0xbad0'], ['33', '0xaa02'], ['ee', '0xaa03'], ['11', '0xaa04']]]; // one that cannot be decoded, one that is no event of the machine
// The machine contract in an EVM whose calls share one journal: of calls that overlap one may undo what another did, unless all of them only read.
function machine(X, specOf) {
  const M = { cur: X.blob('start'), busy: [], waiting: [], table: [], overlap: false }; const coder = () => X.eth.AbiCoder.defaultAbiCoder(); const bytes = h => X.eth.getBytes(h);
  M.contractInterface = { encodeFunctionData(name, args = []) { M.table.push({ name, args }); return '0xc0de' + M.table.length.toString(16).padStart(4, '0'); }, parseLog(l) { const d = l.data; if (d === '0xbad0') throw new Error('unknown event'); return l.topics[0] === '0x' + 'ee'.repeat(32) ? null : { name: 'Event', args: X.eth.Result.fromItems([l.topics[0], d, l.topics[1]], ['topic', 'data', 'more']) }; } };
  const called = data => { const h = X.eth.hexlify(data); return typeof h === 'string' && h.startsWith('0xc0de') ? M.table[parseInt(h.slice(6), 16) - 1] : { name: 'view', args: [h] }; };
  M.evm = { async runCall(o) {
    const { name, args } = called(o.data), still = o.isStatic === true; const s = specOf(name, args); const me = { reads: READS.includes(name) }; if (M.busy.some(b => !b.reads || !me.reads)) M.overlap = true;
    M.busy.push(me); const d = X.deferred(); M.waiting.push(d.resolve); await d.promise; M.busy.splice(M.busy.indexOf(me), 1);
    if (s.broken) throw new Error('engine failure'); const out = (v, types) => ({ execResult: { returnValue: bytes(types ? coder().encode(types, [v]) : v), logs: s.logs ? LOGS[s.logs].map(([t, x, more]) => [null, [t, ...(more ? [more] : [])].map(q => bytes('0x' + q.repeat(32))), bytes(x)]) : [] } });
    const moves = name === 'stateTransition' || name === 'view' && X.is(s.moves); if ((still && (moves || name === 'setState')) || !X.is(s.ok)) return { execResult: { exceptionError: { error: 'revert' }, returnValue: bytes(ERRORS[s.how]), logs: [] } };
    if (name === 'setState') { M.cur = args[0]; return out('0x'); } if (name === 'getState') return out(M.cur, ['bytes']); if (name === 'getNextToWrite') return out(s.value, ['address']); if (name === 'getParticipants') return out(s.value, ['address[]']);
    if (moves) M.cur = s.next; return out(name === 'view' ? s.result : '0x' + '00'.repeat(31) + '01');
  } };
  M.finish = async () => { for (let n = 0; n < 60; n++) { await X.pump(1); if (!M.waiting.length) return; M.waiting.shift()(); } };
  return M;
}
const OPS = ['setState', 'stateTransition', 'view', ...READS];
module.exports = {
  id: 'T30', level: 'model_checking',
  bounds: { calls: '2 (thorough: 3) machine calls of any kind, each started before or after the ones before end, then a reading of the state', outcomes: 'every transition and view succeeds, is refused with error data of three kinds, or fails inside the engine; a transition, and a view unless it is called statically, may move the state anywhere', events: '0..4 per transition, some not decodable' },
  outside: ['the EVM library itself (T29)', 'setting a state or reading the machine fails'],
  mustReach: ['moved', 'refused', 'view', 'view that would move', 'started while another runs', 'events', 'engine failed'],
  jobs: tier => {
    const scenario = kinds => async X => {
      X.stub('utils/DebugProxy.ts', { DebugProxy: { createProxy: o => o } }); const wanted = []; let no = 0;
      const mk = key => { const i = no++; const s = { key, ok: true, how: 0 }; if (key === 'getNextToWrite') s.value = X.addr('turn' + i); if (key === 'getParticipants') s.value = Array.from({ length: X.choose(3, 'participants') }, (_, j) => X.addr(`part${i}.${j}`)); return s; };
      const specOf = (name, args) => { const s = wanted.find(q => q.key === name && !q.taken && (q.arg === undefined || q.arg === args[0])); if (s) { s.taken = true; return s; } X.check(name !== 'stateTransition' && name !== 'view', 'a call runs once'); return mk(name); };
      const M = machine(X, specOf); const Executer = X.load('@/evm/ContractExecuter').default, Evm = X.load('@/evm/EvmStateMachine').default; const sm = new Evm(new Executer(M.evm, 'the machine'), M.contractInterface); const emitted = []; sm.setP2pContractInstance({ emit: (...a) => { emitted.push(a); return true; } });
      let expect = M.cur; const start = key => {
        const s = mk(key); const r = { key, s, before: expect }; wanted.push(s);
        if (key === 'stateTransition' || key === 'view') { const k = X.choose(5, 'outcome'); if (k === 0) s.ok = true; else if (k === 4) s.broken = true; else { s.ok = false; s.how = k - 1; } s.next = X.blob('next' + no); r.ok = k === 0; }
        let p; if (key === 'setState') { s.arg = X.blob('set' + no); p = sm.setState(s.arg); expect = s.arg; }
        else if (key === 'stateTransition') { s.arg = { tx: no }; s.logs = r.ok ? X.choose(LOGS.length, 'events') : 0; p = sm.stateTransition(s.arg); if (r.ok) expect = s.next; }
        else if (key === 'view') { s.moves = X.bool('moves' + no); s.result = X.blob('result' + no); p = sm.runView({ data: X.blob('call' + no) }); }
        else p = sm[key]();
        r.p = X.tryAsync(() => p); return r;
      };
      const runs = []; for (const [i, key] of kinds.entries()) { if (i) { if (X.choose(2, 'wait for the ones before')) await M.finish(); else X.reach('started while another runs'); } runs.push(start(key)); if (i + 1 < kinds.length && X.choose(2, 'settle')) await X.pump(1); }
      await M.finish(); runs.push(start('getState')); await M.finish(); for (const r of runs) r.got = await r.p;
      X.check(!M.overlap, 'calls that may change the machine do not overlap with others');
      for (const { key, s, before, got: g, ok } of runs) {
        X.obs(key, g.ok); if (key === 'setState') X.check(g.ok, 'setting a state works');
        if (key === 'getState') X.check(g.ok && X.eq(g.value, before), 'the state read is the one of the calls before');
        if (key === 'getNextToWrite') X.check(g.ok && X.eq(g.value, s.value), 'who is next is what the machine says');
        if (key === 'getParticipants') X.check(g.ok && g.value.length === s.value.length && X.and(...s.value.map((v, j) => X.eq(g.value[j], v))), 'the participants are those of the machine');
        if (key === 'view') { X.reach('view'); if (!ok) X.check(!g.ok, 'a failing view is reported'); else if (X.is(s.moves)) X.reach('view that would move'); else X.check(g.ok && X.eq(g.value, s.result), 'a view gives the result of the machine'); }
        if (key === 'stateTransition') {
          X.check(g.ok && g.value.success === ok, 'a transition reports whether it ran'); X.reach(s.broken ? 'engine failed' : ok ? 'moved' : 'refused'); X.check(emitted.length === 0, 'no event is shown before the transition counts');
          X.check(X.try(() => g.value.successCallback()).ok, 'showing events does not fail'); const want = ok ? LOGS[s.logs].filter(([t, d]) => t !== 'ee' && d !== '0xbad0') : [];
          X.check(emitted.length === want.length && emitted.every((e, j) => e[0] === 'Event' && e[1] === '0x' + want[j][0].repeat(32) && e[2] === want[j][1] && e[3] === (want[j][2] && '0x' + want[j][2].repeat(32))), 'exactly the events of a transition that ran are shown, in order'); if (want.length) X.reach('events'); emitted.length = 0;
        }
      }
    };
    const jobs = []; const go = (...kinds) => jobs.push(job(kinds.join(', '), scenario(kinds), { weight: kinds.length }));
    for (const a of OPS) for (const b of OPS) if (tier !== 'thorough') go(a, b); else for (const c of OPS) go(a, b, c);
    return jobs;
  },
};
