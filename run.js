'use strict';
// node run.js <PROPERTY>            run the check for a property
// node run.js --replay <file>       run a reported counterexample on the real code
const fs = require('fs'), path = require('path'), os = require('os'), cp = require('child_process');
const HERE = __dirname;
const tier = process.env.VERIF_TIER === 'thorough' ? 'thorough' : 'quick';
const seed = parseInt(process.env.VERIF_SEED || '1', 10) || 1;
const knownFile = path.join(HERE, 'known-findings.json');
const knownList = fs.existsSync(knownFile) ? JSON.parse(fs.readFileSync(knownFile, 'utf8')).findings : [];
const MAXMS = tier === 'thorough' ? 3000000 : 780000;

function loadCheck(id) { return require(path.join(HERE, 'checks', id + '.js')); }

// ------------------------------------------------------------------ worker
async function worker() {
  const { Engine } = require('./engine/dse');
  const state = {};
  process.on('message', async m => {
    if (m.quit) process.exit(0);
    const out = { idx: m.idx };
    try {
      if (m.compile) {
        const C = require('./sol/compile');
        fs.writeFileSync(m.file, JSON.stringify(C.bytecode(m.compile)));
      } else {
        const check = loadCheck(m.id); const job = check.jobs(tier)[m.idx];
        Object.assign(out, await runJob(Engine, check, job, m, state));
      }
    } catch (e) { out.error = e && e.stack || String(e); }
    process.send(out);
  });
}
async function runJob(Engine, check, job, m, state) {
  const t0 = Date.now();
  const E = new Engine({ ...(job.engine || {}), timeoutMs: job.timeoutMs || 60000 });
  const res = { name: job.name };
  let mk;
  const needAst = job.kind !== 'ts' || job.sol || job.ast;
  if (needAst && !state.prog) { const I = require('./sol/interp'); state.prog = I.load(JSON.parse(fs.readFileSync(m.ast, 'utf8'))); }
  if (job.kind === 'ts') { const L = require('./ts/lib'); mk = await L.prepare(job, m, state, known(null, check)); }
  else {
    const S = require('./sol/lib');
    mk = { scenario: E => { const X = new S.Ctx(state.prog, E, { tier: m.tier }); E.X = X; X.known = known(E, check); return job.run(X); }, plan: E => { const ev = t => E.evalTerm(t); return E.concretise(ev); } };
  }
  let n = 0, nextSample = 1; res.plans = []; res.samples = [];
  try {
    const r = await E.explore(mk.scenario, {
      maxMs: job.maxMs || MAXMS, settle: mk.settle, onError: mk.onError, onPath: async (E, out) => {
        n++;
        if (n >= nextSample && res.plans.length < (job.samples === undefined ? 4 : job.samples)) {
          nextSample = n * 3;
          if (E.solver.checkSat() === 'sat' && mk.plan) { try { const p = mk.plan(E); if (p) res.plans.push(p); } catch (e) { res.planError = e.stack; } }
        }
      },
    });
    res.violations = r.violations;
  } catch (e) { if (!e.engineAbort) { res.error = e.stack; } else res.inconclusive = e.message; }
  res.stats = { ...E.stats, queries: E.solver.queries, solverMs: E.solver.timeMs, unknowns: E.solver.unknowns };
  res.functions = [...E.functions]; res.reached = [...E.reached]; res.known = E.known; res.ms = Date.now() - t0;
  if (mk.finish) Object.assign(res, await mk.finish(E, res) || {});
  E.close();
  return res;
}
function known(E, check) { return (id, when) => knownList.some(k => k.id === id && k.property === check.id && k.status !== 'fixed') ? [{ id, when }] : []; }

// ------------------------------------------------------------------ master
async function main(id) {
  const t0 = Date.now(); const check = loadCheck(id);
  const jobs = check.jobs(tier);
  const dir = fs.mkdtempSync(path.join(os.tmpdir(), 'verif-' + id + '-'));
  const cleanup = () => { try { fs.rmSync(dir, { recursive: true, force: true }); } catch {} };
  process.on('exit', cleanup);
  const ast = path.join(dir, 'ast.json');
  const needCode = jobs.some(j => j.kind !== 'ts' || j.sol), needSol = needCode || jobs.some(j => j.ast);
  const filter = process.env.VERIF_JOB;
  if (needSol) { try { require('./sol/compile').asts(ast); } catch (e) { return broken(id, 'contracts do not compile: ' + e.message, t0); } }
  const list = jobs.map((j, i) => i).filter(i => !filter || jobs[i].name.includes(filter)).sort((a, b) => (jobs[b].weight || 1) - (jobs[a].weight || 1));
  const results = []; const codeFile = path.join(dir, 'code.json'); let codeReady = false;
  const DEF = [['verif/Harness.sol', 'HarnessStateMachine'], ['verif/Harness.sol', 'HarnessManager'], ['contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol', 'DisputeManagerFacet'], ['contracts/V1/StateChannelDiamondProxy/StateChannelUtilLibrary.sol', 'StateChannelUtilLibrary']];
  const contracts = (check.contracts || DEF).map(([src, name]) => ({ src, name }));
  const queue = list.map(i => ({ idx: i, id, tier, ast }));
  if (needCode && check.replayable !== false) queue.unshift({ idx: -1, compile: contracts, file: codeFile });
  let firstViolation = false;
  await new Promise(resolve => {
    const N = Math.min(parseInt(process.env.VERIF_WORKERS || '8', 10), queue.length); let live = 0;
    const done = () => { if (live === 0) resolve(); };
    for (let k = 0; k < N; k++) {
      const w = cp.fork(__filename, ['--worker'], { stdio: ['ignore', 'inherit', 'inherit', 'ipc'], execArgv: ['--max-old-space-size=3500', '--stack-size=4000'], env: { ...process.env, VERIF_TIER: tier } });
      live++; let cur = null;
      const next = () => { cur = queue.shift(); if (!cur || (firstViolation && cur.idx >= 0)) { cur = null; w.send({ quit: true }); } else w.send(cur); };
      w.on('message', r => { if (r.idx === -1) { if (r.error) results.push({ name: 'compile', error: r.error }); else codeReady = true; } else { results.push(r); if (process.env.VERIF_VERBOSE) console.error(`[${id}] ${r.name}: ${r.error || r.inconclusive || ''} paths=${r.stats && r.stats.paths} queries=${r.stats && r.stats.queries} solver=${r.stats && Math.round(r.stats.solverMs)}ms wall=${r.ms}ms viol=${r.violations && r.violations.length}`); if (r.violations && r.violations.length) firstViolation = true; } next(); });
      w.on('exit', c => { live--; if (cur) results.push({ name: jobs[cur.idx] && jobs[cur.idx].name, error: 'worker died ' + c }); done(); });
      next();
    }
    if (N === 0) resolve();
  });
  // ---- replay of counterexamples and of sampled paths on the real code
  const viol = []; let validated = 0; const problems = []; const sampleOut = [];
  const code = codeReady ? JSON.parse(fs.readFileSync(codeFile, 'utf8')) : null;
  const { replay } = require('./sol/replay');
  for (const r of results) {
    if (r.error) problems.push(`${r.name}: ${r.error}`);
    if (r.inconclusive) problems.push(`${r.name}: ${r.inconclusive}`);
    if (r.planError) problems.push(`${r.name}: trace: ${r.planError}`);
    for (const v of r.violations || []) {
      const rec = { property: id, job: r.name, message: v.msg, labels: v.labels, extra: v.extra, cex: v.cex };
      if (v.cex && v.cex.error) { problems.push(`${r.name}: ${v.msg}: counterexample could not be built: ${v.cex.error}`); continue; }
      if (v.cex && v.cex.steps) {
        try { rec.replayed = await replay(v.cex, code); } catch (e) { problems.push(`${r.name}: ${v.msg}: replay failed: ${e.stack}`); continue; }
        if (!rec.replayed.agree) { problems.push(`${r.name}: ${v.msg}: counterexample does not replay: ${JSON.stringify(rec.replayed.mismatches).slice(0, 1500)}`); continue; }
      }
      if (v.cex && v.cex.ts) {
        if (!v.cex.ts.agree && !v.cex.steps) { problems.push(`${r.name}: ${v.msg}: counterexample does not replay: ${JSON.stringify(v.cex.ts).slice(0, 1500)}`); continue; }
        if (!v.cex.steps) rec.replayed = v.cex.ts;
      }
      viol.push(rec);
    }
    for (const p of r.plans || []) {
      if (p.steps) {
        if (!code) continue;
        try { const x = await replay(p, code); if (x.agree) validated++; else problems.push(`${r.name}: a predicted path disagrees with the EVM: ${JSON.stringify(x.mismatches).slice(0, 1500)}`); if (x.agree && sampleOut.length < 3) sampleOut.push({ job: r.name, steps: p.steps.map(s => s.deploy ? 'deploy ' + s.deploy : `${s.name} from ${s.from} at ${s.now}: ${s.ok ? 'ok' : 'reverts ' + s.why}`) }); }
        catch (e) { problems.push(`${r.name}: validation run failed: ${e.stack}`); }
      }
      if (p.ts) { if (p.ts.agree) validated++; else problems.push(`${r.name}: a predicted path disagrees with a concrete run: ${JSON.stringify(p.ts).slice(0, 1500)}`); if (sampleOut.length < 3 && p.sample) sampleOut.push(p.sample); }
    }
  }
  const sum = k => results.reduce((a, r) => a + ((r.stats && r.stats[k]) || 0), 0);
  const functions = {}; const reached = {}; const knownSeen = new Map();
  for (const r of results) { for (const [f, c] of r.functions || []) functions[f] = (functions[f] || 0) + c; for (const [l, c] of r.reached || []) reached[l] = (reached[l] || 0) + c; for (const k of r.known || []) knownSeen.set(k.id, k.msg); }
  if (!viol.length && !filter) for (const l of check.mustReach || []) if (!reached[l]) problems.push('never reached: ' + l);
  const ev = {
    property: id, tier, seed, level: check.level || 'model_checking',
    coverage: {
      states: sum('decisions') + sum('paths'), transitions: sum('branches') * 2 + sum('forced'), traces_validated_against_impl: validated,
      samples: sampleOut.length ? sampleOut : [{ note: 'no path sampled' }],
      scenarios: results.map(r => ({ name: r.name, paths: r.stats && r.stats.paths, branches: r.stats && r.stats.branches, assertions: r.stats && r.stats.checks, queries: r.stats && r.stats.queries, solver_s: r.stats && +(r.stats.solverMs / 1000).toFixed(2), wall_s: +((r.ms || 0) / 1000).toFixed(1), inconclusive: r.inconclusive || r.error || undefined })),
      paths: sum('paths'), infeasible_paths: sum('infeasible'), assertions_checked: sum('checks'), assertions_decided_by_simplification: sum('trivialChecks'), assertions_discharged_by_solver: sum('checksUnsat'), queries_discharged: sum('queries'), solver_time_s: +(sum('solverMs') / 1000).toFixed(2), solver_unknowns: sum('unknowns'),
      functions_encoded: Object.keys(functions).sort(), bounds: check.bounds, outside_bounds: check.outside || [], reached, known_findings: [...knownSeen.keys()],
    },
    assumptions: (check.assumptions || []).concat(BASE(jobs)), wall_s: +((Date.now() - t0) / 1000).toFixed(1), violations: viol.length,
  };
  if (problems.length) ev.coverage.problems = problems;
  fs.mkdirSync(path.join(HERE, 'evidence'), { recursive: true });
  fs.writeFileSync(path.join(HERE, 'evidence', id + '.json'), JSON.stringify(ev, null, 1));
  for (const [k, msg] of knownSeen) { const f = knownList.find(x => x.id === k); console.log(`KNOWN-FINDING: property=${id} ${f ? f.what : msg}`); }
  for (const p of problems) console.error(`[${id}] problem: ${p}`);
  if (viol.length) {
    fs.mkdirSync(path.join(HERE, 'evidence', 'replays'), { recursive: true });
    viol.forEach((v, i) => {
      const f = path.join(HERE, 'evidence', 'replays', `${id}-${i}.json`);
      fs.writeFileSync(f, JSON.stringify(v, (k, x) => typeof x === 'bigint' ? x.toString() : x, 1));
      console.log(`${v.job}: ${v.message}`);
      console.log(`VIOLATION property=${id} replay=${f}`);
    });
    return 1;
  }
  if (problems.length) { console.log(`${id}: no answer (${problems.length} problems)`); return 3; }
  console.log(`${id}: held on ${sum('paths')} paths, ${sum('checks')} assertions, ${sum('queries')} queries, ${validated} traces validated, ${ev.wall_s}s`);
  return 0;
}
function BASE(jobs) {
  const a = ['Hash functions are collision free and acyclic; signatures are unforgeable and recovering one over another message yields an address nobody owns.'];
  if (jobs.some(j => j.kind !== 'ts')) a.push('Gas limits, ether transfers and memory exhaustion are not modelled; byte strings that are neither canonical ABI encodings (plus optional trailing bytes) nor selected opaque blobs are outside the encoding.');
  if (jobs.some(j => j.kind === 'ts')) a.push('JavaScript runs natively with symbolic integers, booleans and byte strings substituted at the inputs; ethers is replaced by its specification over the same symbolic byte strings.');
  return a;
}
function broken(id, why, t0) {
  fs.mkdirSync(path.join(HERE, 'evidence'), { recursive: true });
  fs.writeFileSync(path.join(HERE, 'evidence', id + '.json'), JSON.stringify({ property: id, tier, seed, level: 'model_checking', coverage: { states: 0, transitions: 0, traces_validated_against_impl: 0, samples: [{ note: why.slice(0, 500) }] }, wall_s: (Date.now() - t0) / 1000, violations: 0 }));
  console.error(why); return 3;
}
async function replayFile(f) {
  const v = JSON.parse(fs.readFileSync(f, 'utf8')); console.log(`${v.property}: ${v.message}`);
  if (v.cex && v.cex.steps) {
    const C = require('./sol/compile'); const m = new Map();
    const asts = C.asts(); const I = require('./sol/interp'); const prog = I.load(asts); const R = require('./sol/replay');
    const r = await R.replay(v.cex, C.bytecode(R.needs(prog, v.cex)));
    v.cex.steps.forEach((s, i) => console.log(s.deploy ? `deploy ${s.deploy}` : `${s.name} from ${s.from} at ${s.now}: ${r.results[i].ok ? 'ok ' + r.results[i].ret : 'reverted'}`));
    console.log(r.agree ? 'The real contracts behave as predicted.' : 'MISMATCH ' + JSON.stringify(r.mismatches));
    return r.agree ? 1 : 3;
  }
  console.log(JSON.stringify(v.replayed || v.cex, null, 1)); return 1;
}
if (process.argv[2] === '--worker') worker();
else if (process.argv[2] === '--replay') replayFile(process.argv[3]).then(c => { process.exitCode = c; });
else main(process.argv[2]).then(c => { process.exit(c); }, e => { console.error(e); process.exit(3); });
