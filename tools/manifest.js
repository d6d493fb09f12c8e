'use strict';
// regenerates MANIFEST.json from checks/ and properties.jsonl
const fs = require('fs'), path = require('path'); const D = path.join(__dirname, '..');
const props = fs.readFileSync(D + '/properties.jsonl', 'utf8').trim().split('\n').map(JSON.parse);
const na = require('./na.json');
const checks = [], not = [];
for (const p of props) {
  const f = `${D}/checks/${p.id}.js`;
  if (!fs.existsSync(f)) { not.push({ property: p.id, reason: na[p.id] || 'No encoding of the code this property depends on has been built yet.' }); continue; }
  const c = require(f); const ts = c.jobs('quick').some(j => j.kind === 'ts');
  checks.push({
    property: p.id, quick_cmd: `node run.js ${p.id}`, thorough_cmd: `VERIF_TIER=thorough node run.js ${p.id}`,
    technique: ts ? 'symbolic execution of the instrumented TypeScript sources with Z3; counterexamples replayed on the uninstrumented code' : 'symbolic execution of the Solidity sources (solc AST) with Z3; counterexamples replayed on a real EVM',
    level: 'model_checking',
    level_note: `Every value within the bounds (${Object.entries(c.bounds).map(([k, v]) => `${k}: ${v}`).join('; ')}) is decided by the solver. Trusts: the interpreter or instrumentation (sampled paths are re-run on the real code), Z3, idealised hashing and signatures. Outside: ${(c.outside || []).join('; ') || 'nothing further'}.`,
  });
}
fs.writeFileSync(D + '/MANIFEST.json', JSON.stringify({ version: 1, setup_cmd: 'node tools/setup.js', checks, not_applicable: not, notes: 'See DESIGN.md.' }, null, 1) + '\n');
console.log(checks.length, 'checks,', not.length, 'not applicable');
