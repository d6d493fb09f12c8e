'use strict';
// nothing to build: everything runs from source.  Verifies the tools the checks use.
const cp = require('child_process');
for (const [c, a] of [['z3', ['--version']], ['node', ['--version']]]) { const r = cp.spawnSync(c, a, { encoding: 'utf8' }); if (r.status !== 0) { console.error('missing ' + c); process.exit(1); } console.log(r.stdout.trim()); }
for (const m of ['typescript', 'ethers', 'solc', '@ethereumjs/evm']) console.log(m, require.resolve(m, { paths: [process.env.VERIF_REPO || '/repo'] }));
