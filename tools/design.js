'use strict';
// fills the generated parts of DESIGN.md from properties, checks, findings and planted bugs
const fs = require('fs'), D = __dirname + '/..'; const props = fs.readFileSync(D + '/properties.jsonl', 'utf8').trim().split('\n').map(JSON.parse); const na = require('./na.json');
const one = p => { const f = `${D}/checks/${p.id}.js`; const head = `**${p.id} ${p.title}.** `; if (!fs.existsSync(f)) return `* ${head}Not applicable: ${na[p.id]}`;
  const c = require(f); const jobs = ['quick', 'thorough'].map(t => c.jobs(t).length); const b = Object.entries(c.bounds).map(([k, v]) => `${k.replace(/_/g, ' ')}: ${Array.isArray(v) ? v.join(', ') : v}`).join('; ');
  return `* ${head}Decided by ${jobs[0]} jobs (${jobs[1]} in the thorough tier) over: ${b}. Outside: ${(c.outside || []).join('; ') || 'nothing further'}.`; };
const K = JSON.parse(fs.readFileSync(D + '/known-findings.json', 'utf8')).findings;
const find = K.map(f => f.status === 'fixed' ? `* ${f.property}, ${f.commit}: ${f.what}.` : `* ${f.property}, **not repaired**: ${f.what || f.title || f.id}`).join('\n');
const seeds = d => fs.existsSync(`${D}/${d}`) ? fs.readdirSync(`${D}/${d}`).sort().map(s => { const m = JSON.parse(fs.readFileSync(`${D}/${d}/${s}/meta.json`, 'utf8')); return `* \`${s}\` (caught by ${m.property}): ${m.what_it_breaks}`; }).join('\n') : '';
let t = fs.readFileSync(D + '/DESIGN.md', 'utf8');
const put = (name, text) => { const a = `<!-- ${name} -->`, z = `<!-- /${name} -->`; const i = t.indexOf(a), j = t.indexOf(z); if (i < 0 || j < 0) throw new Error(name); t = t.slice(0, i + a.length) + '\n' + text + '\n' + t.slice(j); };
put('properties', props.map(one).join('\n')); put('findings', find); put('seeded', seeds('seeded')); put('seeded-solidity', seeds('seeded-solidity'));
fs.writeFileSync(D + '/DESIGN.md', t);
