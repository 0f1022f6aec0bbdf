#!/usr/bin/env node
'use strict';
// regenerates properties.jsonl and MANIFEST.json from tool/meta/*.js
const fs = require('fs'), path = require('path'); const R = path.resolve(__dirname, '../..');
const ex = f => fs.existsSync(path.join(__dirname, f)) ? require('./' + f) : [];
const props = ex('contracts.js').concat(ex('client.js')), na = ex('na.js');
const line = p => ({ id: p.id, title: p.title, statement: p.statement, quantifier: p.quantifier, why_tests_cant: p.why, anchors: { files: p.files, mechanism: p.mech.map(([name, where]) => ({ name, where })) } });
for (const p of props.concat(na)) { if (p.title.length > 80) throw new Error(p.id + ' title too long ' + p.title.length); for (const f of p.files) if (!fs.existsSync(path.join('/repo', f))) throw new Error(p.id + ' ' + f); }
fs.writeFileSync(path.join(R, 'properties.jsonl'), props.map(line).concat(na.map(line)).map(x => JSON.stringify(x)).join('\n') + '\n');
const man = { version: 1, setup_cmd: 'true', checks: props.map(p => ({ property: p.id, quick_cmd: `node tool/run.js ${p.id}`, thorough_cmd: `node tool/run.js ${p.id}`, technique: p.technique, level: p.level, level_note: p.note })), not_applicable: na.map(p => ({ property: p.id, reason: p.reason })), notes: 'All checks are static: they parse and type-check the current sources of /repo (solc and TypeScript from its node_modules) and never execute them.' };
fs.writeFileSync(path.join(R, 'MANIFEST.json'), JSON.stringify(man, null, 1) + '\n');
console.log(props.length + ' claimed, ' + na.length + ' not applicable');
