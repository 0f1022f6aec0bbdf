#!/usr/bin/env node
'use strict';
// node tool/run.js <property id> : decide one property from the current source of /repo
const { Report, finish } = require('./report');
const fs = require('fs'), path = require('path');
process.stdout.on('error', () => {});
const ids = process.argv.slice(2);
let rc = 0;
for (const id of ids) {
  let mod;
  for (const f of fs.readdirSync(path.join(__dirname, 'rules')).sort()) { if (!/^[CT]\w*\.js$/.test(f)) continue; const m = require('./rules/' + f); if (m.rules && m.rules[id]) { mod = m.rules[id]; break; } }
  if (!mod) { console.error('no rule for ' + id); process.exit(2); }
  const rep = new Report(id);
  try { mod.run(rep); } catch (e) {
    if (!e.broken) { console.error(e.stack); process.exit(2); }
    rep.ob(e.broken.key, false, e.broken.where, e.broken.rule, e.broken.detail); // what the rules build on does not hold
  }
  rc = Math.max(rc, finish(rep, mod));
}
process.exitCode = rc;
