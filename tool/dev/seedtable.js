// prints the table of planted changes for DESIGN.md: each was seen to be caught by the check of its property (tool/dev/full.sh)
const fs = require('fs'), path = require('path'), D = path.join(__dirname, '../../seeded');
console.log('| planted change | needs | breaks | caught by |\n|---|---|---|---|');
const l = s => s.replace(/\|/g, '/');
for (const d of fs.readdirSync(D).sort()) { const m = JSON.parse(fs.readFileSync(path.join(D, d, 'meta.json'))); console.log(`| ${d} | ${l(m.needs)} | ${l(m.what_it_breaks)} | ${m.property} |`); }
