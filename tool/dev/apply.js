'use strict';
// development aid: node apply.js <battery.js> <id> <dir>: scratch copy of the sources with that edit applied
const fs = require('fs'), path = require('path');
const b = require(path.resolve(process.argv[2])).find(x => x.id === process.argv[3]), w = process.argv[4], SRC = '/repo';
fs.rmSync(w, { recursive: true, force: true }); fs.mkdirSync(w, { recursive: true });
for (const d of ['contracts', 'src', 'typechain-types', 'package.json', 'tsconfig.json', 'hardhat.config.ts']) if (fs.existsSync(path.join(SRC, d))) fs.cpSync(path.join(SRC, d), path.join(w, d), { recursive: true });
fs.symlinkSync(path.join(SRC, 'node_modules'), path.join(w, 'node_modules'));
for (const [from, to, file] of b.edits) { const f = path.join(w, file || b.file); const s = fs.readFileSync(f, 'utf8'); if (!s.includes(from)) throw new Error('not found: ' + from); fs.writeFileSync(f, s.replace(from, () => to)); }
