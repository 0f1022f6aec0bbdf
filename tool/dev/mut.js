#!/usr/bin/env node
'use strict';
// development aid: apply small edits to scratch copies of the sources and run checks on them
//   node tool/dev/mut.js <battery.js> [filter]
// battery: [{id, file, edits:[[from,to],...], props:[...], quiet?:true}]
const fs = require('fs'), path = require('path'), os = require('os'), { spawn } = require('child_process');
const bat = require(path.resolve(process.argv[2])), filter = process.argv.slice(3).join('|');
const R = path.resolve(__dirname, '../..'), SRC = '/repo';
function copy(dst) {
  fs.mkdirSync(dst);
  for (const d of ['contracts', 'src', 'typechain-types', 'package.json', 'tsconfig.json', 'hardhat.config.ts']) if (fs.existsSync(path.join(SRC, d))) fs.cpSync(path.join(SRC, d), path.join(dst, d), { recursive: true });
  fs.symlinkSync(path.join(SRC, 'node_modules'), path.join(dst, 'node_modules'));
}
const jobs = bat.filter(b => !filter || new RegExp(filter).test(b.id));
let i = 0, bad = 0; const slots = Number(process.env.J || 7);
async function one(b) {
  const d = fs.mkdtempSync(path.join(os.tmpdir(), 'mut-')); const w = path.join(d, 'r'); copy(w);
  try {
    for (const [from, to, file] of b.edits) {
      const f = path.join(w, file || b.file); let s = fs.readFileSync(f, 'utf8');
      const n = s.split(from).length - 1;
      if (n < 1) { console.log(`?? ${b.id}: text not found: ${from.slice(0, 60)}`); bad++; return; }
      s = b.all ? s.split(from).join(to) : s.replace(from, () => to); fs.writeFileSync(f, s);
    }
    const hit = [], quiet = [], err = [];
    if (b.quiet) b.props = [b.props.join(' ')];
    for (const p of b.props) {
      const r = await new Promise(res => { const c = spawn('node', [path.join(R, 'tool/run.js'), ...p.split(' ')], { env: Object.assign({}, process.env, { VERIF_REPO: w, VERIF_EVIDENCE: path.join(d, 'ev') }) }); let o = ''; c.stdout.on('data', x => o += x); c.stderr.on('data', x => o += x); c.on('close', rc => res({ rc, o })); });
      (r.rc === 1 ? hit : r.rc === 0 ? quiet : err).push(b.quiet && r.rc === 1 ? [...new Set([...r.o.matchAll(/VIOLATION property=(\w+)/g)].map(m => m[1]))].join('+') : p);
      if (r.rc === 2) console.log(`   ${b.id}/${p}: ${r.o.split('\n').filter(l => /rror/.test(l))[0] || r.o.slice(0, 200)}`);
      if (b.quiet && r.rc === 1) console.log(r.o.split('\n').filter(l => / -- /.test(l)).filter((l, i, a) => a.indexOf(l) === i).slice(0, Number(process.env.LINES || 3)).map(x => '     ' + x.slice(0, Number(process.env.WIDTH || 400))).join('\n'));
    }
    const ok = err.length === 0 && (b.quiet ? hit.length === 0 : hit.length > 0);
    if (!ok) bad++;
    console.log(`${ok ? 'ok ' : 'BAD'} ${b.id}${b.quiet ? ' (quiet)' : ''} hit=${hit} quiet=${b.quiet ? quiet.length : quiet} err=${err}`);
  } finally { fs.rmSync(d, { recursive: true, force: true }); }
}
(async () => { await Promise.all(Array.from({ length: slots }, async () => { while (i < jobs.length) await one(jobs[i++]); })); console.log(`${jobs.length} edits, ${bad} unexpected`); })();
