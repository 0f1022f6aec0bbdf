'use strict';
// Obligation bookkeeping, evidence, known findings.
const fs = require('fs'), path = require('path');
const ROOT = path.resolve(__dirname, '..');
class Report {
  constructor(id) { this.id = id; this.obs = []; this.t0 = Date.now(); this.analysed = new Set(); this.assume = []; this.notes = new Set(); this.seen = new Map(); }
  // key: stable identity of the obligation (no line numbers); where: file:line of the construct
  ob(key, ok, where, rule, detail) {
    const o = { key, ok: !!ok, where: where || '', rule: rule || '', detail: detail || '' };
    this.obs.push(o); return o.ok;
  }
  fn(name) { this.analysed.add(name); }
  assumption(s) { if (!this.assume.includes(s)) this.assume.push(s); }
  // instance floor: the analysis must have found at least n instances of something
  floor(key, n, min, what) { return this.ob('floor:' + key, n >= min, '', `at least ${min} ${what}`, `${n} found`); }
}
function knownFindings() {
  const f = path.join(ROOT, 'known-findings.txt'); const m = new Map();
  if (!fs.existsSync(f)) return m;
  for (const l of fs.readFileSync(f, 'utf8').split('\n')) {
    const x = /^known: property=(\S+) key=(\S+)\s+(.*)$/.exec(l.trim());
    if (x) m.set(x[1] + ' ' + x[2], x[3]);
  }
  return m;
}
function finish(rep, meta) {
  const tier = process.env.VERIF_TIER === 'thorough' ? 'thorough' : 'quick';
  const seed = Number(process.env.VERIF_SEED || 1) | 0;
  const known = knownFindings();
  const bad = rep.obs.filter(o => !o.ok);
  const kf = [], viol = [];
  for (const b of bad) (known.has(rep.id + ' ' + b.key) ? kf : viol).push(b);
  const cov = {
    obligations: rep.obs.length, discharged: rep.obs.length - bad.length,
    checker_cmd: `node tool/run.js ${rep.id}`,
    trusted_base: meta.trusted || [],
    rule: meta.rule || '',
    functions_analysed: [...rep.analysed].sort(),
    samples: rep.obs.slice(0, 12).map(o => ({ key: o.key, rule: o.rule, where: o.where, ok: o.ok, detail: String(o.detail).slice(0, 300) })),
  };
  if (meta.level === 'other') cov.explanation = meta.rule;
  const ev = { property: rep.id, tier, seed, level: meta.level || 'proof', coverage: cov, assumptions: (meta.assumptions || []).concat(rep.assume), wall_s: (Date.now() - rep.t0) / 1000 };
  if (viol.length || kf.length) ev.violations = viol.concat(kf).map(o => ({ key: o.key, rule: o.rule, where: o.where, detail: String(o.detail).slice(0, 1500), known: kf.includes(o) }));
  const dir = process.env.VERIF_EVIDENCE || path.join(ROOT, 'evidence'); fs.mkdirSync(dir, { recursive: true });
  fs.writeFileSync(path.join(dir, rep.id + '.json'), JSON.stringify(ev, null, 1) + '\n');
  const seen = new Set();
  for (const k of kf) { if (seen.has(k.key)) continue; seen.add(k.key); console.log(`KNOWN-FINDING: property=${rep.id} ${known.get(rep.id + ' ' + k.key)}`); }
  if (viol.length) {
    const rp = path.join(dir, rep.id + '.violation.json');
    fs.writeFileSync(rp, JSON.stringify(viol, null, 1) + '\n');
    for (const v of viol.slice(0, 10)) console.log(`  ${v.where}: ${v.rule} -- ${v.key}${v.detail ? ' -- ' + String(v.detail).slice(0, +(process.env.FW || 600)) : ''}`);
    console.log(`VIOLATION property=${rep.id} replay=evidence/${rep.id}.violation.json`);
    return 1;
  }
  console.log(`${rep.id}: ${rep.obs.length} obligations discharged (${rep.analysed.size} functions analysed)`);
  return 0;
}
module.exports = { Report, finish, ROOT };
