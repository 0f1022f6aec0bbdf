#!/usr/bin/env node
'use strict';
// development aid: systematic small changes of the client's sources; lists those no check reports
//   node tool/dev/mutate.js OUT.jsonl [fileRegex]      env J = parallel runs, ONLY = operator regex
// Each line: {file, line, op, from, to, tc (type-checks), rc, hit}. Survivors are triaged by hand.
const fs = require('fs'), path = require('path'), os = require('os'), { spawn } = require('child_process');
const ts = require('/repo/node_modules/typescript'), K = ts.SyntaxKind;
const R = path.resolve(__dirname, '../..'), SRC = '/repo';
const out = process.argv[2], filter = new RegExp(process.argv[3] || '.');
const SKIP = / copy\.ts$|TESTJoin|LocalTransport|LocalDiscovery|BroadcastLocal|BarrierLocal|DebugProxy|DeployUtils|HolepunchRelay|index\.ts$|\.d\.ts$/;
const cfg = ts.parseJsonConfigFileContent(ts.readConfigFile(path.join(SRC, 'tsconfig.json'), ts.sys.readFile).config, ts.sys, SRC);
const files = fs.readdirSync(path.join(SRC, 'src'), { recursive: true }).map(f => path.join(SRC, 'src', f)).filter(f => f.endsWith('.ts') && !SKIP.test(f) && filter.test(f));
const over = new Map(), ver = new Map();
const host = { getScriptFileNames: () => files, getScriptVersion: f => String(ver.get(f) || 0), getScriptSnapshot: f => { const s = over.has(f) ? over.get(f) : ts.sys.readFile(f); return s === undefined ? undefined : ts.ScriptSnapshot.fromString(s); }, getCurrentDirectory: () => SRC, getCompilationSettings: () => Object.assign({}, cfg.options, { noEmit: true }), getDefaultLibFileName: o => ts.getDefaultLibFilePath(o), fileExists: ts.sys.fileExists, readFile: ts.sys.readFile, readDirectory: ts.sys.readDirectory, directoryExists: ts.sys.directoryExists, getDirectories: ts.sys.getDirectories };
const ls = ts.createLanguageService(host);
const muts = [];
const SWAP = { [K.LessThanToken]: ['<=', '>='], [K.LessThanEqualsToken]: ['<', '>'], [K.GreaterThanToken]: ['>=', '<='], [K.GreaterThanEqualsToken]: ['>', '<'], [K.EqualsEqualsEqualsToken]: ['!=='], [K.ExclamationEqualsEqualsToken]: ['==='], [K.EqualsEqualsToken]: ['!='], [K.ExclamationEqualsToken]: ['=='], [K.AmpersandAmpersandToken]: ['||'], [K.BarBarToken]: ['&&'], [K.PlusToken]: ['-'], [K.MinusToken]: ['+'], [K.PlusEqualsToken]: ['-='], [K.QuestionQuestionToken]: ['&&'] };
for (const f of files) {
  const text = fs.readFileSync(f, 'utf8'), sf = ts.createSourceFile(f, text, ts.ScriptTarget.Latest, true);
  const add = (n, to, op, s, e) => { s = s === undefined ? n.getStart() : s; e = e === undefined ? n.getEnd() : e; if (text.slice(s, e) !== to) muts.push({ f, s, e, to, op, line: sf.getLineAndCharacterOfPosition(s).line + 1 }); };
  const g = n => n.getText();
  const visit = n => {
    if (ts.isImportDeclaration(n) || ts.isTypeNode(n) || ts.isInterfaceDeclaration(n) || ts.isTypeAliasDeclaration(n)) return;
    if (ts.isCallExpression(n) && /^console\./.test(g(n.expression))) return;
    if (ts.isNewExpression(n) && /Error$/.test(g(n.expression))) return;
    if (ts.isBinaryExpression(n)) {
      const o = n.operatorToken;
      for (const t of SWAP[o.kind] || []) add(o, t, 'op');
      if ([K.AmpersandAmpersandToken, K.BarBarToken].includes(o.kind)) { add(n, g(n.left), 'left'); add(n, g(n.right), 'right'); }
      if ([K.PlusToken, K.MinusToken].includes(o.kind)) add(n, g(n.left), 'left');
      if ([K.LessThanToken, K.LessThanEqualsToken, K.GreaterThanToken, K.GreaterThanEqualsToken].includes(o.kind)) add(n.right, g(n.right) + ' + 1', 'off1');
    }
    if (ts.isIfStatement(n)) {
      add(n.expression, `!(${g(n.expression)})`, 'neg');
      add(n.expression, 'false as boolean', 'never'); add(n.expression, 'true as boolean', 'always');
      if (n.elseStatement) add(n, '', 'noelse', n.thenStatement.getEnd(), n.elseStatement.getEnd());
    }
    if (ts.isConditionalExpression(n)) { add(n, `(${g(n.whenTrue)})`, 'left'); add(n, `(${g(n.whenFalse)})`, 'right'); }
    if (ts.isExpressionStatement(n) && !ts.isArrowFunction(n.parent)) { const x = ts.isAwaitExpression(n.expression) ? n.expression.expression : n.expression; if (!(ts.isCallExpression(x) && /^(console\.|super)/.test(g(x.expression)))) add(n, '{}', 'drop'); }
    if ((ts.isReturnStatement(n) || ts.isBreakStatement(n) || ts.isContinueStatement(n)) && ts.isBlock(n.parent)) add(n, '{}', 'dropret');
    if (ts.isBreakStatement(n)) add(n, 'continue;', 'brk'); if (ts.isContinueStatement(n)) add(n, 'break;', 'cont');
    if (ts.isNumericLiteral(n)) { add(n, String(Number(n.text) + 1), 'num'); if (n.text !== '0') add(n, '0', 'num0'); }
    if (n.kind === K.TrueKeyword) add(n, 'false', 'bool'); if (n.kind === K.FalseKeyword) add(n, 'true', 'bool');
    if (ts.isAwaitExpression(n)) add(n, g(n.expression), 'noawait');
    if (ts.isPrefixUnaryExpression(n) && n.operator === K.ExclamationToken) add(n, g(n.operand), 'not');
    if (ts.isCallExpression(n) || ts.isNewExpression(n)) {
      const a = n.arguments || []; for (let i = 0; i + 1 < a.length; i++) add(n, g(a[i + 1]) + ', ' + g(a[i]), 'swap', a[i].getStart(), a[i + 1].getEnd());
      if (ts.isCallExpression(n) && ts.isPropertyAccessExpression(n.expression)) { const m = n.expression.name; const alt = { some: 'every', every: 'some', push: 'unshift', shift: 'pop', pop: 'shift', max: 'min', min: 'max', add: 'delete', delete: 'has', on: 'off', off: 'on', filter: 'map', find: 'findLast', broadcast: 'sendOne' }[m.text]; if (alt) add(m, alt, 'meth'); }
    }
    if (ts.isPropertyAssignment(n) && ts.isObjectLiteralExpression(n.parent)) { const ps = n.parent.properties, i = ps.indexOf(n), p = ps[i + 1]; if (p && ts.isPropertyAssignment(p)) add(n, `${g(n.name)}: ${g(p.initializer)}, ${g(p.name)}: ${g(n.initializer)}`, 'swapval', n.getStart(), p.getEnd()); }
    if (ts.isPropertyAccessExpression(n) && ts.isIdentifier(n.expression) && /^(AgreementFlag|ExecutionFlag|ProofType|TransportType|AF|DisputeProofType)$/.test(n.expression.text)) { const ck = ls.getProgram().getTypeChecker(); const sn = ls.getProgram().getSourceFile(f); const sym = ck.getExportsOfModule && null; add(n.name, '@enum', 'enum'); }
    if (ts.isVariableDeclaration(n) && n.initializer && ts.isForStatement(n.parent.parent) && ts.isNumericLiteral(n.initializer)) { }
    ts.forEachChild(n, visit);
  };
  visit(sf);
}
// enum members: next one
for (const m of muts.filter(m => m.to === '@enum')) {
  const sn = ls.getProgram().getSourceFile(m.f), ck = ls.getProgram().getTypeChecker(); let node = null;
  (function v(n) { if (n.getStart() === m.s && n.getEnd() === m.e && ts.isIdentifier(n)) node = n; ts.forEachChild(n, v); })(sn);
  const sy = node && ck.getSymbolAtLocation(node), d = sy && sy.valueDeclaration; if (!d || !ts.isEnumMember(d)) { m.skip = true; continue; }
  const ms = d.parent.members; m.to = ms[(ms.indexOf(d) + 1) % ms.length].name.getText();
}
const list = muts.filter(m => !m.skip && (!process.env.ONLY || new RegExp(process.env.ONLY).test(m.op)));
console.error(`${list.length} changes`);
const done = new Set(fs.existsSync(out) ? fs.readFileSync(out, 'utf8').split('\n').filter(Boolean).map(l => JSON.parse(l).key) : []);
const PROPS = (process.env.PROPS || Array.from({ length: 31 }, (_, i) => 'T' + String(i + 1).padStart(2, '0')).filter(x => x !== 'T12').join(' ')).split(' ');
function tcOk(m) {
  const s = ts.sys.readFile(m.f); over.set(m.f, s.slice(0, m.s) + m.to + s.slice(m.e)); ver.set(m.f, (ver.get(m.f) || 0) + 1);
  const bad = [...ls.getSyntacticDiagnostics(m.f), ...ls.getSemanticDiagnostics(m.f)].length;
  over.delete(m.f); ver.set(m.f, ver.get(m.f) + 1); return bad === 0;
}
const base = new Map(); for (const f of files) base.set(f, [...ls.getSemanticDiagnostics(f)].length);
let i = 0;
async function slot(k) {
  const d = fs.mkdtempSync(path.join(os.tmpdir(), 'mutate-')), w = path.join(d, 'r'); fs.mkdirSync(w);
  for (const x of ['contracts', 'src', 'typechain-types', 'package.json', 'tsconfig.json', 'hardhat.config.ts']) if (fs.existsSync(path.join(SRC, x))) fs.cpSync(path.join(SRC, x), path.join(w, x), { recursive: true });
  fs.symlinkSync(path.join(SRC, 'node_modules'), path.join(w, 'node_modules'));
  while (i < list.length) {
    const m = list[i++], rel = path.relative(SRC, m.f), s = fs.readFileSync(m.f, 'utf8'), key = `${rel}:${m.s}:${m.e}:${m.op}:${m.to}`;
    if (done.has(key)) continue;
    const rec = { key, file: rel, line: m.line, op: m.op, from: s.slice(m.s, m.e), to: m.to };
    if (base.get(m.f) === 0 && !tcOk(m)) { rec.tc = false; fs.appendFileSync(out, JSON.stringify(rec) + '\n'); continue; }
    rec.tc = true;
    const dst = path.join(w, rel); fs.writeFileSync(dst, s.slice(0, m.s) + m.to + s.slice(m.e));
    const r = await new Promise(res => { const c = spawn('node', [path.join(R, 'tool/run.js'), ...PROPS], { env: Object.assign({}, process.env, { VERIF_REPO: w, VERIF_EVIDENCE: path.join(d, 'ev') }) }); let o = ''; c.stdout.on('data', x => o += x); c.stderr.on('data', x => o += x); const t = setTimeout(() => c.kill('SIGKILL'), 300000); c.on('close', rc => { clearTimeout(t); res({ rc, o }); }); });
    fs.writeFileSync(dst, s);
    rec.rc = r.rc; rec.hit = [...new Set([...r.o.matchAll(/VIOLATION property=(\w+)/g)].map(x => x[1]))].join(' ');
    if (r.rc !== 0 && r.rc !== 1) rec.err = r.o.split('\n').filter(l => /rror/.test(l))[0] || r.o.slice(-200);
    fs.appendFileSync(out, JSON.stringify(rec) + '\n');
  }
  fs.rmSync(d, { recursive: true, force: true });
}
Promise.all(Array.from({ length: Number(process.env.J || 7) }, (_, k) => slot(k))).then(() => console.error('done'));
