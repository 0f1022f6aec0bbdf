'use strict';
// The client and the contracts agree on every encoding: types, order of the proof kinds, and what is signed.
const L = require('./tlib'), X = require('./tspec'), C = require('./clib');
const { T, S, Query, F, par, run, ts, P, fieldOf } = L;
const { table, trace, effects } = X;
const groups = {};
// ---- types, as [name, canonical] trees
function parse(s) {
  let i = 0; const ws = () => { while (/\s/.test(s[i] || '')) i++; }, word = () => { ws(); const m = /^[A-Za-z_$][\w$]*/.exec(s.slice(i)); if (!m) return ''; i += m[0].length; return m[0]; };
  const type = () => {
    ws(); let t; const w = s[i] === '(' ? 'tuple' : word();
    if (w === 'tuple') { ws(); if (s[i] !== '(') throw new Error('tuple'); i++; const fs = []; ws(); while (s[i] !== ')') { const ty = type(); const n = word(); fs.push([n, ty]); ws(); if (s[i] === ',') { i++; ws(); } else if (s[i] !== ')') throw new Error('at ' + s.slice(i, i + 20)); } i++; t = { fs }; }
    else t = { b: w.replace(/^(u?int)$/, '$1256') };
    for (;;) { ws(); const m = /^\[(\d*)\]/.exec(s.slice(i)); if (!m) break; i += m[0].length; t = { of: t, n: m[1] }; }
    return t;
  };
  const t = type(); ws(); if (i < s.length) word(); ws(); if (i < s.length) throw new Error('rest ' + s.slice(i, i + 20)); return t;
}
const show = t => t.fs ? '(' + t.fs.map(([n, x]) => show(x) + ' ' + n).join(',') + ')' : t.of ? show(t.of) + '[' + t.n + ']' : t.b;
// the same tree of a Solidity type
const all = kind => { const out = []; for (const s of Object.values(C.prog().out.sources)) (function v(n) { if (!n) return; if (Array.isArray(n)) return n.forEach(v); if (n.nodeType === kind) out.push(n); v(n.nodes); })(s.ast); return out; };
const struct = name => all('StructDefinition').find(s => s.name === name);
function ofStruct(name) { const s = struct(name); return s && { fs: s.members.map(m => [m.name, ofType(m.typeName)]) }; }
function ofType(n) {
  if (n.nodeType === 'ElementaryTypeName') return { b: n.name.replace(/^(u?int)$/, '$1256').replace(/^address payable$/, 'address') };
  if (n.nodeType === 'ArrayTypeName') return { of: ofType(n.baseType), n: n.length ? String(n.length.value) : '' };
  const d = C.prog().byId.get(n.referencedDeclaration || (n.pathNode && n.pathNode.referencedDeclaration));
  if (d && d.nodeType === 'StructDefinition') return { fs: d.members.map(m => [m.name, ofType(m.typeName)]) };
  if (d && d.nodeType === 'EnumDefinition') return { b: 'uint8' };
  return { b: 'address' };
}
const agree = (s, name) => { let a, b; try { a = show(parse(s)); } catch (e) { return String(e.message); } const st = ofStruct(name); b = st ? show(st) : 'no such structure'; return a === b ? '' : `client ${a}, contracts ${b}`; };
const typeOf = (v, kind) => v.op === 'app' && (kind === 'enc' ? /^abi/ : /^(unabi|decode)/).test(v.val) && v.args[0] && T.isStr(v.args[0]) ? v.args[0].val : null;

groups.types = rep => {
  // every exported type description named after a structure
  let n = 0;
  for (const sf of P.prog.getSourceFiles()) if (sf.fileName.startsWith(L.REPO + '/src/types/')) for (const s of sf.statements) if (ts.isVariableStatement(s)) for (const d of s.declarationList.declarations) {
    const m = /^(\w+)EthersType$/.exec(d.name.getText()); if (!m || !d.initializer) continue;
    const txt = fold(d.initializer); n++;
    const bad = txt === null ? 'not a constant' : agree(txt, m[1]);
    rep.ob('type:' + m[1], !bad, L.where(d), 'the description of a structure equals the structure of the contracts, field by field', bad);
  }
  rep.floor('described structures', n, 10, 'type descriptions');
};
// the text of a constant expression
function fold(e) {
  if (ts.isStringLiteral(e) || ts.isNoSubstitutionTemplateLiteral(e)) return e.text;
  if (ts.isParenthesizedExpression(e) || ts.isAsExpression(e)) return fold(e.expression);
  if (ts.isTemplateExpression(e)) { let s = e.head.text; for (const p of e.templateSpans) { const v = fold(p.expression); if (v === null) return null; s += v + p.literal.text; } return s; }
  if (ts.isBinaryExpression(e) && e.operatorToken.kind === ts.SyntaxKind.PlusToken) { const a = fold(e.left), b = fold(e.right); return a === null || b === null ? null : a + b; }
  if (ts.isIdentifier(e)) { let s = P.ck.getSymbolAtLocation(e); if (s && s.flags & ts.SymbolFlags.Alias) s = P.ck.getAliasedSymbol(s); const d = s && s.valueDeclaration; return d && ts.isVariableDeclaration(d) && d.initializer ? fold(d.initializer) : null; }
  return null;
}
groups.codec = rep => {
  for (const [w, name] of [['Transaction', 'Transaction'], ['Block', 'Block'], ['JoinChannel', 'JoinChannel']]) {
    const e = run('EvmUtils', 'encode' + w, { front: { trace: true } }), d = run('EvmUtils', 'decode' + w, { front: { trace: true } });
    const is = (r, kind) => ({ rows: [{ n: 'value', ret: (cx, st, v) => { const ty = typeOf(v, kind); return ty !== null && !agree(ty, name) && v.args.length === 2 && v.args[1] === r.args[0]; }, fx: (cx, st) => trace(st).length === 0 }], thr: undefined, rule: `a ${w} is encoded and decoded as the structure of the contracts` });
    table(rep, 'codec:encode' + w, e, is(e, 'enc')); table(rep, 'codec:decode' + w, d, is(d, 'dec'));
    const of = e.res.length === 1 ? e.res[0].v : null;
    const s = run('EvmUtils', 'sign' + w, { front: { trace: true } }), h = of && T.app('keccak', T.substMany(of, new Map([[e.args[0], s.args[0]]])));
    table(rep, 'codec:sign' + w, s, { rows: [{ n: 'signed', fx: (cx, st, x) => { const sg = effects(st, 'sign'); return of && sg.length === 1 && cx.eq(sg[0].msg, h) && cx.eq(fieldOf(st, x.v, 'encoded' + w), h.args[0]) && cx.eq(fieldOf(st, x.v, 'signature'), T.app('signature', s.args[1], h)); } }], thr: undefined, rule: 'what is signed is the hash of the encoding, and the encoding and the signature are returned' });
    if (L.cls('EvmUtils').members.some(m => m.name && m.name.getText() === 'retrieveSignerAddress' + w)) {
      const r = run('EvmUtils', 'retrieveSignerAddress' + w, { front: { trace: true } });
      table(rep, 'codec:signer' + w, r, { rows: [{ n: 'signer', ret: (cx, st, v) => of && v.op === 'app' && v.val === 'recover' && v.args[1] === r.args[1] && cx.eq(v.args[0], T.app('keccak', T.substMany(of, new Map([[e.args[0], r.args[0]]])))) }], thr: undefined, rule: 'the signer is recovered from the same hash that is signed' });
    }
  }
};
groups.proofTypes = rep => {
  const d = P.enums.get('ProofType'), sol = all('EnumDefinition').find(e => e.name === 'ProofType'), w = L.where(d);
  const ms = d.members.map(m => m.name.getText()), ss = sol ? sol.members.map(m => m.name) : [];
  rep.ob('proofs:order', ms.length > 0 && ms.every((m, i) => ss[i] === m && Number(P.ck.getConstantValue(d.members[i])) === i), w, 'the kinds of proofs have the same numbers in the client and in the contracts', ms.filter((m, i) => ss[i] !== m).join());
  ms.forEach((m, i) => {
    const k = T.num(BigInt(i)), x = par('proof'), U = T.UNDEF;
    const e = run('ProofManager', 'encodeProof', { front: { trace: true }, args: [k, x] }), f = run('ProofManager', 'decodeProof', { front: { trace: true }, args: [k, x] });
    const ok = (kind, v) => { const ty = typeOf(v, kind); return ty !== null && !agree(ty, m + 'Proof') && v.args[1] === x; };
    table(rep, 'proofs:encode:' + m, e, { rows: [{ n: 'encoded', ret: (cx, st, v) => ok('enc', v) }, { n: 'nothing', ret: U, when: [[T.eq(x, U)], [T.eq(x, T.NULL)]] }], thr: undefined, rule: 'a proof is encoded as the structure the contracts expect for its kind' });
    table(rep, 'proofs:decode:' + m, f, { rows: [{ n: 'decoded', ret: (cx, st, v) => ok('dec', v) }], thr: undefined, rule: 'a proof is decoded as the structure the contracts expect for its kind' });
  });
};
module.exports = { groups, parse, show, agree };
