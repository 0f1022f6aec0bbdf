'use strict';
// TypeScript front end: the repository's own Program + type checker, lowered to the engine's IR.
// Calls are resolved by the checker and inlined; long-lived service objects are identified by class.
const fs = require('fs'), path = require('path');
const T = require('../core/terms'), S = require('../core/state');
const { Interp, Out } = require('../core/interp');
const REPO = process.env.VERIF_REPO || '/repo';
function loadTs() {
  for (const p of [path.join(REPO, 'node_modules/typescript'), '/repo/node_modules/typescript', '/opt/veriftools/node/node_modules/typescript']) { try { return require(p); } catch (e) { /* next */ } }
  throw new Error('no TypeScript compiler');
}
const ts = loadTs();
const K = ts.SyntaxKind;
let P;
function program() {
  if (P) return P;
  const cfg = ts.getParsedCommandLineOfConfigFile(path.join(REPO, 'tsconfig.json'), {}, Object.assign({}, ts.sys, { onUnRecoverableConfigFileDiagnostic(d) { throw new Error(String(d.messageText)); } }));
  const prog = ts.createProgram(cfg.fileNames, cfg.options);
  const ck = prog.getTypeChecker();
  const files = prog.getSourceFiles().filter(f => f.fileName.startsWith(path.join(REPO, 'src') + '/') && !/ copy\.ts$/.test(f.fileName));
  const classes = new Map(), fns = new Map(), enums = new Map();
  for (const f of files) ts.forEachChild(f, function v(n) {
    if (ts.isClassDeclaration(n) && n.name) classes.set(n.name.text, n);
    if (ts.isFunctionDeclaration(n) && n.name) fns.set(n.name.text, n);
    if (ts.isVariableStatement(n)) for (const d of n.declarationList.declarations) if (ts.isIdentifier(d.name) && d.initializer && (ts.isArrowFunction(d.initializer) || ts.isFunctionExpression(d.initializer))) fns.set(d.name.text, d.initializer);
    if (ts.isEnumDeclaration(n)) enums.set(n.name.text, n);
  });
  P = { prog, ck, files, classes, fns, enums };
  return P;
}
const where = n => { const sf = n.getSourceFile(); const p = sf.getLineAndCharacterOfPosition(n.getStart()); return path.relative(REPO, sf.fileName) + ':' + (p.line + 1); };
const SINGLETONS = ['StateManager', 'AgreementManager', 'ForkService', 'QueueService', 'OnChainTracker', 'BlockValidator', 'DisputeHandler', 'ProofManager', 'ValidationService', 'P2PManager', 'MainRpcService', 'InitHandshakeService', 'WebRTCSetupService', 'StateTransitionService', 'TESTJoinChannelService', 'DHTDiscoveryService', 'JoinChannelService', 'ProfileManager', 'StateChannelEventListener', 'P2pSigner', 'EvmStateMachine', 'ContractExecuter', 'Holepunch', 'AStateMachine', 'P2pInstance'];
const SM = T.root('StateMachine');
const isFnLike = n => ts.isFunctionDeclaration(n) || ts.isMethodDeclaration(n) || ts.isArrowFunction(n) || ts.isFunctionExpression(n) || ts.isConstructorDeclaration(n) || ts.isGetAccessor(n);
const unwrap = e => { while (ts.isParenthesizedExpression(e) || ts.isAsExpression(e) || ts.isNonNullExpression(e) || (ts.isTypeAssertionExpression && ts.isTypeAssertionExpression(e)) || (ts.isSatisfiesExpression && ts.isSatisfiesExpression(e))) e = e.expression; return e; };
const hasMod = (n, k) => !!(n.modifiers && n.modifiers.some(m => m.kind === k));
const kc = v => ({ k: 'const', v });
const UND = kc(T.UNDEF);
const nullish = v => T.or(T.eq(v, T.UNDEF), T.eq(v, T.NULL));
const normStr = s => s.replace(/\s+/g, ' ').trim();

const BOOLAPP = new Set(['exists', 'includes', 'subset', 'transOk', 'canonsig']);
const IDS = new Map(); let NID = 0;
class TsFront {
  get nid() { return NID; } set nid(v) { NID = v; }
  constructor(opts = {}) { this.o = opts; this.P = program(); this.ck = this.P.ck; this.ids = IDS; this.lowered = new Map(); this.lam = 0; this.unknown = new Set(); }
  interp(o = {}) {
    const I = new Interp(Object.assign({ unsigned: true, readFld: (I2, n, st, o2, cx) => this.readFld(I2, n, st, o2, cx) }, o));
    I.front = this; return I;
  }
  idOf(d) { let i = this.ids.get(d); if (!i) this.ids.set(d, i = 'v' + (++this.nid)); return i; }
  // identifies the expression: line, column and length (two expressions on one line stay apart)
  src(n) { const sf = n.getSourceFile(), s = n.getStart(), p = sf.getLineAndCharacterOfPosition(s); return path.relative(REPO, sf.fileName) + ':' + (p.line + 1) + ':' + (p.character + 1) + '.' + (n.getEnd() - s); }
  // ---- types
  type(n) { return this.ck.getTypeAtLocation(n); }
  classOfType(t) {
    t = this.ck.getNonNullableType(t);
    if (t.flags & ts.TypeFlags.TypeParameter) t = this.ck.getBaseConstraintOfType(t) || t;
    if (t.isIntersection()) { for (const x of t.types) { const c = x.flags & ts.TypeFlags.TypeParameter ? null : this.classOfType(x); if (c) return c; } return null; }
    const s = t.symbol; if (!s) return null;
    const d = (s.declarations || []).find(x => ts.isClassDeclaration(x));
    if (!d || !d.getSourceFile().fileName.startsWith(path.join(REPO, 'src') + '/')) return null;
    return d.name ? d.name.text : s.name;
  }
  singleton(t) { const c = this.classOfType(t); if (!c || !SINGLETONS.includes(c)) return null; if (t.symbol && t.getConstructSignatures().length) return null; return c === 'AStateMachine' || (c === 'EvmStateMachine' && !this.o.evm) ? SM : T.root(c); }
  mayNull(t) { const parts = t.isUnion() ? t.types : [t]; return parts.some(x => x.flags & (ts.TypeFlags.Null | ts.TypeFlags.Any | ts.TypeFlags.Unknown | ts.TypeFlags.TypeParameter)); }
  nullishT(v, t) { return t && !this.mayNull(t) ? T.eq(v, T.UNDEF) : nullish(v); }
  kindOf(t) { // truthiness kind
    const parts = t.isUnion() ? t.types : [t];
    const f = x => x.flags;
    const F = ts.TypeFlags;
    const nn = parts.filter(x => !(f(x) & (F.Undefined | F.Null | F.Void)));
    const und = nn.length !== parts.length;
    if (nn.every(x => f(x) & F.BooleanLike)) return und ? 'obool' : 'bool';
    if (nn.every(x => f(x) & (F.NumberLike | F.BigIntLike))) return und ? 'onum' : 'num';
    if (nn.every(x => f(x) & F.StringLike)) return und ? 'ostr' : 'str';
    if (nn.some(x => f(x) & (F.Any | F.Unknown))) return 'any';
    return 'obj';
  }
  truthTerm(v, kind, t) {
    const nullish = x => this.nullishT(x, t);
    if (T.isBool(v)) return v;
    if (v.op === 'undef' || v.op === 'null') return T.FALSE;
    if (v.op === 'ref' || v.op === 'fn' || v.op === 'struct' || v.op === 'arr') return T.TRUE;
    if (T.isNum(v)) return T.bool(v.val !== 0n);
    if (T.isStr(v)) return T.bool(v.val !== '');
    switch (kind) {
      case 'bool': return v;
      case 'obool': return T.and(T.not(nullish(v)), v);
      case 'num': return T.ne(v, T.ZERO);
      case 'onum': return T.and(T.not(nullish(v)), T.ne(v, T.ZERO));
      case 'str': return T.ne(v, T.str(''));
      case 'ostr': return T.and(T.not(nullish(v)), T.ne(v, T.str('')));
      default: return ['eq', 'not', 'le0', 'and', 'or', 'eqz'].includes(v.op) || (v.op === 'app' && BOOLAPP.has(v.val)) ? v : T.not(nullish(v));
    }
  }
  isPromise(t) { if (!t) return false; const s = t.symbol || (t.aliasSymbol); return !!s && (s.name === 'Promise' || s.name === 'PromiseLike'); }
  symOf(n) { let s = this.ck.getSymbolAtLocation(n); if (s && s.flags & ts.SymbolFlags.Alias) s = this.ck.getAliasedSymbol(s); return s; }
  // ---- expressions
  cond(e) {
    e = unwrap(e);
    if (ts.isPrefixUnaryExpression(e) && e.operator === K.ExclamationToken) return { k: 'un', op: '!', e: this.cond(e.operand), src: this.src(e) };
    if (ts.isBinaryExpression(e)) {
      if (e.operatorToken.kind === K.AmpersandAmpersandToken) return { k: 'and', a: this.cond(e.left), b: this.cond(e.right), src: this.src(e) };
      if (e.operatorToken.kind === K.BarBarToken) return { k: 'or', a: this.cond(e.left), b: this.cond(e.right), src: this.src(e) };
    }
    const t0 = this.type(e), kind = this.kindOf(t0);
    const x = this.ex(e);
    if (kind === 'bool') return x;
    return { k: 'prim', args: [x], src: this.src(e), fn: (I, st, [v]) => [{ st, v: st.simp(this.truthTerm(v, kind, t0)) }] };
  }
  // the value of an expression; where something is read from it, a value known to be missing fails
  // is the promise waited for (or handed on to be waited for)
  waited(e) { let p = e.parent, c = e; while (ts.isParenthesizedExpression(p) || ts.isAsExpression(p) || ts.isNonNullExpression(p) || ts.isConditionalExpression(p) && p.condition !== c) { c = p; p = p.parent; } return ts.isAwaitExpression(p) || ts.isReturnStatement(p) || ts.isArrowFunction(p) && p.body === c || ts.isPropertyAccessExpression(p) && p.name.text === 'then'; }
  // a promise used where the value it will have is meant
  promiseAsValue(e0) {
    let c = e0, p = e0.parent; if (!p || !ts.isExpression(e0) || ts.isAwaitExpression(e0)) return false;
    while (p && (ts.isParenthesizedExpression(p) || ts.isAsExpression(p) || ts.isNonNullExpression(p))) { c = p; p = p.parent; }
    if (!p) return false;
    let pos = ts.isPrefixUnaryExpression(p) || (ts.isIfStatement(p) || ts.isWhileStatement(p)) && p.expression === c || ts.isConditionalExpression(p) && p.condition === c || ts.isTemplateSpan(p);
    if (ts.isBinaryExpression(p)) { const o = p.operatorToken.kind, other = unwrap(p.left === c ? p.right : p.left); if ([K.AmpersandAmpersandToken, K.BarBarToken].includes(o)) pos = p.left === c; else if (o < K.FirstAssignment || o > K.LastAssignment) pos = o !== K.QuestionQuestionToken && o !== K.CommaToken && other.kind !== K.NullKeyword && !(ts.isIdentifier(other) && other.text === 'undefined') && !this.isPromise(this.type(other)); else if (o === K.EqualsToken) pos = p.right === c && (!!(this.type(p.left).flags & ts.TypeFlags.Any) && !(this.type(c).flags & ts.TypeFlags.Any) || this.outlives(p)); }
    if (ts.isCallExpression(p) && p.arguments.includes(c) && !/^(Promise|console)\./.test(p.expression.getText())) { const sg = this.ck.getResolvedSignature(p), ps = sg && sg.parameters[Math.min(p.arguments.indexOf(c), sg.parameters.length - 1)]; const t = ps && ps.valueDeclaration && this.ck.getTypeAtLocation(ps.valueDeclaration); pos = !!t && !!(t.flags & ts.TypeFlags.Any) && !this.isPromise(t); }
    if (ts.isVariableDeclaration(p) && p.initializer === c) pos = !!p.type && p.type.kind === K.AnyKeyword;
    return pos && this.isPromise(this.type(e0));
  }
  ex(e0) {
    const n0 = this.ex0(e0), n = this.promiseAsValue(e0) ? { k: 'prim', args: [n0], src: this.src(e0), fn: (I, st) => { I.raise(st, T.sym('typeerr'), { src: this.src(e0) }); return []; } } : n0;
    if (!this.isBase(e0)) return n;
    const src = this.src(e0), u = unwrap(e0), shape = ts.isElementAccessExpression(u) && ts.isNumericLiteral(unwrap(u.argumentExpression)) && !!(this.type(u.expression).flags & ts.TypeFlags.Any); // raw records of libraries have their documented shape
    let bang = false; for (let c = e0; c !== u; c = c.expression) if (ts.isNonNullExpression(c)) bang = true; if (ts.isIdentifier(u)) { const sy = this.symOf(u), d = sy && sy.valueDeclaration; if (d && ts.isVariableDeclaration(d) && d.initializer && ts.isNonNullExpression(d.initializer)) bang = true; } // an assertion that it is there is checked
    return { k: 'raw', src, fn: (I, st, cx) => I.ev(n, st, cx).filter(({ st: s, v }) => {
      if (v !== T.UNDEF && v !== T.NULL && s.simp(T.eq(v, T.UNDEF)) !== T.TRUE && s.simp(T.eq(v, T.NULL)) !== T.TRUE) return true;
      if (!shape) I.raise(s, T.sym('typeerr'), { src }); return false;
    }).flatMap(({ st: s, v }) => { if (!bang || v.op === 'idx' && s.simp(T.lt(v.args[1], S.select(s.store, v.args[0], 'length', null))) === T.TRUE) return [{ st: s, v }]; for (const z of s.assume(T.eq(v, T.UNDEF))) I.raise(z, T.sym('typeerr'), { src }); return s.assume(T.ne(v, T.UNDEF)).map(z => ({ st: z, v })); }) };
  }
  isBase(e) {
    let c = e; const u = unwrap(e);
    if (!(ts.isIdentifier(u) || ts.isPropertyAccessExpression(u) || ts.isElementAccessExpression(u) || ts.isCallExpression(u))) return false;
    while (c.parent && (ts.isParenthesizedExpression(c.parent) || ts.isAsExpression(c.parent) || ts.isNonNullExpression(c.parent))) c = c.parent;
    const p = c.parent;
    if (!p || !(ts.isPropertyAccessExpression(p) || ts.isElementAccessExpression(p)) || p.expression !== c || p.questionDotToken || ts.isOptionalChain(p)) return false;
    if (ts.isIdentifier(u)) { const sy = this.symOf(u); if (!sy || sy.flags & (ts.SymbolFlags.Class | ts.SymbolFlags.Enum | ts.SymbolFlags.Module | ts.SymbolFlags.Function | ts.SymbolFlags.Alias | ts.SymbolFlags.Namespace)) return false; const d = sy.valueDeclaration; if (!d || d.getSourceFile().isDeclarationFile) return false; }
    return true;
  }
  ex0(e0) {
    const e = unwrap(e0); const src = this.src(e);
    switch (e.kind) {
      case K.NumericLiteral: return kc(T.num(BigInt(Math.trunc(Number(e.text)))));
      case K.BigIntLiteral: return kc(T.num(BigInt(e.text.replace(/n$/, ''))));
      case K.StringLiteral: case K.NoSubstitutionTemplateLiteral: return kc(T.str(e.text));
      case K.TrueKeyword: return kc(T.TRUE); case K.FalseKeyword: return kc(T.FALSE);
      case K.NullKeyword: return kc(T.NULL);
      case K.ThisKeyword: return { k: 'this' };
      case K.SuperKeyword: return { k: 'this' };
      case K.Identifier: return this.ident(e);
      case K.TemplateExpression: {
        const args = []; args.push(kc(T.str(e.head.text)));
        for (const s of e.templateSpans) { args.push(this.ex(s.expression)); args.push(kc(T.str(s.literal.text))); }
        return { k: 'prim', args, src, fn: (I, st, vs) => [{ st, v: this.concat(vs) }] };
      }
      case K.PropertyAccessExpression: return this.prop(e);
      case K.ElementAccessExpression: return this.elem(e);
      case K.CallExpression: return this.call(e);
      case K.NewExpression: return this.newEx(e);
      case K.AwaitExpression: { const x = this.ex(e.expression); if (this.o.tracePromise) return { k: 'prim', args: [x], src, fn: (I, st, [v]) => { const may = v.op === 'app' && v.val === 'callv' || v.op === 'sym' && /^p:/.test(v.val); st = this.tr(I, st, 'await', src, { v }); if (may) I.raise(st, T.sym('rejected'), { src }); return [{ st, v }]; } }; if (!this.o.awaitHavoc) return x; return { k: 'prim', args: [x], src, fn: (I, st, [v]) => { for (const l of this.o.awaitHavoc) st = st.write(l, I.sym({ src }, 'later')); return [{ st, v }]; } }; }
      case K.VoidExpression: return { k: 'seq', els: [this.ex(e.expression), UND] };
      case K.TypeOfExpression: return { k: 'prim', args: [this.ex(e.expression)], src, fn: (I, st, [v]) => [{ st, v: v.op === 'root' ? T.str('object') : v.op === 'fn' ? T.str('function') : v.op === 'undef' ? T.str('undefined') : T.app('typeof', v) }] };
      case K.DeleteExpression: return UND;
      case K.ArrowFunction: case K.FunctionExpression: return { k: 'raw', src, fn: (I, st, cx) => [{ st, v: this.fnVal(e, cx.frame, cx.self) }] };
      case K.ConditionalExpression: return { k: 'cond', c: this.cond(e.condition), a: this.ex(e.whenTrue), b: this.ex(e.whenFalse), src };
      case K.PrefixUnaryExpression: {
        if (e.operator === K.ExclamationToken) return { k: 'un', op: '!', e: this.cond(e.operand), src };
        if (e.operator === K.PlusPlusToken || e.operator === K.MinusMinusToken) return { k: 'incdec', op: e.operator === K.PlusPlusToken ? '++' : '--', prefix: true, t: this.lv(e.operand), src };
        return { k: 'un', op: e.operator === K.MinusToken ? '-' : '+', e: this.ex(e.operand), src };
      }
      case K.PostfixUnaryExpression: return { k: 'incdec', op: e.operator === K.PlusPlusToken ? '++' : '--', prefix: false, t: this.lv(e.operand), src };
      case K.BinaryExpression: return this.binary(e);
      case K.ObjectLiteralExpression: return this.objLit(e);
      case K.ArrayLiteralExpression: return this.arrLit(e);
      case K.SpreadElement: return this.ex(e.expression);
      case K.YieldExpression: { const x = e.expression ? this.ex(e.expression) : UND; return { k: 'raw', src, fn: (I, st, cx) => cx.yieldFn ? I.bindEv(x, st, cx, (s, v) => cx.yieldFn(I, s, v)) : I.bindEv(x, st, cx, (s, v) => { I.emit('yield', s, { src }, { v }); return [{ st: s, v: T.UNDEF }]; }) }; }
      case K.RegularExpressionLiteral: return kc(T.str(e.text));
      default: this.unknown.add(K[e.kind]); return { k: 'raw', src, fn: (I, st) => [{ st, v: I.sym({ src }, 'unk_' + K[e.kind]) }] };
    }
  }
  concat(vs) {
    const out = [];
    for (const v of vs) { if (T.isStr(v) && v.val === '') continue; if (out.length && T.isStr(v) && T.isStr(out[out.length - 1])) out[out.length - 1] = T.str(out[out.length - 1].val + v.val); else if (T.isNum(v)) out.push(T.str(String(v.val))); else out.push(v); }
    return out.length === 0 ? T.str('') : out.length === 1 ? out[0] : T.app('concat', ...out);
  }
  ident(e) {
    if (e.text === 'undefined') return UND;
    if (e.text === 'NaN' || e.text === 'Infinity') return kc(T.sym(e.text));
    let s = ts.isShorthandPropertyAssignment(e.parent) ? this.ck.getShorthandAssignmentValueSymbol(e.parent) : this.symOf(e);
    if (s && s.flags & ts.SymbolFlags.Alias) s = this.ck.getAliasedSymbol(s);
    return this.symEx(s, e);
  }
  symEx(s, e) {
    const d = s && s.valueDeclaration;
    if (!d) return kc(T.sym('?' + e.text));
    const sg = this.singleton(this.type(e));
    if (sg) return kc(sg);
    const lf = this.libFn(d, e.text); if (lf) return lf;
    const local = n => { for (let p = n.parent; p; p = p.parent) { if (isFnLike(p)) return true; if (ts.isSourceFile(p)) return false; } return false; };
    if (ts.isParameter(d)) return { k: 'var', d: this.idOf(d), name: e.text };
    if (ts.isBindingElement(d) || ts.isVariableDeclaration(d)) {
      if (local(d)) return { k: 'var', d: this.idOf(d), name: e.text };
      const kept = this.kept(d); if (kept) return kept;
      if (d.initializer && d.getSourceFile().fileName.startsWith(path.join(REPO, 'src') + '/')) return this.ex(d.initializer);
      return kc(T.sym('$' + e.text));
    }
    if (ts.isFunctionDeclaration(d)) return ts.isSourceFile(d.parent) ? kc(this.fnVal(d, null, T.UNDEF)) : { k: 'raw', fn: (I, st, cx) => [{ st, v: this.fnVal(d, cx.frame, cx.self) }] };
    return kc(T.sym('$' + e.text));
  }
  // what the sources assign to, or change in place, outside of its declaration
  changed() {
    if (this.P.changed) return this.P.changed;
    const c = this.P.changed = new Set(), MUT = /^(set|add|push|delete|clear|unshift|shift|pop|splice|sort|reverse|fill|copyWithin)$/;
    const note = e => { e = unwrap(e); for (;;) { const n = ts.isPropertyAccessExpression(e) ? e.name : e; let sy = this.ck.getSymbolAtLocation(n); if (sy && sy.flags & ts.SymbolFlags.Alias) sy = this.ck.getAliasedSymbol(sy); if (sy && sy.valueDeclaration) c.add(sy.valueDeclaration); if (ts.isElementAccessExpression(e) || ts.isPropertyAccessExpression(e)) e = unwrap(e.expression); else return; } };
    const pat = e => { if (ts.isArrayLiteralExpression(e)) e.elements.forEach(x => pat(ts.isSpreadElement(x) ? x.expression : x)); else if (ts.isObjectLiteralExpression(e)) e.properties.forEach(p => p.initializer ? pat(p.initializer) : p.name && note(p.name)); else note(e); };
    for (const f of this.P.files) (function v(n) {
      if (ts.isBinaryExpression(n) && n.operatorToken.kind >= K.FirstAssignment && n.operatorToken.kind <= K.LastAssignment) pat(unwrap(n.left));
      else if ((ts.isPrefixUnaryExpression(n) || ts.isPostfixUnaryExpression(n)) && [K.PlusPlusToken, K.MinusMinusToken].includes(n.operator)) note(n.operand);
      else if (ts.isDeleteExpression(n)) note(n.expression);
      else if (ts.isCallExpression(n) && ts.isPropertyAccessExpression(n.expression)) { if (MUT.test(n.expression.name.text)) note(n.expression.expression); if (/^(assign|defineProperty|set)$/.test(n.expression.name.text) && /^(Object|Reflect)$/.test(n.expression.expression.getText()) && n.arguments[0]) note(n.arguments[0]); }
      ts.forEachChild(n, v);
    })(f);
    return c;
  }
  // a variable of a module that outlives the call: whatever earlier calls left there
  kept(d) {
    if (!ts.isVariableDeclaration(d) || !ts.isIdentifier(d.name) || !d.parent.parent || !ts.isVariableStatement(d.parent.parent) || !ts.isSourceFile(d.parent.parent.parent)) return null;
    const f = d.getSourceFile(); if (f.isDeclarationFile || !f.fileName.startsWith(path.join(REPO, 'src') + '/')) return null;
    const i = d.initializer && unwrap(d.initializer);
    const empty = i && (ts.isNewExpression(i) && (/^(Map|Set|WeakMap|WeakSet)$/.test(i.expression.getText()) && !(i.arguments || []).length || this.P.classes.has(i.expression.getText()) && !this.singleton(this.type(d.name))) || ts.isArrayLiteralExpression(i) && !i.elements.length || ts.isObjectLiteralExpression(i) && !i.properties.length);
    if (i && !empty && !this.changed().has(d)) return null;
    return { k: 'root', t: T.fld(T.root('module ' + path.relative(path.join(REPO, 'src'), f.fileName)), d.name.text) };
  }
  // a field that keeps the constant it is declared with
  constField(d) {
    if (this.changed().has(d) || !(hasMod(d, K.StaticKeyword) || hasMod(d, K.ReadonlyKeyword) || hasMod(d, K.PrivateKeyword) || ts.isPrivateIdentifier(d.name))) return false;
    const lit = i => { i = unwrap(i); return ts.isNumericLiteral(i) || ts.isBigIntLiteral(i) || ts.isStringLiteralLike(i) || i.kind === K.TrueKeyword || i.kind === K.FalseKeyword || ts.isPropertyAccessExpression(i) && (!!this.constVal(i) || /^ethers\.Zero(Address|Hash)$/.test(i.getText())) || ts.isPrefixUnaryExpression(i) && i.operator === K.MinusToken && lit(i.operand) || ts.isBinaryExpression(i) && [K.PlusToken, K.MinusToken, K.AsteriskToken].includes(i.operatorToken.kind) && lit(i.left) && lit(i.right); };
    return lit(d.initializer);
  }
  constVal(e) { try {
    if (ts.isPropertyAccessExpression(e)) { const sy = this.symOf(e.name); const d0 = sy && sy.valueDeclaration; if (d0 && ts.isEnumMember(d0)) { const v = this.ck.getConstantValue(d0); if (typeof v === 'number') return T.num(BigInt(v)); if (typeof v === 'string') return T.str(v); } } const v = this.ck.getConstantValue(e); if (typeof v === 'number') return T.num(BigInt(v)); if (typeof v === 'string') return T.str(v); } catch (x) { /* not an enum */ } return null; }
  // a library function used as a value
  libFn(d, name) {
    const file = d.getSourceFile().fileName;
    const conv = ['Number', 'BigInt', 'String', 'Boolean'].includes(name) && /typescript[/]lib[/]/.test(file);
    if (!conv && !(ts.isFunctionDeclaration(d) && !d.body && /node_modules[/]ethers/.test(file))) return null;
    const self = this;
    return kc(T.fnVal('lib:' + name, { prim: (I, st, vs, cx, src) => conv ? [{ st, v: self.o.convert ? self.o.convert(name, st, vs[0]) : vs[0] }] : self.ethersFn(name, I, st, vs, cx, src) || self.extCall(I, st, name, null, vs, src) }));
  }
  prop(e) {
    const c = this.constVal(e); if (c) return kc(c);
    const sg = this.singleton(this.type(e));
    const name = e.name.text;
    const text = e.getText();
    if (sg) return kc(sg);
    if (text === 'ethers.ZeroAddress') return kc(T.str('0x0000000000000000000000000000000000000000'));
    if (text === 'ethers.ZeroHash') return kc(T.str('0x' + '0'.repeat(64)));
    const s = this.symOf(e.name); const d = s && s.valueDeclaration;
    if (d && (ts.isMethodDeclaration(d)) && d.body && d.getSourceFile().fileName.startsWith(path.join(REPO, 'src') + '/')) {
      if (hasMod(d, K.StaticKeyword)) return kc(this.fnVal(d, null, T.UNDEF));
      const o = this.ex(e.expression);
      return { k: 'prim', args: [o], src: this.src(e), fn: (I, st, [v]) => [{ st, v: this.fnVal(d, null, v) }] };
    }
    if (d && ts.isPropertyDeclaration(d) && d.initializer && this.constField(d)) return this.ex(d.initializer);
    if (d && ts.isPropertyDeclaration(d) && hasMod(d, K.StaticKeyword)) return { k: 'root', t: T.fld(T.root('static ' + d.parent.name.text), name) };
    if (d && ts.isVariableDeclaration(d) && d.initializer && ts.isIdentifier(e.expression) && d.getSourceFile().fileName.startsWith(path.join(REPO, 'src') + '/')) return this.ex(d.initializer); // namespace import member
    const lf = d && this.libFn(d, name); if (lf) return lf;
    if (d && ts.isFunctionDeclaration(d)) return kc(this.fnVal(d, null, T.UNDEF));
    const o = this.ex(e.expression);
    const f = { k: 'fld', o, name: name === 'size' ? 'size' : name, src: this.src(e) };
    if (e.questionDotToken) {
      const ps = this.symOf(e.name), pt = ps && this.ck.getTypeOfSymbolAtLocation(ps, e), ok = pt && !(ps.flags & ts.SymbolFlags.Optional) && [].concat(pt.isUnion() ? pt.types : pt).every(t => !(t.flags & (ts.TypeFlags.Undefined | ts.TypeFlags.Null | ts.TypeFlags.Void | ts.TypeFlags.Any | ts.TypeFlags.Unknown | ts.TypeFlags.TypeParameter)));
      return this.optional(e.expression, o, x => !ok ? Object.assign({}, f, { o: x }) : { k: 'raw', src: this.src(e), fn: (I, st, cx) => I.ev(Object.assign({}, f, { o: x }), st, cx).flatMap(r => r.st.assume(T.ne(r.v, T.UNDEF)).map(s => ({ st: s, v: r.v }))) });
    }
    if (ts.isOptionalChain(e)) return this.chainGuard(o, f);
    return f;
  }
  // o?.rest
  optional(e, o, mk) {
    return { k: 'raw', src: this.src(e), fn: (I, st, cx) => I.bindEv(o, st, cx, (s, v) => {
      const r = []; const isN = s.simp(this.nullishT(v, this.type(e)));
      for (const s1 of s.assume(T.not(isN))) r.push(...I.ev(mk(kc(v)), s1, cx));
      for (const s1 of s.assume(isN)) r.push({ st: s1, v: T.UNDEF });
      return r;
    }) };
  }
  elem(e) {
    const c = this.constVal(e); if (c) return kc(c);
    const o = this.ex(e.expression), i = this.ex(e.argumentExpression), src = this.src(e);
    const f = { k: 'prim', args: [o, i], src, fn: (I, st, [a, b]) => this.readElem(I, st, a, b, src, this.elType(e.expression)) };
    if (e.questionDotToken) return this.optional(e.expression, o, x => ({ k: 'prim', args: [x, i], src, fn: f.fn }));
    return f;
  }
  // the declared type of the elements of a list excludes undefined
  elType(e) {
    const el = this.ck.getIndexTypeOfType(this.ck.getNonNullableType(this.ck.getTypeAtLocation(e)), ts.IndexKind.Number);
    return !!el && ![].concat(el.isUnion() ? el.types : el).some(x => x.flags & (ts.TypeFlags.Any | ts.TypeFlags.Unknown | ts.TypeFlags.Undefined));
  }
  readElem(I, st, o, i, src, typed) {
    if (o.op === 'root') return [{ st, v: S.select(st.store, o, null, i) }];
    if (o.op === 'ref') { // object with known keys
      const ff = S.refFields.get(o);
      if (ff) {
        const key = T.isNum(i) ? String(i.val) : T.isStr(i) ? i.val : null;
        if (key !== null) return [{ st, v: ff.names.includes(key) ? S.select(st.store, o, key, null) : T.UNDEF }];
        const r = []; let rest = [st];
        for (const n of ff.names) {
          const kt = /^-?\d+$/.test(n) ? T.num(n) : T.str(n);
          const nx = [];
          for (const s of rest) { for (const s1 of s.assume(T.eq(i, kt))) r.push({ st: s1, v: S.select(s1.store, o, n, null) }); nx.push(...s.assume(T.ne(i, kt))); }
          rest = nx;
        }
        for (const s of rest) r.push({ st: s, v: T.UNDEF });
        return r;
      }
    }
    if (o.op === 'app' && (o.val === 'unabis')) { if (T.isNum(i) && (i.val < 0n || Number(i.val) >= (o.args[0].op === 'tuple' ? o.args[0].args.length : 1))) { I.raise(st, T.sym('badabi'), { src: '' }); return []; } return [{ st, v: T.isNum(i) ? T.app('unabi', o.args[0].op === 'tuple' ? o.args[0].args[Number(i.val)] : o.args[0], o.args[1]) : T.app('unabis_i', o, i) }]; }
    // arrays: out of range is undefined
    const len = st.simp(S.select(st.store, o, 'length', null));
    const inb = st.simp(T.and(T.le(T.ZERO, i), T.lt(i, len)));
    const r = [];
    const neg = T.not(T.le(T.ZERO, i));
    const lo = i.op === 'lin' || T.isNum(i) ? st.assume(T.not(neg)) : [st];
    for (const s of lo) for (const s1 of s.assume(T.lt(i, len))) { const raw = this.undflt(S.select(s1.store, o, null, i)); if (typed && raw !== T.UNDEF && s1.simp(T.eq(raw, T.UNDEF)) === T.TRUE) continue; r.push({ st: s1, v: s1.simp(raw) }); }
    const out = [];
    for (const s of lo) out.push(...s.assume(T.le(len, i)));
    if (i.op === 'lin' || T.isNum(i)) out.push(...st.assume(neg));
    for (const s1 of I.join(out)) r.push({ st: s1, v: T.UNDEF });
    return r;
  }
  undflt(v) { return v.op === 'dflt' ? T.UNDEF : v; }
  readFld(I, n, st, o, cx) {
    if (o.op === 'app' && o.val === 'mapvals' && n.name === 'length') return [{ st, v: T.fld(o, 'length') }];
    if (o.op === 'app' && o.val === 'set' && n.name === 'size') return [{ st, v: T.app('size', o) }];
    if (o.op === 'app' && o.val === 'sig' && n.name === 'serialized') return [{ st, v: T.app('canonsig', o.args[0]) }];
    if (o.op === 'ite') return [{ st, v: T.fld(o, n.name) }];
    return [{ st, v: st.simp(this.undflt(S.select(st.store, o, n.name, null))) }];
  }
  lv(e) {
    e = unwrap(e);
    if (ts.isIdentifier(e)) { const s = this.symOf(e); const kept = s.valueDeclaration && this.kept(s.valueDeclaration); if (kept) return kept; return { k: 'var', d: this.idOf(s.valueDeclaration), name: e.text }; }
    if (ts.isPropertyAccessExpression(e)) { const x = this.prop(e); if (x.k === 'root' || x.k === 'fld') return x; return { k: 'fld', o: this.ex(e.expression), name: e.name.text, src: this.src(e) }; }
    if (ts.isElementAccessExpression(e)) return { k: 'idx', o: this.ex(e.expression), i: this.ex(e.argumentExpression), src: this.src(e) };
    return this.ex(e);
  }
  binary(e) {
    const op = e.operatorToken.kind, src = this.src(e);
    const A = () => this.ex(e.left), B = () => this.ex(e.right);
    switch (op) {
      case K.AmpersandAmpersandToken: case K.BarBarToken: {
        const tl = this.type(e.left), kl = this.kindOf(tl);
        if (kl === 'bool' && this.kindOf(this.type(e.right)) === 'bool') return this.cond(e);
        const a = A(), b = B(), isAnd = op === K.AmpersandAmpersandToken;
        return { k: 'raw', src, fn: (I, st, cx) => I.bindEv(a, st, cx, (s, v) => {
          const c = s.simp(this.truthTerm(v, kl, tl)); const r = [];
          for (const s1 of s.assume(isAnd ? c : T.not(c))) r.push(...I.ev(b, s1, cx));
          for (const s1 of s.assume(isAnd ? T.not(c) : c)) r.push({ st: s1, v });
          return I.mergeRes(r);
        }) };
      }
      case K.QuestionQuestionToken: return { k: 'nullish', a: A(), b: B(), src, noNull: !this.mayNull(this.type(e.left)) };
      case K.EqualsToken: {
        const l = unwrap(e.left);
        if (this.singleton(this.type(l)) && ts.isPropertyAccessExpression(l)) return this.o.wires ? { k: 'prim', args: [this.ex(l.expression), B()], src, fn: (I, st, [o, v]) => [{ st: this.tr(I, st, 'wire', src, { recv: o, name: l.name.text, v }), v }] } : { k: 'seq', els: [B()] };
        return { k: 'assign', t: this.lv(l), v: B(), src };
      }
      case K.PlusEqualsToken: return { k: 'assign', op: '+=', t: this.lv(e.left), v: B(), src };
      case K.MinusEqualsToken: return { k: 'assign', op: '-=', t: this.lv(e.left), v: B(), src };
      case K.AmpersandAmpersandEqualsToken: case K.BarBarEqualsToken: case K.QuestionQuestionEqualsToken: return { k: 'assign', op: e.operatorToken.getText(), t: this.lv(e.left), v: B(), src };
      case K.CommaToken: return { k: 'seq', els: [A(), B()] };
      case K.EqualsEqualsToken: case K.ExclamationEqualsToken: case K.EqualsEqualsEqualsToken: case K.ExclamationEqualsEqualsToken: {
        const neg = op === K.ExclamationEqualsToken || op === K.ExclamationEqualsEqualsToken;
        const loose = op === K.EqualsEqualsToken || op === K.ExclamationEqualsToken;
        return { k: 'prim', args: [A(), B()], src, fn: (I, st, [a, b]) => {
          let c;
          const nn = x => x.op === 'null' || x.op === 'undef';
          if (loose && (nn(a) || nn(b))) c = this.nullishT(nn(a) ? b : a, this.type(nn(a) ? e.right : e.left));
          else c = this.eqT(st, a, b);
          c = st.simp(c);
          return [{ st, v: neg ? T.not(c) : c }];
        } };
      }
      case K.LessThanToken: case K.GreaterThanToken: case K.LessThanEqualsToken: case K.GreaterThanEqualsToken: {
        const str = [e.left, e.right].some(x => this.kindOf(this.type(x)) === 'str');
        const o = e.operatorToken.getText();
        if (str) return { k: 'prim', args: [A(), B()], src, fn: (I, st, [a, b]) => { const l = o[0] === '<' ? [a, b] : [b, a]; const c = o.length === 1 ? T.app('strlt', l[0], l[1]) : T.not(T.app('strlt', l[1], l[0])); return [{ st, v: st.simp(c) }]; } };
        return { k: 'bin', op: o, a: A(), b: B(), src };
      }
      case K.PlusToken: {
        if (this.kindOf(this.type(e)) === 'str') return { k: 'prim', args: [A(), B()], src, fn: (I, st, vs) => [{ st, v: this.concat(vs) }] };
        return { k: 'bin', op: '+', a: A(), b: B(), src };
      }
      case K.InstanceOfKeyword: return { k: 'prim', args: [A()], src, fn: (I, st, [v]) => [{ st, v: T.app('instanceof ' + e.right.getText(), v) }] };
      case K.InKeyword: return { k: 'prim', args: [A(), B()], src, fn: (I, st, [a, b]) => [{ st, v: T.app('in', a, b) }] };
      default: return { k: 'bin', op: e.operatorToken.getText(), a: A(), b: B(), src };
    }
  }
  eqT(st, a, b) {
    const A = S.snapshot(st.store, a), B = S.snapshot(st.store, b);
    if (A.op === 'app' && B.op === 'app' && A.val === 'abi' && B.val === 'abi' && A.args[0] === B.args[0]) return this.eqT(st, A.args[1], B.args[1]);
    if (A.op === 'app' && B.op === 'app' && A.val === 'unabi' && B.val === 'unabi' && A.args[0] === B.args[0] && A.args[1] === B.args[1]) return T.TRUE;
    return T.eq(a.op === 'ref' ? a : a, b);
  }
  objLit(e) {
    const src = this.src(e); const parts = []; const names = [];
    for (const p of e.properties) {
      if (ts.isSpreadAssignment(p)) { parts.push({ spread: this.ex(p.expression) }); continue; }
      let name;
      if (ts.isComputedPropertyName(p.name)) { const c = this.constVal(unwrap(p.name.expression)); name = c ? String(c.val) : '[' + p.name.getText() + ']'; } else name = p.name.text;
      const v = ts.isShorthandPropertyAssignment(p) ? this.ident(p.name) : ts.isMethodDeclaration(p) ? { k: 'raw', fn: (I, st, cx) => [{ st, v: this.fnVal(p, cx.frame, cx.self) }] } : this.ex(p.initializer);
      parts.push({ name, v }); names.push(name);
    }
    const nodes = parts.map(p => p.v || p.spread);
    return { k: 'raw', src, fn: (I, st, cx) => I.evList(nodes, st, cx).map(({ st: s, vs }) => {
      const r = I.alloc({ src }, 'obj');
      let allNames = names.slice();
      parts.forEach((p, i) => {
        if (p.name) { s = s.write(T.fld(r, p.name), vs[i]); return; }
        const ff = S.refFields.get(vs[i]);
        if (ff) for (const n of ff.names) { allNames.push(n); s = s.write(T.fld(r, n), S.select(s.store, vs[i], n, null)); }
      });
      allNames = [...new Set(allNames)].sort();
      S.refFields.set(r, { name: 'obj', names: allNames });
      return { st: s, v: r };
    }) };
  }
  arrLit(e) {
    const src = this.src(e);
    if (e.elements.length === 1 && ts.isSpreadElement(e.elements[0])) { // copy
      const x = this.ex(e.elements[0].expression);
      return { k: 'prim', args: [x], src, fn: (I, st, [v]) => this.newArr(I, st, src, v) };
    }
    const els = e.elements.map(x => this.ex(x)), spr = e.elements.map(x => ts.isSpreadElement(x));
    return { k: 'raw', src, fn: (I, st, cx) => I.evList(els, st, cx).map(({ st: s, vs }) => {
      const r = I.alloc({ src }, 'arr'); S.refElem.set(r, T.UNDEF);
      if (spr.some(Boolean)) return this.joined(I, s, src, vs, spr);
      vs.forEach((v, i) => { s = s.write(T.idx(r, T.num(i)), v); });
      s = s.write(T.fld(r, 'length'), T.num(vs.length));
      return { st: s, v: r };
    }) };
  }
  // a new list: the elements of each spread list and the single ones, in order
  joined(I, s, src, vs, spr) {
    const r = I.alloc({ src }, 'arr'); S.refElem.set(r, T.UNDEF);
    s = s.write(T.fld(r, 'length'), T.ZERO);
    let n = 0;
    vs.forEach((v, i) => {
      if (!spr[i]) { s = this.pushEl(s, r, v); n++; return; }
      let l = S.snapshot(s.store, v); if (l.op === 'app' && l.val === 'set') l = T.app('elems', l);
      if (l.op === 'arr') for (const x of l.args) { s = this.pushEl(s, r, x); n++; }
      else { s = s.write(r, n ? T.app('concatArr', S.snapshot(s.store, r), l) : l); n++; }
    });
    return { st: s, v: r };
  }
  newArr(I, st, src, v) { const val = S.snapshot(st.store, v); return [{ st, v: val.op === 'app' && val.val === 'set' ? T.app('elems', val) : val }]; }
  // ---- functions
  fnVal(decl, scope, self) { return T.fnVal(`${this.nameOf(decl)}@${this.idOf(decl)}@${scope ? scope.id : 0}@${self ? self.id : 0}`, { decl, scope, self }); }
  nameOf(d) {
    if (ts.isConstructorDeclaration(d)) return d.parent.name.text + '.constructor';
    if (d.name && d.parent && ts.isClassDeclaration(d.parent)) return d.parent.name.text + '.' + d.name.getText();
    if (d.name) return d.name.getText();
    const p = d.parent; if (p && p.name && ts.isIdentifier(p.name)) return p.name.text;
    return 'fn:' + where(d);
  }
  lower(decl) {
    let r = this.lowered.get(decl); if (r) return r;
    const params = [], pre = []; let rest = -1;
    decl.parameters.forEach((p, i) => {
      if (p.dotDotDotToken) rest = i;
      if (ts.isIdentifier(p.name)) { params.push({ d: this.idOf(p) }); } else { const d = 'p' + (++this.nid); params.push({ d }); pre.push(...this.destructure(p.name, { k: 'var', d, name: 'arg' })); }
      if (p.initializer) { const v = { k: 'var', d: params[i].d, name: 'arg' }; pre.unshift({ k: 'if', c: { k: 'prim', args: [v], fn: (I, st, [x]) => [{ st, v: st.simp(T.eq(x, T.UNDEF)) }] }, a: { k: 'expr', e: { k: 'assign', t: v, v: this.ex(p.initializer) } } }); }
    });
    let body;
    if (!decl.body) body = { k: 'nop' };
    else if (ts.isBlock(decl.body)) body = this.stmts(decl.body.statements);
    else body = { k: 'return', e: this.ex(decl.body), src: this.src(decl.body) };
    if (ts.isConstructorDeclaration(decl)) for (const p of decl.parameters) if (p.modifiers && p.modifiers.some(m => [K.PrivateKeyword, K.PublicKeyword, K.ReadonlyKeyword, K.ProtectedKeyword].includes(m.kind))) {
      if (this.singleton(this.type(p))) continue;
      pre.push({ k: 'expr', e: { k: 'assign', t: { k: 'fld', o: { k: 'this' }, name: p.name.text }, v: { k: 'var', d: this.idOf(p), name: p.name.text } } });
    }
    if (pre.length) body = { k: 'block', body: pre.concat([body]) };
    let closures = false;
    (function v(n) { if (n !== decl && isFnLike(n)) closures = true; ts.forEachChild(n, v); })(decl);
    this.lowered.set(decl, r = { params, body, rest, closures });
    return r;
  }
  fnOf(decl, scope) {
    const l = this.lower(decl);
    return { key: 'f' + this.idOf(decl), name: this.nameOf(decl), params: l.params, body: l.body, scope, keepFrame: l.closures, maxDepth: 1 };
  }
  // the declared result is an object, which is never undefined
  neverUndef(decl) {
    if (!this.nuMemo) this.nuMemo = new Map();
    if (!this.nuMemo.has(decl)) {
      const sg = this.ck.getSignatureFromDeclaration(decl); let t = sg && this.ck.getReturnTypeOfSignature(sg);
      if (t && t.symbol && t.symbol.name === 'Promise') t = (this.ck.getTypeArguments(t) || [])[0];
      const obj = x => !!(x.flags & ts.TypeFlags.Object) || x.isIntersection();
      this.nuMemo.set(decl, !!t && (obj(t) || (t.isUnion() && t.types.every(obj))));
    }
    return this.nuMemo.get(decl);
  }
  callDecl(I, decl, self, args, st, cx, callSrc, scope, extra) {
    const l = this.lower(decl);
    let op = this.o.opaque && this.o.opaque[this.nameOf(decl)], post = null;
    if (op && op.as) { post = op.post; op = op.as; }
    if (op && I.stack.length) {
      if (typeof op === 'function') { const r = op(this, I, st, self, args, cx, callSrc, decl); if (r) return r; }
      else {
        const a = args.map(v => S.snapshot(st.store, v));
        I.emit('icall', st, { src: callSrc }, { callee: this.nameOf(decl), args: a, raw: args, self });
        const pure = op === 'pure' || op === 'nothrow';
        if (op === 'pure') I.raise(st, T.sym('err:' + this.nameOf(decl)), { src: callSrc });
        const ver = st.x.ver || 0;
        if (pure && ver && !hasMod(decl, K.StaticKeyword)) a.push(T.sym('v' + ver));
        const ret = pure ? T.app(this.nameOf(decl), ...a) : I.sym({ src: callSrc }, 'r_' + this.nameOf(decl));
        if (!pure) st = this.tr(I, st, 'call', callSrc, { callee: this.nameOf(decl), args: a, raw: args, self, ret }).withX('ver', ver + 1);
        if (!pure) I.raise(st, T.sym('err:' + this.nameOf(decl)), { src: callSrc }); // a call that fails was made, too
        if (post) { let ss = [st.assume(T.ne(ret, T.UNDEF))].flat(); for (const t of post(ret)) ss = ss.flatMap(s => s.assume(t)); return ss.map(s => ({ st: s, v: ret })); }
        if (this.neverUndef(decl)) return st.assume(T.ne(ret, T.UNDEF)).map(s => ({ st: s, v: ret }));
        return [{ st, v: ret }];
      }
    }
    if (I.stack.some(f => f.key === 'f' + this.idOf(decl))) I.emit('recurse', st, { src: callSrc }, { callee: this.nameOf(decl), args: args.map(v => S.snapshot(st.store, v)), raw: args });
    if (l.rest >= 0) args = args.slice(0, l.rest).concat([T.arr(args.slice(l.rest))]);
    return I.inline(this.fnOf(decl, scope || null), args, st, cx, Object.assign({ self, callSrc, yieldFn: undefined }, extra || {}));
  }
  callFn(I, f, args, st, cx, src) {
    if (f.op === 'fn' && f.prim) return f.prim(I, st, args, cx, src);
    if (f.op === 'fn' && f.decl) return this.callDecl(I, f.decl, f.self, args, st, cx, src, f.scope);
    if (f.op === 'ite') { const r = []; for (const s of st.assume(f.args[0])) r.push(...this.callFn(I, f.args[1], args, s, cx, src)); for (const s of st.assume(T.not(f.args[0]))) r.push(...this.callFn(I, f.args[2], args, s, cx, src)); return r; }
    st = this.tr(I, st, 'callback', src, { f, args });
    if (this.o.cbThrows && (this.o.cbThrows === true || this.o.cbThrows(f))) I.raise(st, T.sym('cberr'), { src });
    return [{ st, v: T.app('callv', f, ...args) }];
  }
  destructure(pat, val) {
    const out = [];
    if (ts.isIdentifier(pat)) throw new Error('destructure');
    const tmp = 't' + (++this.nid);
    out.push({ k: 'let', d: tmp, init: val });
    const tv = { k: 'var', d: tmp, name: 'tmp' };
    pat.elements.forEach((el, i) => {
      if (ts.isOmittedExpression(el)) return;
      const src = this.src(el);
      let v;
      if (ts.isObjectBindingPattern(pat)) { const nm = (el.propertyName || el.name).getText(); const sg = this.singleton(this.type(el)); v = sg ? kc(sg) : { k: 'fld', o: tv, name: nm, src }; }
      else v = { k: 'prim', args: [tv], src, fn: (I, st, [o]) => this.readElem(I, st, o, T.num(i), src).slice(0, 1) };
      if (el.initializer) v = { k: 'raw', fn: ((v0, init) => (I, st, cx) => I.bindEv(v0, st, cx, (s, x) => { const r = []; for (const s1 of s.assume(T.eq(x, T.UNDEF))) r.push(...I.ev(init, s1, cx)); for (const s1 of s.assume(T.ne(x, T.UNDEF))) r.push({ st: s1, v: x }); return r; }))(v, this.ex(el.initializer)) };
      if (ts.isIdentifier(el.name)) out.push({ k: 'let', d: this.idOf(el), init: v });
      else out.push(...this.destructure(el.name, v));
    });
    return out;
  }
  // ---- statements
  stmts(list) { return { k: 'block', body: [...list].map(s => this.stmt(s)) }; }
  stmt(s) {
    const src = this.src(s);
    switch (s.kind) {
      case K.Block: return this.stmts(s.statements);
      case K.ExpressionStatement: return { k: 'expr', e: this.ex(s.expression), src };
      case K.VariableStatement: return { k: 'block', body: s.declarationList.declarations.flatMap(d => this.varDecl(d)) };
      case K.IfStatement: return { k: 'if', c: this.cond(s.expression), a: this.stmt(s.thenStatement), b: s.elseStatement && this.stmt(s.elseStatement), src };
      case K.ReturnStatement: { const e = s.expression && this.ex(s.expression), t = this.unwaited(s); return !t ? { k: 'return', e, src } : t.early ? { k: 'raws', src, fn: (I, st) => { I.raise(st, T.sym('typeerr'), { src }); return []; } } : this.returnPromise(e, s, t.depth, src); }
      case K.ThrowStatement: return { k: 'throw', e: this.ex(s.expression), src };
      case K.BreakStatement: return { k: 'break', label: s.label && s.label.text };
      case K.ContinueStatement: return { k: 'continue', label: s.label && s.label.text };
      case K.LabeledStatement: { const x = this.stmt(s.statement); x.label = s.label.text; return x; }
      case K.TryStatement: {
        const cc = s.catchClause;
        return { k: 'try', body: this.stmts(s.tryBlock.statements), handler: cc && this.stmts(cc.block.statements), param: cc && cc.variableDeclaration && this.idOf(cc.variableDeclaration), final: s.finallyBlock && this.stmts(s.finallyBlock.statements), src };
      }
      case K.ForStatement: {
        const init = s.initializer && (ts.isVariableDeclarationList(s.initializer) ? { k: 'block', body: s.initializer.declarations.flatMap(d => this.varDecl(d)) } : { k: 'expr', e: this.ex(s.initializer) });
        return { k: 'loop', init, cond: s.condition && this.cond(s.condition), update: s.incrementor && { k: 'expr', e: this.ex(s.incrementor) }, body: this.stmt(s.statement), src };
      }
      case K.WhileStatement: return { k: 'loop', cond: this.cond(s.expression), body: this.stmt(s.statement), src };
      case K.DoStatement: return { k: 'loop', cond: this.cond(s.expression), doWhile: true, body: this.stmt(s.statement), src };
      case K.ForOfStatement: return this.forOf(s);
      case K.ForInStatement: return { k: 'raws', src, fn: (I, st) => { I.notes.push('for-in at ' + src); return [st]; } };
      case K.SwitchStatement: return this.switchS(s);
      case K.EmptyStatement: case K.FunctionDeclaration: case K.InterfaceDeclaration: case K.TypeAliasDeclaration: return { k: 'nop' };
      default: this.unknown.add(K[s.kind]); return { k: 'nop' };
    }
  }
  // a promise returned from inside try without waiting for it: its rejection is not caught there, and finally runs before it settles
  unwaited(s) {
    const e = s.expression && unwrap(s.expression);
    if (!e || ts.isAwaitExpression(e) || !this.isPromise(this.type(e))) return null;
    let depth = 0, early = false;
    for (let c = s, p = s.parent; p && !ts.isFunctionLike(p); c = p, p = p.parent) if (ts.isTryStatement(p) && c !== p.finallyBlock) {
      if (p.finallyBlock && this.acts(p.finallyBlock)) early = true;
      if (c === p.tryBlock && p.catchClause) depth++; else if (depth && p.finallyBlock) depth++;
    }
    return early || depth ? { early, depth } : null;
  }
  // a promise kept beyond the try it was started in, whose finally then runs while the work is still under way
  outlives(a) {
    const y = ts.isIdentifier(unwrap(a.left)) && this.ck.getSymbolAtLocation(unwrap(a.left)), d = y && y.valueDeclaration;
    for (let c = a, p = a.parent; p && !ts.isFunctionLike(p); c = p, p = p.parent) if (ts.isTryStatement(p) && c !== p.finallyBlock && p.finallyBlock && this.acts(p.finallyBlock) && !(d && d.pos >= p.pos && d.end <= p.end)) return true;
    return false;
  }
  acts(b) { let r = false; const go = n => { if (ts.isFunctionLike(n)) return; if (ts.isCallExpression(n) && !/^console\./.test(n.expression.getText()) || ts.isBinaryExpression(n) && n.operatorToken.kind >= K.FirstAssignment && n.operatorToken.kind <= K.LastAssignment) r = true; ts.forEachChild(n, go); }; go(b); return r; }
  returnPromise(e, s, depth, src) {
    const c = unwrap(s.expression), as = ts.isCallExpression(c) ? [...c.arguments.map(a => this.ex(a)), ...(ts.isPropertyAccessExpression(c.expression) ? [this.ex(c.expression.expression)] : [])] : [];
    return { k: 'raws', src, fn: (I, st, cx, out) => {
      const own = I.thr, rec = I.rec, sync = [], all = [];
      I.rec = false; I.thr = sync; for (const a of as) I.ev(a, st, cx);
      I.rec = rec; I.thr = all; for (const r of I.ev(e, st, cx)) out.ret.push(r);
      I.thr = own; const seen = new Set(sync.map(x => x.v && x.v.id)), outer = I.tries[I.tries.length - depth] || own;
      for (const x of all) (seen.has(x.v && x.v.id) ? own : outer).push(x);
      return [];
    } };
  }
  varDecl(d) {
    const init = d.initializer && (ts.isCallExpression(unwrap(d.initializer)) && this.bgOnly(d) ? this.thunk(d.initializer) : this.ex(d.initializer));
    if (ts.isIdentifier(d.name)) return [{ k: 'let', d: this.idOf(d), init, src: this.src(d) }];
    return this.destructure(d.name, init);
  }
  switchS(s) {
    // switch lowered to a do-once loop so that break works
    const src = this.src(s); const v = 'sw' + (++this.nid), hit = 'sh' + (++this.nid);
    const V = { k: 'var', d: v, name: 'switch' }, H = { k: 'var', d: hit, name: 'hit' };
    const body = [];
    const cl = s.caseBlock.clauses;
    const anyCase = cl.filter(c => ts.isCaseClause(c)).map(c => this.ex(c.expression));
    cl.forEach(c => {
      const isD = ts.isDefaultClause(c);
      const test = isD
        ? { k: 'prim', args: [V, ...anyCase], fn: (I, st, [x, ...cs]) => [{ st, v: st.simp(cs.reduce((a, y) => T.and(a, T.not(this.eqT(st, x, y))), T.TRUE)) }] }
        : { k: 'prim', args: [V, this.ex(c.expression)], fn: (I, st, [x, y]) => [{ st, v: st.simp(this.eqT(st, x, y)) }] };
      body.push({ k: 'if', c: { k: 'or', a: H, b: test, src }, a: { k: 'block', body: [{ k: 'expr', e: { k: 'assign', t: H, v: kc(T.TRUE) } }, ...c.statements.map(x => this.stmt(x))] } });
    });
    return { k: 'raws', src, fn: (I, st, cx, out) => {
      const o = new Out();
      let cur = I.exec({ k: 'block', body: [{ k: 'let', d: v, init: this._sw(s) }, { k: 'let', d: hit, init: kc(T.FALSE) }, ...body] }, st, cx, o);
      out.ret.push(...o.ret); out.cont.push(...o.cont);
      for (const b of o.brk) if (b.label) out.brk.push(b); else cur = cur.concat([b.st]);
      return I.join(cur);
    } };
  }
  _sw(s) { return s._swx || (s._swx = this.ex(s.expression)); }
  forOf(s) {
    const src = this.src(s); const it = unwrap(s.expression);
    const decl = ts.isVariableDeclarationList(s.initializer) ? s.initializer.declarations[0] : null;
    const bind = v => !decl ? [{ k: 'expr', e: { k: 'assign', t: this.lv(s.initializer), v } }] : ts.isIdentifier(decl.name) ? [{ k: 'let', d: this.idOf(decl), init: v }] : this.destructure(decl.name, v);
    const body = this.stmt(s.statement);
    // generator call
    if (ts.isCallExpression(it)) {
      const sig = this.ck.getResolvedSignature(it); const d = sig && sig.declaration;
      if (d && d.asteriskToken && d.body) {
        const args = it.arguments.map(a => this.ex(a));
        const recv = ts.isPropertyAccessExpression(it.expression) ? this.ex(it.expression.expression) : UND;
        return { k: 'raws', src, fn: (I, st, cx, out) => {
          const L = 'gen' + (++this.nid), RV = cx.frame.id + ':$gr' + L;
          let res = [];
          const tmp = { k: 'var', d: 'gv' + this.nid, name: 'elem' };
          const b = { k: 'block', body: bind(tmp).concat([body]) };
          for (const { st: s0, vs } of I.evList([recv, ...args], st, cx)) {
            const acc = { brk: [], ret: [] };
            const yieldFn = (I2, s2, v) => {
              const o = new Out();
              const s3 = s2.setVar(cx.frame.id + ':' + tmp.d, v);
              let n = I2.exec(b, s3, cx, o);
              n = n.concat(o.cont.filter(c => !c.label || c.label === s.label).map(c => c.st));
              for (const x of o.brk) if (!x.label || x.label === s.label) I2._genOut.push({ st: x.st, label: L + 'B' });
              for (const x of o.ret) I2._genOut.push({ st: x.st.setVar(RV, x.v), label: L + 'R' });
              return I2.join(n).map(y => ({ st: y, v: T.UNDEF }));
            };
            const l = this.lower(d);
            const exec = (I2, s2, ncx, out2) => {
              const o = new Out();
              const norm = I2.exec(this.genBody(d), s2, ncx, o);
              out2.ret.push(...o.ret);
              for (const x of o.brk) (x.label === L + 'B' ? acc.brk : acc.ret).push(x.st);
              return norm;
            };
            const fn = { key: 'f' + this.idOf(d) + L, name: this.nameOf(d), params: l.params, exec, scope: null, keepFrame: true };
            const rs = I.inline(fn, vs.slice(1), s0, cx, { self: vs[0], callSrc: src, yieldFn });
            res.push(...rs.map(r => r.st), ...acc.brk);
            for (const x of acc.ret) out.ret.push({ st: x, v: x.env.get(RV) });
          }
          return I.join(res);
        } };
      }
    }
    const arr = this.ex(it);
    const A = 'fa' + (++this.nid), I0 = 'fi' + (++this.nid);
    const av = { k: 'var', d: A, name: 'arr' }, iv = { k: 'var', d: I0, name: 'i' };
    const FV = 'fv' + this.nid;
    const inner = { k: 'block', body: [...bind({ k: 'idx', o: av, i: iv, nocheck: true, src }), body] };
    const guarded = { k: 'if', src, a: inner, c: { k: 'prim', args: [{ k: 'var', d: FV, name: 'list' }, iv], src, fn: (I, st, [v, i]) => [{ st, v: st.simp(this.peel(v).preds.reduce((a, p) => T.and(a, p(i)), T.TRUE)) }] } };
    return { k: 'block', body: [
      { k: 'let', d: FV, init: { k: 'prim', args: [arr], src, fn: (I, st, [v]) => [{ st, v: v.op === 'app' && v.val === 'set' ? T.app('elems', v) : v }] } },
      { k: 'let', d: A, init: { k: 'prim', args: [{ k: 'var', d: FV, name: 'list' }], src, fn: (I, st, [v]) => [{ st, v: this.peel(v).base }] } },
      { k: 'loop', label: s.label, src, init: { k: 'let', d: I0, init: kc(T.ZERO) },
        cond: { k: 'bin', op: '<', a: iv, b: { k: 'fld', o: av, name: 'length' }, src },
        update: { k: 'expr', e: { k: 'incdec', op: '++', t: iv } },
        body: guarded }
    ] };
  }
  // body of a generator: `yield e;` statements hand the states back through labelled exits
  genBody(d) {
    let r = this.lowered.get('gen' + this.idOf(d)); if (r) return r;
    const self = this;
    const conv = n => {
      if (n.k === 'block') return { k: 'block', body: n.body.map(conv) };
      if (n.k === 'if') return Object.assign({}, n, { a: conv(n.a), b: n.b && conv(n.b) });
      if (n.k === 'loop') return Object.assign({}, n, { body: conv(n.body) });
      if (n.k === 'expr') return { k: 'raws', src: n.src, fn: (I, st, cx, out) => { const save = I._genOut; I._genOut = []; const rs = I.ev(n.e, st, cx); const g = I._genOut; I._genOut = save; out.brk.push(...g); return rs.map(x => x.st); } };
      return n;
    };
    r = conv(this.lower(d).body);
    this.lowered.set('gen' + this.idOf(d), r);
    return r;
  }
}
module.exports = { TsFront, program, ts, where, REPO, SM, SINGLETONS, K, unwrap, isFnLike, hasMod, kc, UND, nullish, normStr };
require('./tscall');
