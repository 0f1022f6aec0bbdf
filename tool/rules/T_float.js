'use strict';
// No work is started whose failure nobody handles: every discarded promise handles its failure or cannot fail, and
// every asynchronous function handed to foreign code cannot fail.
const L = require('./tlib'), U0 = require('./T_util');
const { T, S, Query, par, run, ts, P } = L;
const { callv, feasible } = U0;
const ck = P.ck;
const inSrc = d => d && d.getSourceFile().fileName.startsWith(L.REPO + '/src/');
const isPromise = n => !!ck.getPropertyOfType(ck.getApparentType(ck.getTypeAtLocation(n)), 'then');
const strip = e => { while (ts.isParenthesizedExpression(e) || ts.isNonNullExpression(e) || ts.isAsExpression(e)) e = e.expression; return e; };
const OPQ = { 'StateManager.setState': 'eff', 'StateManager.collectOnChainBlock': 'eff', 'StateManager.onDisputeUpdate': 'nothrow', 'P2PManager.onRpc': 'nothrow', 'P2PManager.addConnection': 'nothrow', 'P2PManager.removeConnection': 'nothrow' };
const QUIETLY = new Set(['off', 'emit', 'removeListener', 'removeAllListeners']); // ethers: giving up or announcing events that were subscribed before
// the declaration a function-valued expression denotes
function fnOf(e) {
  e = strip(e);
  if (ts.isArrowFunction(e) || ts.isFunctionExpression(e)) return e;
  let s = ck.getSymbolAtLocation(ts.isPropertyAccessExpression(e) ? e.name : e); if (s && s.flags & ts.SymbolFlags.Alias) s = ck.getAliasedSymbol(s);
  const d = s && s.valueDeclaration;
  if (!d || !inSrc(d)) return ts.isPropertyAccessExpression(e) && e.expression.getText() === 'console' ? 'console' : null;
  if (ts.isVariableDeclaration(d) && d.initializer) return fnOf(d.initializer);
  return d.body ? d : null;
}
const onlyLogs = d => { let ok = true; const v = n => { if (ts.isCallExpression(n) && !/^console\.\w+$/.test(n.expression.getText()) && !/^String$/.test(n.expression.getText())) ok = false; if (ts.isThrowStatement(n) || ts.isAwaitExpression(n) || ts.isNewExpression(n)) ok = false; ts.forEachChild(n, v); }; v(d.body); return ok; };
// the function never fails, whatever it is given
function cannotFail(d) {
  if (d === 'console') return true;
  if (!d) return false;
  if (onlyLogs(d)) return true;
  try { const r = run(null, d, { front: { trace: true, opaque: OPQ, cbThrows: true } }); return r.thr.filter(feasible).length === 0; } catch (e) { return false; }
}
// the promise is of a chain that handles its failure, or of work that cannot fail
function settled(e) {
  e = strip(e);
  if (!ts.isCallExpression(e)) return null;
  const c = strip(e.expression);
  if (ts.isPropertyAccessExpression(c) && isPromise(c.expression)) {
    if (c.name.text === 'catch') return e.arguments.length === 1 && cannotFail(fnOf(e.arguments[0])) ? 'handled' : null;
    if (c.name.text === 'finally') return settled(c.expression) && e.arguments.length === 1 && cannotFail(fnOf(e.arguments[0])) ? 'handled' : null;
    if (c.name.text === 'then') return e.arguments.length === 2 && (/^(undefined|null)$/.test(e.arguments[0].getText()) || cannotFail(fnOf(e.arguments[0]))) && cannotFail(fnOf(e.arguments[1])) || settled(c.expression) && e.arguments.length === 1 && cannotFail(fnOf(e.arguments[0])) ? 'handled' : null;
  }
  const d = (ck.getResolvedSignature(e) || {}).declaration;
  if (inSrc(d) && d.body) {
    const cn = ts.isClassDeclaration(d.parent) && d.parent.name ? d.parent.name.text : null;
    try { const r = run(cn && P.classes.get(cn) === d.parent ? cn : null, d, { front: { trace: true, opaque: OPQ, cbThrows: true } }); return r.thr.filter(feasible).length === 0 ? 'cannot fail' : null; } catch (x) { return null; }
  }
  if (!inSrc(d) && ts.isPropertyAccessExpression(c) && QUIETLY.has(c.name.text)) return 'assumed';
  return null;
}
const encl = n => { for (let p = n.parent; p; p = p.parent) { if ((ts.isMethodDeclaration(p) || ts.isConstructorDeclaration(p) || ts.isFunctionDeclaration(p)) && p.body) return p; if ((ts.isArrowFunction(p) || ts.isFunctionExpression(p)) && ts.isVariableDeclaration(p.parent)) return p; } return null; };
const LATER = new Set(['on', 'once', 'addListener', 'addEventListener', 'setTimeout', 'setInterval', 'setImmediate', 'queueMicrotask', 'nextTick', 'forEach']);
const groups = {};
groups.floats = rep => {
  let n = 0, m = 0;
  for (const sf of P.prog.getSourceFiles()) {
    if (!inSrc(sf) || / copy\.ts$/.test(sf.fileName)) continue;
    const visit = x => {
      if (ts.isExpressionStatement(x) || ts.isVoidExpression(x)) {
        const e = strip(ts.isExpressionStatement(x) && ts.isVoidExpression(strip(x.expression)) ? strip(x.expression).expression : x.expression);
        if (!ts.isAwaitExpression(e) && !ts.isVoidExpression(e) && !(ts.isBinaryExpression(e) && e.operatorToken.kind === ts.SyntaxKind.EqualsToken) && isPromise(e) && !(ts.isVoidExpression(x) && ts.isExpressionStatement(x.parent))) {
          n++; const k = settled(e);
          rep.ob(`float:${name(x)}:${e.getText().replace(/\s+/g, ' ').slice(0, 60)}`, !!k, L.where(x), 'a failure of work nobody waits for is handled, or cannot happen', k || 'unhandled');
        }
      }
      // work kept in a variable that nothing but logging looks at is not waited for either
      if (ts.isVariableDeclaration(x) && x.initializer && ts.isIdentifier(x.name) && ts.isCallExpression(strip(x.initializer)) && isPromise(strip(x.initializer)) && !waited(x)) {
        n++; const k = settled(strip(x.initializer));
        rep.ob(`float:${name(x)}:${x.name.text}`, !!k, L.where(x), 'a failure of work nobody waits for is handled, or cannot happen', k || 'unhandled');
      }
      if ((ts.isArrowFunction(x) || ts.isFunctionExpression(x)) && ts.isCallExpression(x.parent) && x.parent.expression !== x) {
        const rt = ck.getReturnTypeOfSignature(ck.getSignatureFromDeclaration(x)), sg = ck.getResolvedSignature(x.parent), c = x.parent.expression, cn = ts.isPropertyAccessExpression(c) ? c.name.text : c.getText();
        if (ck.getPropertyOfType(ck.getApparentType(rt), 'then') && !inSrc(sg && sg.declaration) && LATER.has(cn)) { m++; rep.ob(`async:${name(x)}:${cn}`, neverFails(x), L.where(x), 'an asynchronous handler called by others never fails', ''); }
      }
      ts.forEachChild(x, visit);
    };
    visit(sf);
  }
  rep.floor('discarded promises', n, 5, 'discarded promises');
  rep.floor('asynchronous handlers', m, 3, 'asynchronous handlers called by others');
  rep.assumption('ethers: giving up a subscription and announcing an event of a contract do not fail');
};
function waited(d) {
  const sy = ck.getSymbolAtLocation(d.name); let scope = d.parent; while (scope.parent && !ts.isSourceFile(scope) && !(ts.isBlock(scope) && scope.parent && (ts.isFunctionLike(scope.parent)))) scope = scope.parent;
  let used = false;
  const v = n => {
    if (used) return;
    if (ts.isCallExpression(n) && /^console\./.test(n.expression.getText())) return;
    if (ts.isIdentifier(n) && n !== d.name && (ck.getSymbolAtLocation(n) === sy || ts.isShorthandPropertyAssignment(n.parent) && ck.getShorthandAssignmentValueSymbol(n.parent) === sy)) { used = true; return; }
    ts.forEachChild(n, v);
  };
  v(scope); return used;
}
const name = x => { const d = encl(x); return d ? (d.parent.name && ts.isClassDeclaration(d.parent) ? d.parent.name.text + '.' : '') + (d.name ? d.name.getText() : ts.isVariableDeclaration(d.parent) ? d.parent.name.getText() : 'constructor') : 'module'; };
// the handler, as the enclosing function creates it, has no failing path
const cache = new Map(), cacheRaw = new Map();
function neverFails(x) {
  if (cannotFail0(x)) return true;
  return [false, true].some(rawSched => holdsIn(x, rawSched));
}
function holdsIn(x, rawSched) {
  const d = encl(x); if (!d) return false;
  const m = rawSched ? cacheRaw : cache;
  if (!m.has(d)) { const cn = ts.isClassDeclaration(d.parent) && d.parent.name ? d.parent.name.text : null; try { m.set(d, run(cn, d, { front: { trace: true, rawSched, opaque: OPQ, cbThrows: true } })); } catch (e) { m.set(d, null); } }
  const r = m.get(d); if (!r) return false;
  const vals = [];
  for (const e of r.events) for (const v of [...(e.raw || []), e.v, e.f]) if (v && v.op === 'fn' && v.decl === x) vals.push([v, e.st]);
  if (!vals.length) return false;
  return vals.every(([v, st]) => { const s = st.clone(); s.trace = S.TR0; const { thr } = callv(r, v, x.parameters.map((p, i) => par('event' + i)), s); return thr.filter(feasible).length === 0; });
}
const cannotFail0 = d => d.body && onlyLogs(d);
module.exports = { groups };
