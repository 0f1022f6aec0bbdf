'use strict';
// Shared vocabulary of the client rules.
const T = require('../core/terms'), S = require('../core/state');
const { Query, Ctx, instantiate, lits } = require('../core/query');
const { TsFront, program, ts, where, REPO, SM, hasMod, K } = require('../front/ts');
const { State } = require('../core/state');
const P = program();
const cls = n => { const c = P.classes.get(n); if (!c) throw new Error('class ' + n + ' not found'); return c; };
const meth = (c, m) => { const d = cls(c).members.find(x => (ts.isMethodDeclaration(x) || ts.isConstructorDeclaration(x)) && x.body && (x.name ? x.name.getText() : 'constructor') === m); if (!d) throw new Error(`${c}.${m} not found`); return d; };
const F = (t, ...ns) => ns.reduce((x, n) => typeof n === 'string' ? T.fld(x, n) : T.idx(x, n), t);
const par = n => T.sym('p:' + n);
module.exports = { T, S, Query, Ctx, instantiate, lits, TsFront, program, P, ts, where, REPO, SM, hasMod, K, cls, meth, F, par };
let baseState = null;
function newState() { const st = new S.State(); st.uns = true; return st; }
// all behaviours of one method, started from an arbitrary object state
function run(c, m, o = {}) {
  const front = new TsFront(o.front || {});
  const I = front.interp(o.interp || {});
  front.base = o.base || base();
  if (front.o.markCatch) I.markCatch = true;
  const d = typeof m === 'string' ? (c ? meth(c, m) : P.fns.get(m)) : m;
  if (!d) throw new Error(`${c}.${m} not found`);
  const args = o.args || d.parameters.map(p => front.singleton(front.type(p)) || par(ts.isIdentifier(p.name) ? p.name.text : 'arg'));
  let st = o.st || front.base; st = st.clone ? st.clone() : st;
  for (const f of o.assume || []) { const l = st.assume(typeof f === 'function' ? f(args) : f); st = l[0]; }
  I.thr = [];
  const self = o.self || (c && !hasMod(d, K.StaticKeyword) ? (c === 'AStateMachine' ? SM : T.root(c)) : T.UNDEF);
  const frame = { id: ++I.frames, parent: null, fn: { name: 'entry' } };
  const cx = { self, frame, fn: { name: 'entry' }, stack: [], loopStack: [] };
  const res = front.callDecl(I, d, self, args, st, cx, where(d), null);
  return { I, front, res, thr: I.thr, events: I.events, args, self, decl: d, name: (c ? c + '.' : '') + m };
}
// the wiring of the long-lived objects: function-valued fields established by the constructors
function base() {
  if (baseState) return baseState;
  baseState = newState();
  let st = newState();
  const seen = new Set();
  for (const c of ['StateManager', 'AgreementManager']) {
    const front = new TsFront({ construct: true }); front.base = newState();
    const I = front.interp({}); I.thr = [];
    const d = cls(c); const ctor = d.members.find(x => ts.isConstructorDeclaration(x));
    const args = ctor ? ctor.parameters.map(p => front.singleton(front.type(p)) || par(p.name.getText())) : [];
    const cx = { self: T.root(c), frame: { id: ++I.frames, parent: null, fn: { name: 'entry' } }, fn: { name: 'entry' } };
    const rs = front.construct(I, d, T.root(c), args, newState(), cx, 'wiring');
    if (rs.length) for (let w = rs[0].st.store; w.prev; w = w.prev) { const l = w.loc || w.l; if (l && l.op === 'fld' && l.args[0].op === 'root') { const v = rs[0].st.read(l); if (v.op === 'fn' && !seen.has(l)) { seen.add(l); st = st.write(l, v); } } }
  }
  return baseState = st;
}
Object.assign(module.exports, { run, base });
// ---- abstraction of lower layers: every method of a class becomes an operation; queries are uninterpreted
// functions of the arguments, the others are effects.  Which is which is derived from the bodies.
const EFF = new Set(['write', 'push', 'take', 'mapset', 'mapdel', 'setadd', 'mapclear', 'chain', 'send', 'sm', 'schedule', 'detached', 'hook', 'ext', 'sign', 'timer', 'lock', 'unlock', 'new']);
const absCache = new Map();
function methodsOf(c) { return cls(c).members.filter(x => ts.isMethodDeclaration(x) && x.body); }
function abs(...names) {
  const r = {};
  for (const n of names) {
    if (!absCache.has(n)) {
      const m = {};
      for (const d of methodsOf(n)) {
        const k = n + '.' + d.name.getText();
        if (d.asteriskToken) continue;
        const x = run(n, d, { front: LAYER[n] ? { opaque: LAYER[n]() } : {} });
        const eff = x.events.some(e => EFF.has(e.kind) && !(LOCAL.has(e.kind) && localOnly(e)) && !(e.kind === 'new' && !e.self) || (e.kind === 'icall' && e.eff));
        m[k] = eff ? 'eff' : x.thr.length ? 'pure' : 'nothrow';
      }
      absCache.set(n, m);
    }
    Object.assign(r, absCache.get(n));
  }
  return r;
}
// changing a list or map created by the method itself is no effect
const LOCAL = new Set(['push', 'take', 'mapset', 'mapdel', 'setadd', 'mapclear']);
const localOnly = e => { const o = e.loc || e.set || e.map; if (!o) return false; const b = S.decompose(o).base; return b.op === 'ref' || (b.op === 'app'); };
const LAYER = {
  ProofManager: () => abs('AgreementManager'),
  DisputeHandler: () => abs('AgreementManager', 'ProofManager'),
  ValidationService: () => abs('AgreementManager', 'DisputeHandler', 'ProofManager'),
};
const val = (c, m, args, o) => { const r = run(c, m, Object.assign({ args }, o || {})); const vs = [...new Set(r.res.map(x => S.snapshot(x.st.store, x.v)))]; if (vs.length !== 1) throw Object.assign(new Error(`${c}.${m}: ${vs.length} outcomes where a value was expected`), { broken: { key: `${c}.${m}:value`, where: where(r.decl), rule: `${c}.${m} computes one value, determined by what it is given`, detail: vs.length ? 'it yields ' + vs.slice(0, 3).map(v => T.pp(v).slice(0, 120)).join(', or ') : 'it yields nothing' } }); return vs[0]; };
const hdr = (b, f) => F(b, 'transaction', 'header', f);
const op = (c, m, ...a) => T.app(c + '.' + m, ...a);
const AM = (m, ...a) => op('AgreementManager', m, ...a);
const enumOf = (en, name) => { const d = P.enums.get(en); if (!d) throw new Error('enum ' + en); const m = d.members.find(x => x.name.getText() === name); if (!m) throw new Error(`${en}.${name}`); return T.num(BigInt(P.ck.getConstantValue(m))); };
const fieldOf = (st, v, name) => { const x = st.simp(S.select(st.store, v, name, null)); return x.op === 'dflt' ? T.UNDEF : x; };
const snap = (st, v) => S.snapshot(st.store, v);
// obligation: on every path merged into st one alternative holds completely
function entails(st, alts) {
  const q = new Query(st);
  return q.check(cx => alts.some(a => typeof a === 'function' ? a(cx, st) : a.every(t => typeof t === 'function' ? t(cx, st) : cx.holds(t))));
}
const cover = (rep, r) => { for (const d of r.I.fnsSeen) { const x = fnName(r, d); if (x) rep.fn(x); } };
const fnName = (r, key) => { const id = key.replace(/^f/, '').replace(/gen\d+$/, ''); for (const [d, i] of r.front.ids) if (i === id) return r.front.nameOf(d); return null; };
const facts = st => { const show = (l, n) => l.map(i => i.k === 'lit' ? T.pp(i.t).slice(0,+(process.env.FT||160)) : i.k === 'or' ? (n > 1 ? '(…)' : '(' + i.alts.map(a => show(a, n + 1)).join(' | ') + ')') : '∀').join(' & '); return show(st.items, 0).slice(0, +(process.env.FW||900)); };
const evs = (r, kind, f) => r.events.filter(e => e.kind === kind && (!f || f(e)));
const at = e => typeof e.src === 'string' ? e.src : '';
const ZERO_ADDR = T.str('0x0000000000000000000000000000000000000000');
Object.assign(module.exports, { abs, methodsOf, LAYER, val, hdr, op, AM, enumOf, fieldOf, snap, entails, cover, facts, evs, at, ZERO_ADDR, absCache });
