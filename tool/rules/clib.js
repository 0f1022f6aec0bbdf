'use strict';
// Shared vocabulary of the contract rules.
const T = require('../core/terms'), S = require('../core/state');
const { Query, Ctx, instantiate, lits } = require('../core/query');
const { compile, SolFront, ts } = require('../front/sol');
let P;
const prog = () => P || (P = compile());
const norm = s => (s || '').replace(/ (storage ref|storage pointer|memory|calldata)/g, '').replace(/\bstruct /g, '').replace(/\bcontract /g, '');
// storage variables by type, so that a rename does not matter
function roles() {
  const p = prog();
  const base = p.contracts.get('StateChannelManagerStorage') || p.contracts.get('AStateChannelManagerProxy');
  const vars = [];
  for (const c of p.linear(base)) for (const n of c.nodes) if (n.nodeType === 'VariableDeclaration' && n.stateVariable) vars.push(n);
  const byType = t => { const v = vars.filter(x => norm(ts(x)).replace(/uint256/g, 'uint') === t); if (v.length !== 1) throw new Error(`storage role ${t}: ${v.length} candidates`); return v[0].name; };
  const byName = n => { const v = vars.find(x => x.name === n); if (!v) throw new Error('storage variable ' + n + ' not found'); return n; };
  return {
    disputes: byType('mapping(bytes32 => Dispute)'), latestFork: byType('mapping(bytes32 => uint)'),
    encodedStates: byType('mapping(bytes32 => mapping(uint => bytes))'), genesisTimestamps: byType('mapping(bytes32 => mapping(uint => uint))'),
    posted: byType('mapping(bytes32 => mapping(uint => ForkDataAvailability))'),
    p2pTime: byName('p2pTime'), agreementTime: byName('agreementTime'), chainFallbackTime: byName('chainFallbackTime'), challengeTime: byName('challengeTime'),
    vars,
  };
}
let R0; const role = n => (R0 || (R0 = roles()))[n];
const managers = () => {
  const l = prog().descendants('AStateChannelManagerProxy').filter(c => !c.abstract && c.fullyImplemented !== false);
  if (!l.length) throw new Error('no concrete channel manager contract');
  return l;
};
const fronts = new Map();
function front(o) { const k = JSON.stringify(o || {}); if (!fronts.has(k)) fronts.set(k, new SolFront(prog(), o || {})); return fronts.get(k); }
const acache = new Map();
// all behaviours of one public entry point of a concrete manager
function entry(c, name, o = {}) {
  const k = c.name + '.' + (name.id ? name.name + '#' + name.id : name) + JSON.stringify(o);
  if (acache.has(k)) return acache.get(k);
  const fd = typeof name === 'string' ? prog().find(c, name) : name;
  if (!fd) throw new Error(`${c.name}.${name} not found`);
  const r = front(o.front).analyse(c, fd, { raiseEvents: !!o.raise });
  r.c = c; r.name = fd.name;
  acache.set(k, r);
  return r;
}
function entries(c, o) { return prog().entries(c).filter(f => !['view', 'pure'].includes(f.stateMutability)).map(f => entry(c, f.name, o)); }
const cover = (rep, a) => { for (const k of a.I.fnsSeen) { const m = /^sol(\d+)$/.exec(k); const d = m && prog().byId.get(Number(m[1])); if (d) rep.fn((d._c ? d._c.name + '.' : '') + (d.name || d.kind)); } };
const at = e => prog().loc(e.src);
// storage location of an event -> {root, keys:[...steps]}
function where(loc) { const d = S.decompose(loc); return { root: d.base.op === 'root' ? d.base.val : null, steps: d.steps }; }
// writes below disputes[k].field
function dispField(loc) {
  const w = where(loc);
  if (w.root !== role('disputes')) return null;
  return { key: w.steps[0] ? w.steps[0].args[1] : null, D: w.steps[0] || null, field: w.steps[1] ? w.steps[1].val : null, rest: w.steps.slice(2) };
}
const rd = (st, loc) => st.simp(S.read(st.store, loc));
const rdv = (st, loc) => S.load(st.store, loc);
const F = (t, ...ns) => ns.reduce((x, n) => typeof n === 'string' ? T.fld(x, n) : T.idx(x, n), t);
const dec = (ty, x) => T.mkApp('decode', [T.str(ty), x]);
const blk = x => dec('Block', x);
const hdr = (b, f) => F(b, 'transaction', 'header', f);
const keccak = x => T.app('keccak', x);
const enumVal = (en, name) => { for (const s of Object.values(prog().out.sources)) for (const n of s.ast.nodes) if (n.nodeType === 'EnumDefinition' && n.name === en) { const i = n.members.findIndex(m => m.name === name); if (i >= 0) return i; } throw new Error(`enum ${en}.${name} not found`); };
const ST = {
  enc: (c, f) => F(T.root(role('encodedStates')), c, f), gts: (c, f) => F(T.root(role('genesisTimestamps')), c, f), fork: c => F(T.root(role('latestFork')), c),
  disp: c => F(T.root(role('disputes')), c), posted: (c, f) => F(T.root(role('posted')), c, f), time: n => T.root(role(n)),
};
const now = T.sym('now'), SENDER = T.sym('msg.sender'), SELF = T.sym('this');
const par = n => T.sym('p:' + n);
// ---- predicates over a fact context
// array terms a and b denote the same array value
function sameArr(cx, a, b) { return a === b || cx.canon(a) === cx.canon(b); }
function memberOf(cx, x, arrs, storeEq) {
  const cxX = cx.canon(x);
  const l = Array.isArray(arrs) ? arrs : [arrs];
  for (const t of cx.terms(t => t.op === 'eq')) for (const [u, v] of [[t.args[0], t.args[1]], [t.args[1], t.args[0]]]) {
    if (u.op !== 'idx') continue;
    if (!l.some(a => sameArr(cx, u.args[0], a))) continue;
    if (cx.canon(v) === cxX && cx.holds(t)) return true;
  }
  return false;
}
// for all j in [0, length): element j (as stored in st) differs from x
function notMember(cx, st, loc, x) {
  const len = rd(st, T.fld(loc, 'length'));
  if (cx.eq(len, T.ZERO)) return true;
  return cx.alls.some(q => {
    if (!cx.eq(q.lo, T.ZERO) || !cx.eq(q.hi, len)) return false;
    const el = rd(st, T.idx(loc, q.i));
    return q.alts.every(a => cx.with(a).holds(T.ne(el, x)));
  });
}
module.exports = { T, S, Query, Ctx, instantiate, lits, prog, role, managers, front, entry, entries, cover, at, where, dispField, rd, rdv, F, dec, blk, hdr, keccak, enumVal, ST, now, SENDER, SELF, par, memberOf, notMember, sameArr, norm, ts };
