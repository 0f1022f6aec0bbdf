'use strict';
// Entailment over must-facts: congruence closure + linear combination + case split on merged paths.
const T = require('./terms'); const S = require('./state'); const { renameItems } = require('./interp');

const QOPS = new Set(['includes', 'exists', 'subset']); let QD = 0, fresh = 0;
class Ctx {
  constructor(items, opts) {
    this.items = items; this.opts = opts || {};
    this.parent = new Map(); this.lits = []; this.ors = []; this.alls = [];
    for (const i of items) { if (i.k === 'lit') this.lits.push(i.t); else if (i.k === 'or') this.ors.push(i); else if (i.k === 'all') this.alls.push(i); }
    this.build();
  }
  find(t) { let p = this.parent.get(t); if (!p) return t; while (this.parent.get(p)) p = this.parent.get(p); return p; }
  rank(t) { return t.op === 'const' ? 0 : t.op === 'emptybytes' || t.op === 'null' || t.op === 'undef' ? 1 : t.id; }
  union(a, b) {
    a = this.canon(a); b = this.canon(b);
    if (a === b) return false;
    if (T.isConst(a) && T.isConst(b)) { this.bad = true; return false; }
    if (this.rank(b) < this.rank(a)) [a, b] = [b, a];
    if (T.contains(a, b) && !T.contains(b, a)) [a, b] = [b, a];
    this.parent.set(b, a);
    return true;
  }
  canon(t) { if (!this.memo) this.memo = new Map(); return this.canon0(t); }
  canon0(t) {
    const m = this.memo.get(t);
    if (m) return m;
    this.memo.set(t, this.find(t)); // guard
    let r = t;
    if (t.args.length) {
      let ch = false; const na = t.args.map(a => { const c = this.canon0(a); if (c !== a) ch = true; return c; });
      if (ch) r = T.subst === undefined ? t : rebuild(t, na);
    }
    r = this.find(r);
    if (r !== t && r.args.length) { const r2 = this.memo.get(r) || r; r = r2; }
    this.memo.set(t, r);
    return r;
  }
  build() {
    const eqs = this.lits.filter(t => t.op === 'eq');
    for (let round = 0; round < 12; round++) {
      let ch = false;
      for (const e of eqs) { if (this.union(e.args[0], e.args[1])) { ch = true; this.memo = new Map(); } }
      if (!ch) break;
    }
    this.pos = new Set(); this.neg = new Set(); this.les = [];
    for (const t of this.lits) {
      if (t.op === 'eq') continue;
      if (t.op === 'not') { const c = this.canon(t.args[0]); if (c === T.TRUE) this.bad = true; if (c.op === 'not') this.pos.add(c.args[0]); else { this.neg.add(c); if (c.op === 'eq') { const [a, b] = c.args; if (this.opts.unsigned && a === T.ZERO) this.les.push(T.linAdd({ c: 1n, m: new Map() }, T.toLin(b), -1n)); else if (this.opts.unsigned && b === T.ZERO) this.les.push(T.linAdd({ c: 1n, m: new Map() }, T.toLin(a), -1n)); } } continue; }
      const c = this.canon(t);
      if (c === T.FALSE) this.bad = true;
      if (c.op === 'le0') this.les.push(T.toLin(c.args[0]));
      else if (c.op === 'eqz') { const l = T.toLin(c.args[0]); this.les.push(l, T.linScale(l, -1n)); this.pos.add(c); }
      else if (c.op === 'eq') { const l = T.linAdd(T.toLin(c.args[0]), T.toLin(c.args[1]), -1n); this.les.push(l, T.linScale(l, -1n)); this.pos.add(c); }
      else if (c.op === 'not') this.neg.add(c.args[0]);
      else this.pos.add(c);
    }
    for (const p of this.pos) if (this.neg.has(p)) this.bad = true;
  }
  contradictory() {
    if (this.bad !== undefined && this.bad) return true;
    if (this._contra === undefined) {
      this._contra = this.linEntails({ c: 1n, m: new Map() }, true);
      if (!this._contra) for (const u of this.neg) {
        if (u.op !== 'eqz' && u.op !== 'eq') continue;
        const d = u.op === 'eq' ? T.linAdd(T.toLin(u.args[0]), T.toLin(u.args[1]), -1n) : T.toLin(u.args[0]);
        if (u.op === 'eq' && !this.les.some(l => [...d.m.keys()].some(k => l.m.has(k)))) continue;
        if (this.linEntails(d) && this.linEntails(T.linScale(d, -1n))) { this._contra = true; break; }
      }
      if (!this._contra && this.alls.length && QD < 2) {
        for (const u of this.pos) if (u.op === 'app' && QOPS.has(u.val) && this.quant(u, false)) { this._contra = true; break; }
        if (!this._contra) for (const u of this.neg) if (u.op === 'app' && QOPS.has(u.val) && this.quant(u, true)) { this._contra = true; break; }
      }
    }
    return this._contra;
  }
  // G <= 0 follows from les?
  linEntails(G, contra) {
    let budget = 400;
    const les = this.les;
    const uns = this.opts.unsigned;
    const go = (R, depth) => {
      if (--budget < 0) return false;
      let m = R.m;
      if (uns) { let drop = false; for (const [, c] of m) if (c < 0n) drop = true; if (drop) { /* -k*t <= 0 holds */ } }
      // first atom needing elimination
      let pick = null;
      for (const [t, c] of m) if (c > 0n || !uns) { pick = [t, c]; break; }
      if (!pick) { // only negative coefs left
        if (m.size === 0 || uns) return R.c <= 0n ? true : (depth > 0 && m.size ? tryAll(R, depth) : false);
        return false;
      }
      if (depth <= 0) return false;
      const [t, c] = pick;
      for (const L of les) {
        const k = L.m.get(t);
        if (!k || (k > 0n) !== (c > 0n)) continue;
        if (c % k !== 0n) continue;
        if (go(T.linAdd(R, L, -(c / k)), depth - 1)) return true;
      }
      return false;
    };
    const tryAll = (R, depth) => {
      for (const L of les) { let share = false; for (const [t, c] of R.m) { const k = L.m.get(t); if (k && (k > 0n) === (c > 0n)) share = true; } if (share && go(T.linAdd(R, L, -1n), depth - 1)) return true; }
      return false;
    };
    if (contra) { for (const L of les) if (go(T.linAdd({ c: 1n, m: new Map() }, L, -1n), 3)) return true; return false; }
    return go(G, 5);
  }
  eq(a, b) { return this.holds(T.eq(a, b)); }
  holds(t) {
    if (T.isBool(t)) return t.val;
    if (t.op === 'and') return this.holds(t.args[0]) && this.holds(t.args[1]);
    if (t.op === 'or') return this.holds(t.args[0]) || this.holds(t.args[1]);
    if (t.op === 'not' && t.args[0].op === 'and') return this.holds(T.or(T.not(t.args[0].args[0]), T.not(t.args[0].args[1])));
    if (t.op === 'not' && t.args[0].op === 'or') return this.holds(T.not(t.args[0].args[0])) && this.holds(T.not(t.args[0].args[1]));
    const c = this.canon(t);
    if (T.isBool(c)) return c.val;
    if (this.pos.has(c)) return true;
    if (c.op === 'le0') return this.linEntails(T.toLin(c.args[0]));
    if (c.op === 'eq' || c.op === 'eqz') {
      const d = c.op === 'eq' ? T.linAdd(T.toLin(c.args[0]), T.toLin(c.args[1]), -1n) : T.toLin(c.args[0]);
      return this.les.length > 0 && this.linEntails(d) && this.linEntails(T.linScale(d, -1n));
    }
    if (c.op === 'app' && QOPS.has(c.val)) return this.quant(c, true);
    if (c.op === 'not') {
      const u = c.args[0];
      if (this.neg.has(u)) return true;
      if (u.op === 'app' && QOPS.has(u.val)) return this.quant(u, false);
      if (u.op === 'eq' || u.op === 'eqz') {
        const d = u.op === 'eq' ? T.linAdd(T.toLin(u.args[0]), T.toLin(u.args[1]), -1n) : T.toLin(u.args[0]);
        const a = { c: d.c + 1n, m: d.m }, nb = T.linScale(d, -1n), b = { c: nb.c + 1n, m: nb.m };
        return this.les.length > 0 && (this.linEntails(a) || this.linEntails(b));
      }
      return false;
    }
    return false;
  }
  // includes / exists / subset, decided from what loops established element by element
  quant(u, pos) {
    if (QD >= 3) return false;
    const lenOf = a => T.fld(a, 'length'), setOf = x => x.op === 'app' && (x.val === 'set' || x.val === 'elems') ? setOf(x.args[0]) : x;
    const hasT = (B, x) => B.op === 'arr' ? B.args.reduce((a, y) => T.or(a, T.eq(x, y)), T.FALSE) : T.app('includes', B, x);
    let n, f, some;
    if (u.val === 'includes') { const a = setOf(u.args[0]); if (a.op === 'app') return false; n = lenOf(a); f = k => T.eq(T.idx(a, k), u.args[1]); some = true; }
    else if (u.val === 'exists') { n = u.args[0]; f = k => T.subst(u.args[2], u.args[1], k); some = true; }
    else { const a = setOf(u.args[0]), b = setOf(u.args[1]); if (a.op === 'app' || b.op === 'app') return false; n = lenOf(a); f = k => hasT(b, T.idx(a, k)); some = false; }
    QD++;
    try {
      if (some === pos) { // a witness
        const ks = new Set();
        for (const t of this.lits) T.collect(t, x => x.op === 'idx' && !T.contains(x.args[1], u.args[1]), ks, new Set());
        const cand = [...new Set([...ks].map(x => x.args[1]))].filter(k => !(k.op === 'const' && !T.isNum(k))).slice(0, 12);
        return cand.some(k => this.holds(T.lt(k, n)) && this.holds(T.le(T.ZERO, k)) && this.holds(pos ? f(k) : T.not(f(k))));
      }
      if (!this.alls.length) return false;
      const k = T.sym('\u2200q' + (++fresh)), cx = this.with([S.lit(T.lt(k, n)), S.lit(T.le(T.ZERO, k))]), add = [];
      for (const q of cx.alls) if (cx.holds(T.le(q.lo, k)) && cx.holds(T.lt(k, q.hi))) add.push(...[].concat(instantiate(q, k)));
      if (!add.length) return false;
      const goal = pos ? f(k) : T.not(f(k));
      return new Query(cx.items.concat(add), this.opts).check(c => c.holds(goal));
    } finally { QD--; }
  }
  // all (sub)terms of the known facts satisfying p
  terms(p) { const out = new Set(); const seen = new Set(); for (const t of this.lits) T.collect(t, p, out, seen); return [...out]; }
  with(items) { return new Ctx(this.items.concat(items), this.opts); }
  without(o) { return this.items.filter(i => i !== o); }
}
function rebuild(t, na) { // through subst machinery
  const m = new Map(); t.args.forEach((a, i) => m.set(a, na[i]));
  // direct rebuild one level
  return rebuild1(t, na);
}
function rebuild1(t, args) {
  switch (t.op) {
    case 'fld': return T.fld(args[0], t.val);
    case 'idx': return T.idx(args[0], args[1]);
    case 'eq': return T.eq(args[0], args[1]);
    case 'not': return T.not(args[0]);
    case 'le0': return T.le0(T.toLin(args[0]));
    case 'eqz': return T.eq(args[0], T.ZERO);
    case 'lin': { const [c, ks] = t.val.split(';'); const cs = ks.split(','); let l = { c: BigInt(c), m: new Map() }; args.forEach((a, i) => { l = T.linAdd(l, T.toLin(a), BigInt(cs[i])); }); return T.fromLin(l); }
    case 'app': return T.mkApp(t.val, args);
    case 'and': return T.and(args[0], args[1]);
    case 'or': return T.or(args[0], args[1]);
    case 'ite': return T.ite(args[0], args[1], args[2]);
    case 'snap': return t;
    default: return T.mk(t.op, args, t.val);
  }
}
class Query {
  constructor(st, opts) { this.ctx = new Ctx(opened(Array.isArray(st) ? st : st.items), Object.assign({ unsigned: true }, opts || {})); this.budget = 3000; }
  // predicate holds on every path merged into this state
  check(pred) { this.budget = 3000; return this._check(this.ctx, pred, 8, new Set()); }
  _check(cx, pred, depth, done) {
    if (--this.budget < 0) return false;
    if (cx.contradictory()) return true;
    if (pred(cx)) return true;
    if (depth <= 0) return false;
    const cand = cx.ors.filter(o => !done.has(o)).slice().reverse();
    let best = null;
    for (const o of cand) {
      const fails = [];
      for (const a of o.alts) { const c2 = cx.with(a); if (c2.contradictory() || pred(c2)) continue; fails.push(c2); if (--this.budget < 0) return false; }
      if (!fails.length) return true;
      if (!best || fails.length / o.alts.length < best.r) best = { o, fails, r: fails.length / o.alts.length };
    }
    if (!best) return false;
    const order = cand.filter(o => o !== best.o);
    const d2 = new Set(done); d2.add(best.o);
    return best.fails.every(c2 => this._check(c2, pred, depth - 1, d2));
  }
  holds(t) { return this.check(cx => cx.holds(t)); }
  eq(a, b) { return this.holds(T.eq(a, b)); }
  infeasible() { return this.check(() => false); }
  // case: add hypotheses
  given(...ts) {
    let items = this.ctx.items;
    for (const t of ts) items = items.concat(t.k ? [t] : lits(t));
    return new Query(items, this.ctx.opts);
  }
}
function lits(t) { // conjunction -> literal items
  if (t.op === 'and') return lits(t.args[0]).concat(lits(t.args[1]));
  if (t.op === 'or') return [S.orItem([lits(t.args[0]), lits(t.args[1])])];
  return [S.lit(t)];
}
// what a quantified fact says: some element has the property / every element lacks it
const omemo = new WeakMap();
const listOf = x => x.op === 'app' && (x.val === 'set' || x.val === 'elems') ? listOf(x.args[0]) : x.op === 'app' ? null : x;
const among = (b, x) => { if (b.op !== 'maparr') return T.app('includes', b, x); const v = T.binder(); return T.app('exists', b.args[0], v, T.eq(T.subst(b.args[2], b.args[1], v), x)); };
function opened(items) {
  let r = omemo.get(items); if (r) return r;
  const add = []; const ids = new Set(items.map(i => i.id));
  for (const i of items) {
    if (i.k !== 'lit') continue;
    const neg = i.t.op === 'not', u = neg ? i.t.args[0] : i.t;
    if (u.op !== 'app') continue;
    if (u.val === 'subset') {
      const a = listOf(u.args[0]), b = listOf(u.args[1]); if (!a || !b) continue;
      const k = T.sym((neg ? '\u2203s' : '\u2200s') + u.id), n = T.fld(a, 'length'), inc = among(b, T.idx(a, k));
      const more = neg ? [S.lit(T.lt(k, n)), ...lits(T.not(inc))] : [S.allItem({ i: k, lo: T.ZERO, hi: n, alts: [lits(inc)], phis: [] })];
      for (const m of more) if (!ids.has(m.id)) add.push(m);
      continue;
    }
    if (u.val !== 'exists') continue;
    const k = T.sym((neg ? '\u2200e' : '\u2203e') + u.id), body = T.subst(u.args[2], u.args[1], k), more = neg ? [S.allItem({ i: k, lo: T.ZERO, hi: u.args[0], alts: [lits(T.not(body))], phis: [] })] : [S.lit(T.lt(k, u.args[0])), ...lits(body)];
    for (const m of more) if (!ids.has(m.id) && !(m.k === 'lit' && T.isBool(m.t) && m.t.val)) add.push(m);
  }
  r = add.length ? items.concat(add) : items;
  omemo.set(items, r); if (r !== items) omemo.set(r, r);
  return r;
}
// instantiate a quantified item at index term k -> item(s)
function instantiate(q, k) {
  const map = new Map([[q.i, k]]);
  for (const p of q.phis) map.set(p.phi, T.mk('at', [p.phi, k], 'iter'));
  const alts = q.alts.map(a => renameItems(a, map));
  return alts.length === 1 ? alts[0] : [S.orItem(alts)];
}
module.exports = { Ctx, Query, instantiate, lits };
