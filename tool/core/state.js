'use strict';
const T = require('./terms');
// ---- locations ---------------------------------------------------------------
const pathCache = new Map();
function decompose(t) {
  let r = pathCache.get(t);
  if (r) return r;
  const steps = []; let b = t;
  while (b.op === 'fld' || b.op === 'idx') { steps.push(b); b = b.args[0]; }
  steps.reverse();
  r = { base: b, steps };
  pathCache.set(t, r);
  return r;
}
function stepRel(a, b) {
  if (a.op === 'fld' || b.op === 'fld') return a.op === b.op && a.val === b.val ? 'same' : 'disjoint';
  const x = a.args[1], y = b.args[1];
  if (x === y) return 'same';
  const d = T.sub(x, y);
  if (T.isConst(x) && T.isConst(y)) return 'disjoint';
  if (T.isNum(d) && d.val !== 0n) return 'disjoint';
  return 'may';
}
// relation of a written location w to a read location r
function relation(w, r) {
  if (w === r) return 'same';
  const a = decompose(w), b = decompose(r);
  if (a.base !== b.base) return 'disjoint';
  let may = false;
  const n = Math.min(a.steps.length, b.steps.length);
  for (let i = 0; i < n; i++) {
    const q = stepRel(a.steps[i], b.steps[i]);
    if (q === 'disjoint') return 'disjoint';
    if (q === 'may') may = true;
  }
  if (may) return a.steps.length > b.steps.length ? 'maybelow' : 'may';
  if (a.steps.length === b.steps.length) return 'same';
  return a.steps.length < b.steps.length ? 'above' : 'below';
}
// ---- store: persistent, hash-consed list of writes -----------------------------
const EMPTY = { uid: 0, prev: null, depth: 0 };
const stab = new Map(); let suid = 1;
function push(prev, kind, loc, val, extra) {
  const key = `${prev.uid}|${kind}|${loc.id}|${val ? val.id : ''}|${extra ? extra.key : ''}`;
  let s = stab.get(key);
  if (!s) { s = Object.assign({ uid: suid++, prev, kind, loc, val, depth: prev.depth + 1 }, extra || {}); stab.set(key, s); }
  return s;
}
const write = (s, loc, val) => push(s, 'w', loc, val);
const havoc = (s, loc, tag, elems) => push(s, 'havoc', loc, null, { key: 'h' + tag + (elems ? 'e' : ''), elems: !!elems });
const mapWrite = (s, base, i, val) => push(s, 'map', base, val, { key: 'm' + i.id, i });
const at = (loc, s) => T.mk('at', [loc], s.uid);
function snapTerm(loc, s) { return T.mk('snap', [loc], snapKey(loc, s), { store: s }); }
// equal contents get equal names: the plain writes below loc, newest first, identify the copy
function snapKey(loc, s) {
  const w = new Map();
  for (let e = s; e.prev; e = e.prev) {
    const rel = relation(e.loc, loc);
    if (rel === 'disjoint') continue;
    if (rel === 'same' || rel === 'above') { if (e.kind !== 'w' || e.elems || rel === 'above') return s.uid; w.set(loc, e.val); return 'k' + [...w].map(([l, v]) => l.id + '=' + v.id).sort().join(';'); }
    if (rel !== 'below' || e.kind !== 'w' || e.elems || e.val.op === 'ref') return s.uid;
    for (const l of w.keys()) { const r = relation(l, e.loc); if (r !== 'disjoint' && l !== e.loc) return s.uid; }
    if (!w.has(e.loc)) w.set(e.loc, e.val);
  }
  return 'k' + [...w].map(([l, v]) => l.id + '=' + v.id).sort().join(';');
}
function project(v, steps, s) {
  for (const st of steps) v = st.op === 'fld' ? select(s, v, st.val, null) : select(s, v, null, st.args[1]);
  return v;
}
// read field `name` / index `k` of object/location term o
function select(s, o, name, k) {
  if (o.op === 'snap') { const inner = name !== null ? T.fld(o.args[0], name) : T.idx(o.args[0], k); return load(o.store, inner); }
  if (o.op === 'ite') return T.ite(o.args[0], select(s, o.args[1], name, k), select(s, o.args[2], name, k));
  const loc = name !== null ? T.fld(o, name) : T.idx(o, k);
  if (loc.op !== 'fld' && loc.op !== 'idx') return loc;
  return read(s, loc);
}
const rcache = new Map();
function read(s, loc) {
  const ck = s.uid * 8388608 + loc.id;
  let r = rcache.get(ck);
  if (r === undefined) { r = read0(s, loc); rcache.set(ck, r); }
  return r;
}
function read0(s, loc) {
  const d = decompose(loc);
  if (d.base.op === 'snap') {
    let inner = d.base.args[0];
    for (const st of d.steps) inner = st.op === 'fld' ? T.fld(inner, st.val) : T.idx(inner, st.args[1]);
    return load(d.base.store, inner);
  }
  for (let e = s; e.prev; e = e.prev) {
    const rel = relation(e.loc, loc);
    if (rel === 'disjoint' || rel === 'below' || rel === 'maybelow') continue;
    if (e.kind === 'w') {
      if (rel === 'same') return e.val;
      if (rel === 'above') return project(e.val, d.steps.slice(decompose(e.loc).steps.length), e.prev);
      return at(loc, e);
    }
    if (e.kind === 'map') {
      if (rel === 'same') continue;
      if (rel === 'above') {
        const rest = d.steps.slice(decompose(e.loc).steps.length);
        if (rest[0].op === 'idx') return project(T.subst(e.val, e.i, rest[0].args[1]), rest.slice(1), e.prev);
        continue; // .length etc.
      }
      return at(loc, e);
    }
    if (e.elems) { // only the elements of the region changed
      if (rel === 'same') continue;
      if (rel === 'above' && d.steps[decompose(e.loc).steps.length].op !== 'idx') continue;
    }
    return at(loc, e);
  }
  if (d.base.op === 'ref' && d.steps.length) { // fresh allocation: unwritten slots hold the default
    const de = refElem.get(d.base);
    if (de && d.steps.length === 1 && d.steps[0].op === 'idx') return de;
    return T.mk('dflt', [loc]);
  }
  return loc;
}
// value copy of a location (storage -> memory) or of a mutable object (memory -> encoding)
function load(s, loc) {
  const v = read(s, loc);
  return snapshot(s, v === undefined ? loc : v, loc);
}
function snapshot(s, v, loc) {
  if (loc && loc !== v && (v.op === 'snap' || v.op === 'arr' || v.op === 'struct' || v.op === 'maparr')) { // parts written after the whole
    for (let e = s; e.prev; e = e.prev) {
      const rel = relation(e.loc, loc);
      if (rel === 'below' || rel === 'maybelow' || (rel === 'same' && e.elems)) return snapTerm(loc, e);
      if (rel === 'same' && e.kind === 'map') break;
      if (rel === 'same' || rel === 'above') break;
    }
  }
  if (v.op === 'const' || v.op === 'snap' || v.op === 'arr' || v.op === 'struct' || v.op === 'maparr') return v;
  // newest entry strictly below v?
  let below = null, onlyMap = null, others = false;
  for (const obj of loc && loc !== v ? [loc, v] : [v]) {
    for (let e = s; e.prev; e = e.prev) {
      const rel = relation(e.loc, obj);
      if (rel === 'same' && e.elems) { if (!below) below = e; others = true; continue; }
      if (rel === 'same' && e.kind === 'map') { if (!below) below = e; if (!onlyMap) onlyMap = e; continue; }
      if (rel === 'same' || rel === 'above' || rel === 'may') { if (e.kind !== 'map' && !(obj === loc && below)) break; if (rel !== 'may') break; }
      if (rel === 'below' || rel === 'maybelow') { if (!below) below = e; others = true; }
    }
    if (below && obj === loc && loc !== v) return snapTerm(loc, below);
  }
  if (v.op === 'ref') {
    for (let e = s; e.prev; e = e.prev) { const rel = relation(e.loc, v); if (rel === 'disjoint') continue; if (rel === 'same' && e.kind === 'w' && !e.elems && e.val.op === 'app' || e.val && e.val.op === 'maparr' && rel === 'same') return e.val; break; }
    const len = s.prev || s.uid === 0 ? read(s, T.fld(v, 'length')) : null;
    if (len && T.isNum(len) && len.val <= 4n) {
      const els = [];
      for (let i = 0; i < Number(len.val); i++) { const x = select(s, v, null, T.num(i)); els.push(snapshot(s, x)); }
      return T.arr(els);
    }
    const fields = v.fields || refFields.get(v);
    if (fields) return T.struct(fields.name, fields.names, fields.names.map(n => snapshot(s, select(s, v, n, null))));
    if (len && onlyMap) {
      const bv = T.binder();
      const r = T.mk('maparr', [snapshot(s, len), bv, snapshot(s, T.subst(onlyMap.val, onlyMap.i, bv))]);
      return r;
    }
    return snapTerm(v, s);
  }
  if (below) return snapTerm(v, below);
  return v;
}
const refElem = new Map(); // ref -> default element
const refFields = new Map(); // ref -> {name, names}

// ---- facts -----------------------------------------------------------------
// item: {k:'lit', t} | {k:'or', alts:[[item]]} | {k:'all', ...}; hash-consed by key
const itab = new Map(); let iid = 1;
function item(key, mkr) { let i = itab.get(key); if (!i) { i = mkr(); i.id = iid++; itab.set(key, i); } return i; }
const lit = t => item('l' + t.id, () => ({ k: 'lit', t }));
const orItem = alts => item('o' + alts.map(a => a.map(i => i.id).sort((x, y) => x - y).join(',')).sort().join('|'), () => ({ k: 'or', alts }));
const allItem = q => item('a' + q.i.id + ':' + q.hi.id + ':' + q.alts.map(a => a.map(i => i.id).join(',')).join('|'), () => Object.assign({ k: 'all' }, q));

class State {
  constructor() { this.env = new Map(); this.store = EMPTY; this.items = []; this.known = new Map(); this.consts = new Map(); this.trace = TR0; this.x = NOX; this.uns = false; }
  clone() {
    const s = Object.create(State.prototype);
    s.env = this.env; s.store = this.store; s.items = this.items; s.known = this.known; s.consts = this.consts; s.trace = this.trace; s.x = this.x; s.uns = this.uns;
    return s;
  }
  setVar(k, v) { const s = this.clone(); s.env = new Map(this.env); s.env.set(k, v); return s; }
  delFrame(prefix) {
    let hit = false;
    for (const k of this.env.keys()) if (k.startsWith(prefix)) { hit = true; break; }
    if (!hit) return this;
    const s = this.clone(); s.env = new Map(); for (const [k, v] of this.env) if (!k.startsWith(prefix)) s.env.set(k, v);
    return s;
  }
  write(loc, v) { if (v === loc && read(this.store, loc) === loc) return this; const s = this.clone(); s.store = write(this.store, loc, v); return s; }
  withStore(st) { const s = this.clone(); s.store = st; return s; }
  withX(k, v) { if (this.x[k] === v) return this; const s = this.clone(); s.x = Object.freeze(Object.assign({}, this.x, { [k]: v })); return s; }
  addItem(it) {
    const s = this.clone(); s.items = this.items.concat([it]); return s;
  }
  addTrace(ev) { const s = this.clone(); s.trace = trPush(this.trace, ev); return s; }
  read(loc) { return read(this.store, loc); }
  simp(t) {
    if (T.isConst(t)) return t;
    const k = this.known.get(t);
    if (k !== undefined) return T.bool(k);
    const c = this.consts.get(t);
    if (c) return c;
    if (t.op === 'not') { const r = this.simp(t.args[0]); return T.not(r); }
    if (t.op === 'eq') {
      const a = this.consts.get(t.args[0]) || t.args[0], b = this.consts.get(t.args[1]) || t.args[1];
      if (a !== t.args[0] || b !== t.args[1]) { const e = T.eq(a, b); return e === t ? t : this.simp(e); }
      return t;
    }
    if (t.op === 'and') return T.and(this.simp(t.args[0]), this.simp(t.args[1]));
    if (t.op === 'or') return T.or(this.simp(t.args[0]), this.simp(t.args[1]));
    if (t.op === 'ite') { const c2 = this.simp(t.args[0]); if (T.isBool(c2)) return this.simp(c2.val ? t.args[1] : t.args[2]); return t; }
    if (t.op === 'le0' || t.op === 'eqz') {
      const l = t.args[0]; const atoms = l.op === 'lin' ? l.args : [l];
      let m = null;
      for (const a of atoms) { const cc = this.consts.get(a); if (cc && T.isNum(cc)) (m = m || new Map()).set(a, cc); }
      if (m) { const r = T.substMany(t, m); return r === t ? t : this.simp(r); }
    }
    return t;
  }
  // add a literal known to be true; null when contradictory
  fact(t) {
    if (t.op === 'const') return t.val === true ? this : null;
    const neg = t.op === 'not', at0 = neg ? t.args[0] : t;
    if (t.op === 'le0') {
      const nt = T.not(t);
      if (this.known.get(nt) === true) return null;
      if (this.known.get(t) === true) return this;
      // single-fact linear contradiction
      const L = T.toLin(t.args[0]);
      for (const o of this.les || this.items) {
        if (o.k !== 'lit' || o.t.op !== 'le0') continue;
        const sum = T.linAdd(L, T.toLin(o.t.args[0]));
        if (sum.m.size === 0 && sum.c > 0n) return null;
      }
    } else {
      const k = this.known.get(at0);
      if (k !== undefined) return k === !neg ? this : null;
    }
    const s = this.clone();
    s.items = this.items.concat([lit(t)]);
    s.known = new Map(this.known); s.known.set(at0, !neg);
    if (t.op === 'eq') {
      const [a, b] = t.args;
      const set = (x, c) => { s.consts = new Map(s.consts); s.consts.set(x, c); };
      if (T.isConst(a) && !T.isConst(b)) { const o = this.consts.get(b); if (o && o !== a) return null; set(b, a); }
      else if (T.isConst(b)) { const o = this.consts.get(a); if (o && o !== b) return null; set(a, b); }
      else {
        const ca = this.consts.get(a), cb = this.consts.get(b);
        if (ca && cb && ca !== cb) return null;
        if (ca && !cb) set(b, ca); else if (cb && !ca) set(a, cb);
      }
    }
    if (s.uns && t.op === 'le0' && t.args[0].op !== 'lin' && !T.isConst(t.args[0])) { // unsigned and <= 0
      const a = t.args[0];
      if (this.known.get(T.eq(a, T.ZERO)) === false) return null;
      if (!s.consts.has(a)) { s.consts = new Map(s.consts); s.consts.set(a, T.ZERO); }
    }
    if (neg && at0.op === 'eq') {
      const ca = this.consts.get(at0.args[0]) || at0.args[0], cb = this.consts.get(at0.args[1]) || at0.args[1];
      if (ca === cb) return null;
    }
    return s;
  }
  assume(t) {
    t = this.simp(t);
    if (T.isBool(t)) return t.val ? [this] : [];
    if (t.op === 'and') return this.assume(t.args[0]).flatMap(s => s.assume(t.args[1]));
    if (t.op === 'or') return this.assume(t.args[0]).concat(this.assume(T.not(t.args[0])).flatMap(s => s.assume(t.args[1])));
    if (t.op === 'ite') return this.assume(t.args[0]).flatMap(s => s.assume(t.args[1])).concat(this.assume(T.not(t.args[0])).flatMap(s => s.assume(t.args[2])));
    if (t.op === 'not') {
      const u = t.args[0];
      if (u.op === 'and') return this.assume(T.or(T.not(u.args[0]), T.not(u.args[1])));
      if (u.op === 'or') return this.assume(T.and(T.not(u.args[0]), T.not(u.args[1])));
      if (u.op === 'ite') return this.assume(T.ite(u.args[0], T.not(u.args[1]), T.not(u.args[2])));
    }
    const s = this.fact(t);
    return s ? [s] : [];
  }
}
const NOX = Object.freeze({});
const TR0 = { uid: 0, prev: null, n: 0 };
const ttab = new Map(); let tuid = 1;
function trPush(prev, ev) {
  const key = prev.uid + '|' + ev.key;
  let t = ttab.get(key);
  if (!t) { t = { uid: tuid++, prev, ev, n: prev.n + 1 }; ttab.set(key, t); }
  return t;
}
function traceList(tr) { const r = []; for (let e = tr; e.prev; e = e.prev) r.push(e.ev); return r.reverse(); }
// rebuild state facts from items (after merge)
function withItems(st, items) {
  const s = st.clone();
  s.items = []; s.known = new Map(); s.consts = new Map();
  let cur = s;
  for (const it of items) {
    if (it.k === 'lit') { const n = cur.fact(it.t); if (!n) return null; cur = n; } else { if (!cur.items.includes(it)) cur = cur.addItem(it); }
  }
  return cur;
}
function mergeStates(list) {
  if (list.length === 1) return list[0];
  const sets = list.map(s => new Set(s.items));
  const common = list[0].items.filter(i => sets.every(s => s.has(i)));
  const cs = new Set(common);
  let res = list.map(s => s.items.filter(i => !cs.has(i)));
  // subsumption: a branch with no residual makes the disjunction trivial
  if (res.some(r => r.length === 0)) return withItems(list[0], common);
  // complementary elimination
  let changed = true;
  while (changed && res.length > 1) {
    changed = false;
    outer: for (let i = 0; i < res.length; i++) for (let j = i + 1; j < res.length; j++) {
      const a = res[i], b = res[j];
      const m = mergeComp(a, b);
      if (m) { res.splice(j, 1); res[i] = m; changed = true; break outer; }
    }
  }
  if (res.some(r => r.length === 0)) return withItems(list[0], common);
  if (res.length === 1) return withItems(list[0], common.concat(res[0]));
  // dedupe
  const uniq = new Map(); for (const r of res) uniq.set(r.map(i => i.id).sort((a, b) => a - b).join(','), r);
  res = [...uniq.values()];
  if (res.length === 1) return withItems(list[0], common.concat(res[0]));
  return withItems(list[0], common.concat([orItem(res)]));
}
function mergeComp(a, b) {
  // a = C ∪ {x}, b = C ∪ {¬x}  => C ; also drop when one ⊆ other
  const sa = new Set(a), sb = new Set(b);
  const da = a.filter(i => !sb.has(i)), db = b.filter(i => !sa.has(i));
  if (!da.length) return a;
  if (!db.length) return b;
  if (da.length === 1 && db.length === 1 && da[0].k === 'lit' && db[0].k === 'lit' && T.not(da[0].t) === db[0].t) return a.filter(i => i !== da[0]);
  return null;
}
module.exports = { State, read, select, load, snapshot, relation, decompose, write, havoc, mapWrite, lit, orItem, allItem, mergeStates, withItems, traceList, refFields, refElem, EMPTY, TR0, at };
