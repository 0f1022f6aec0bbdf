'use strict';
// Calls: the checker resolves the callee; project code is inlined, the language runtime, ethers, the
// state machine, the contracts and the transports are primitives.
const path = require('path');
const T = require('../core/terms'), S = require('../core/state');
const { Out } = require('../core/interp');
const { TsFront, ts, where, REPO, SM, SINGLETONS, K, unwrap, isFnLike, hasMod, kc, UND, nullish, normStr } = require('./ts');
const F = TsFront.prototype;
const SRC = path.join(REPO, 'src') + '/';
const inSrc = d => d && d.getSourceFile().fileName.startsWith(SRC);
const isBoolT = v => T.isBool(v) || ['eq', 'not', 'le0', 'and', 'or', 'eqz'].includes(v.op);
F.snap = function (st, v) { return S.snapshot(st.store, v); };
F.conj = items => items.reduce((a, i) => T.and(a, i.k === 'lit' ? i.t : i.k === 'or' ? i.alts.reduce((b, x) => T.or(b, F.conj(x)), T.FALSE) : T.TRUE), T.TRUE);
// value of f(elem) for a symbolic element: one term, paths folded into conditionals
F.lambda = function (I, st, f, arr, cx, src, wantBool) {
  const bv = T.binder();
  const el = st.simp(S.select(st.store, arr, null, bv));
  const base = new Set(st.items);
  const rs = this.callFn(I, f, [el, bv], st, cx, src);
  const parts = rs.map(r => ({ c: F.conj(r.st.items.filter(i => !base.has(i))), v: this.snap(r.st, r.v) }));
  let v;
  if (wantBool || (parts.length && parts.every(p => isBoolT(p.v)))) v = parts.reduce((a, p) => T.or(a, T.and(p.c, wantBool ? this.truthTerm(p.v, 'any') : p.v)), T.FALSE);
  else v = parts.reduceRight((a, p) => a === null ? p.v : T.ite(p.c, p.v, a), null) || T.UNDEF;
  return { bv, v, el };
};
F.asArr = function (v) { return v.op === 'app' && v.val === 'set' ? v.args[0] : v.op === 'app' && v.val === 'elems' ? this.asArr(v.args[0]) : v; };
F.mkSet = function (arr) { return arr.op === 'app' && (arr.val === 'set' || arr.val === 'setdiff') ? arr : arr.op === 'app' && arr.val === 'elems' ? arr.args[0] : T.app('set', arr); };
F.includes = function (st, arr, x) {
  arr = this.snap(st, arr);
  if (arr.op === 'app' && arr.val === 'elems') arr = arr.args[0];
  if (arr.op === 'app' && arr.val === 'set') arr = arr.args[0];
  if (arr.op === 'arr') return arr.args.reduce((a, y) => T.or(a, T.eq(x, y)), T.FALSE);
  if (arr.op === 'app' && arr.val === 'filter') { const [l, bv, p] = arr.args, q = T.substMany(p, new Map([[T.idx(l, bv), x]])); if (!T.contains(q, bv)) return T.and(this.includes(st, l, x), q); }
  return T.app('includes', arr, x);
};
F.existsT = function (st, arr, bv, body) { // ∃ element: body
  arr = this.snap(st, arr);
  if (T.isBool(body) && !body.val) return T.FALSE;
  if (T.isBool(body)) return T.lt(T.ZERO, S.select(st.store, arr, 'length', null));
  if (arr.op === 'arr') return arr.args.reduce((a, y, i) => T.or(a, T.substMany(body, new Map([[T.idx(arr, bv), y], [bv, T.num(i)]]))), T.FALSE);
  const el = T.idx(arr, bv);
  if (body.op === 'eq' && !T.contains(body.args[0], bv) && body.args[1] === el) return T.app('includes', arr, body.args[0]);
  if (body.op === 'eq' && !T.contains(body.args[1], bv) && body.args[0] === el) return T.app('includes', arr, body.args[1]);
  if (body.op === 'not' && body.args[0].op === 'app' && body.args[0].val === 'includes' && body.args[0].args[1] === el && !T.contains(body.args[0].args[0], bv)) return T.not(T.app('subset', this.mkSet(arr), this.mkSet(body.args[0].args[0])));
  if (arr.op === 'maparr') { const b = T.substMany(body, new Map([[el, T.subst(arr.args[2], arr.args[1], bv)]])); return T.app('exists', arr.args[0], bv, b); }
  return T.app('exists', S.select(st.store, arr, 'length', null), bv, body);
};
F.lenOf = function (st, a) { return st.simp(S.select(st.store, a, 'length', null)); };
F.pushEl = function (st, a, v) {
  const len = this.lenOf(st, a);
  return st.write(T.idx(a, len), v).write(T.fld(a, 'length'), T.add(len, T.ONE));
};
F.detached = function (I, st, cx, node, e, what) {
  const save = I.thr; I.thr = [];
  let s = st.withX('detached', (st.x.detached || 0) + 1); if (this.o.trace) { s = s.clone(); s.trace = S.TR0; }
  const rs = I.ev(e, s, cx); rs.thr = I.thr;
  I.thr = save;
  return rs;
};
F.tr1 = function (st, ev) { if (!this.o.trace || (this.o.trace.has && !this.o.trace.has(ev.kind))) return st; return st.addTrace(Object.assign({}, ev, { key: this.uid() + ev.key })); };
F.async = function (I, st, f, args, cx, src, tag) { // callback run later: anything may have changed
  const save = I.thr; I.thr = [];
  let s = st.clone(); s.items = st.items; s = s.withX('async', tag).withX('lock', 0).withX('ver', (st.x.ver || 0) + 1000).withX('epoch', (st.x.epoch || 0) + 1);
  if (!this.o.keepAsyncStore) { // long-lived objects may have changed; locally created ones keep their contents
    let b = this.base ? this.base.store : S.EMPTY; const ws = [];
    for (let e = st.store; e.prev; e = e.prev) { if (e.kind === 'w' && ['ref', 'sym', 'app'].includes(S.decompose(e.loc).base.op)) ws.push(e); }
    for (const e of ws.reverse()) b = S.write(b, e.loc, e.val);
    s.store = b;
  }
  if (this.o.trace) s.trace = S.TR0;
  try { const rs = this.callFn(I, f, args, s, cx, src); rs.thr = I.thr; return rs; } finally { I.thr = save; }
};
const one = (st, v) => [{ st, v }];
const isFnDecl = d => ts.isFunctionDeclaration(d) || ts.isMethodDeclaration(d) || ts.isGetAccessor(d) || ts.isClassLike(d);
// an observable effect: recorded as an event and on the path itself
F.tr = function (I, st, kind, src, data) {
  I.emit(kind, st, { src }, data);
  if (!this.o.trace || (this.o.trace.has && !this.o.trace.has(kind))) return st;
  const id = x => x === undefined || x === null ? '' : Array.isArray(x) ? x.map(id).join(',') : x.op ? x.id : typeof x === 'object' ? '' : String(x);
  return st.addTrace(Object.assign({ key: this.uid() + kind + '|' + src + '|' + st.store.uid + '|' + Object.keys(data).map(k => id(data[k])).join('|'), kind, src, fn: (I.stack[I.stack.length - 1] || {}).name, st }, data));
};
// pure or effectful primitives of the runtime, by (kind of receiver, method)
F.method = function (name, I, st, o, a, cx, src, e) {
  const snap = v => this.snap(st, v);
  const there = (s, v) => this.elemNonNull(e) ? s.assume(T.ne(v, T.UNDEF)) : [s];
  if (['some', 'every', 'find', 'findIndex'].includes(name)) { // a short list: element by element
    const arr = snap(o);
    if (arr.op === 'arr' && arr.args.length <= 3) {
      let cur = [st]; const r = [];
      arr.args.forEach((x, i) => { const el = s => o.op === 'arr' ? x : S.select(s.store, o, null, T.num(i)); cur = cur.flatMap(s => this.callFn(I, a[0], [el(s), T.num(i)], s, cx, src).flatMap(y => { const t = y.st.simp(this.truthTerm(y.v, 'any')), hit = name === 'every' ? T.not(t) : t; for (const z of y.st.assume(hit).flatMap(z => name === 'find' ? there(z, el(z)) : [z])) r.push({ st: z, v: name === 'some' ? T.TRUE : name === 'every' ? T.FALSE : name === 'find' ? el(z) : T.num(i) }); return y.st.assume(T.not(hit)); })); });
      for (const s of cur) r.push({ st: s, v: name === 'some' ? T.FALSE : name === 'every' ? T.TRUE : name === 'find' ? T.UNDEF : T.num(-1) });
      return r;
    }
  }
  switch (name) {
    case 'push': {
      let s = st; for (const v of a) s = this.pushEl(s, o, v);
      I.emit('push', s, { src }, { loc: o, vals: a, pre: st });
      if (I.isTracked(o)) I.emit('write', s, { src }, { loc: o, v: a[0], pre: st, push: true });
      return one(s, this.lenOf(s, o));
    }
    case 'unshift': I.emit('push', st, { src }, { loc: o, vals: a, pre: st, front: true }); {
      const old = snap(o); const s = st.write(o, T.app('prepend', ...a.map(snap), old)); return one(s, T.app('len', o)); }
    case 'pop': case 'shift': {
      const len = this.lenOf(st, o); const r = [];
      for (const s of st.assume(T.eq(len, T.ZERO))) r.push({ st: s, v: T.UNDEF });
      for (const s of st.assume(T.ne(len, T.ZERO))) {
        const i = name === 'pop' ? T.sub(len, T.ONE) : T.ZERO;
        const v = S.select(s.store, o, null, i);
        let s2 = name === 'pop' ? s.write(T.fld(o, 'length'), i) : s.write(o, T.app('tail', this.snap(s, o)));
        I.emit('take', s2, { src }, { loc: o, v, how: name, pre: s });
        if (I.isTracked(o)) I.emit('write', s2, { src }, { loc: o, v, pre: s, take: true });
        r.push({ st: s2, v });
      }
      return r;
    }
    case 'at': {
      const i = a[0] || T.ZERO;
      const len = this.lenOf(st, o);
      if (T.isNum(i)) return this.readElem(I, st, o, i.val < 0n ? T.add(len, i) : i, src);
      return [...st.assume(T.le(T.ZERO, i)).flatMap(s => this.readElem(I, s, o, i, src)), ...st.assume(T.lt(i, T.ZERO)).flatMap(s => this.readElem(I, s, o, T.add(len, i), src))];
    }
    case 'includes': return one(st, st.simp(this.includes(st, o, a[0])));
    case 'indexOf': {
      const ex = st.simp(this.includes(st, o, a[0])); const r = [];
      for (const s of st.assume(ex)) { const k = T.app('indexOf', snap(o), a[0]); for (const s2 of s.assume(T.eq(S.select(s.store, o, null, k), a[0]))) r.push({ st: s2, v: k }); }
      for (const s of st.assume(T.not(ex))) r.push({ st: s, v: T.num(-1) });
      return r;
    }
    case 'some': { const l = this.lambda(I, st, a[0], o, cx, src, true); return one(st, st.simp(this.existsT(st, o, l.bv, l.v))); }
    case 'every': { const l = this.lambda(I, st, a[0], o, cx, src, true); return one(st, st.simp(T.not(this.existsT(st, o, l.bv, T.not(l.v))))); }
    case 'find': case 'findIndex': {
      const l = this.lambda(I, st, a[0], o, cx, src, true);
      const ex = this.existsT(st, o, l.bv, l.v); const r = [];
      for (const s of st.assume(ex)) { const k = I.sym({ src }, 'found'); for (const s2 of s.assume(T.subst(l.v, l.bv, k)).flatMap(y => y.assume(T.lt(k, this.lenOf(y, o))))) for (const s3 of name === 'find' ? there(s2, S.select(s2.store, o, null, k)) : [s2]) r.push({ st: s3, v: name === 'find' ? S.select(s3.store, o, null, k) : k }); }
      for (const s of st.assume(T.not(ex))) r.push({ st: s, v: name === 'find' ? T.UNDEF : T.num(-1) });
      return r;
    }
    case 'map': {
      const arr = snap(o);
      if (arr.op === 'arr' && arr.args.length <= 4) { // element by element
        let cur = [{ st, vs: [] }];
        arr.args.forEach((x, i) => { cur = cur.flatMap(c => this.callFn(I, a[0], [x, T.num(i)], c.st, cx, src).map(r => ({ st: r.st, vs: c.vs.concat([this.snap(r.st, r.v)]) }))); });
        return cur.map(c => ({ st: c.st, v: T.arr(c.vs) }));
      }
      const l = this.lambda(I, st, a[0], o, cx, src);
      if (l.v === T.idx(arr, l.bv)) return one(st, arr);
      return one(st, T.mk('maparr', [this.lenOf(st, arr), l.bv, l.v]));
    }
    case 'filter': {
      const arr = snap(o);
      const l = this.lambda(I, st, a[0], arr, cx, src, true);
      if (l.v === T.TRUE) return one(st, arr);
      if (l.v === T.FALSE) return one(st, T.arr([]));
      return one(st, T.app('filter', arr, l.bv, l.v));
    }
    case 'flatMap': {
      const arr = snap(o);
      if (arr.op === 'arr' && arr.args.length <= 2) {
        let cur = [{ st, vs: [] }];
        arr.args.forEach((x, i) => { cur = cur.flatMap(c => this.callFn(I, a[0], [x, T.num(i)], c.st, cx, src).map(r => { const v = this.snap(r.st, r.v); return { st: r.st, vs: c.vs.concat(v.op === 'arr' ? v.args : [v]) }; })); });
        return cur.map(c => ({ st: c.st, v: T.arr(c.vs) }));
      }
      const l = this.lambda(I, st, a[0], arr, cx, src);
      return one(st, T.app('flatmap', arr, l.bv, l.v));
    }
    case 'concat': if (e && e.arguments && ts.isPropertyAccessExpression(e.expression) && this.ck.isArrayType(this.type(e.expression.expression))) {
      const list = e.arguments.map(x => { const t = this.type(x); return ts.isSpreadElement(x) ? null : this.ck.isArrayType(t) || this.ck.isTupleType(t) ? true : this.kindOf(t) === 'any' || t.isUnion() && t.types.some(u => this.ck.isArrayType(u)) ? null : false; });
      if (list.includes(false) && !list.includes(null)) return [this.joined(I, st, src, [o, ...a], [true, ...list])];
    }
    return one(st, T.app('concatArr', snap(o), ...a.map(snap)));
    case 'slice': return one(st, a.length === 0 || a.length === 1 && a[0] === T.ZERO ? snap(o) : T.app('slice', snap(o), ...a));
    case 'reverse': return one(st, T.app('reverse', snap(o)));
    case 'join': if (T.isStr(a[0] || T.UNDEF)) { const v = snap(o), sep = a[0]; if (v.op === 'arr') return one(st, this.concat(v.args.flatMap((x, i) => i ? [sep, x] : [x]))); } return one(st, T.app(name, snap(o), ...a.map(snap)));
    case 'split': case 'replace': case 'trim': case 'startsWith': case 'endsWith': case 'padStart': case 'padEnd': return one(st, T.app(name, snap(o), ...a.map(snap)));
    case 'toLowerCase': return one(st, T.app('lower', o));
    case 'forEach': return this.eachElem(I, st, o, cx, src, (I2, s, el, i, cx2) => this.callFn(I2, a[0], [el, i], s, cx2, src).map(r => r.st)).map(s => ({ st: s, v: T.UNDEF }));
    case 'reduce': {
      if (a.length < 2) break;
      const acc = 'ra' + (++this.nid), key = c => c.frame.id + ':' + acc;
      return this.eachElem(I, st, o, cx, src, (I2, s, el, i, cx2) => this.callFn(I2, a[0], [s.env.get(key(cx2)), el, i], s, cx2, src).map(r => r.st.setVar(key(cx2), r.v)), { k: 'let', d: acc, init: kc(a[1]) }).map(s => ({ st: s, v: s.env.get(key(cx)) }));
    }
    case 'toArray': case 'toObject': return one(st, o);
  }
  return null;
};
// the elements of a filtered list are the elements of the list that satisfy the predicate, in order
F.peel = function (v) { const preds = []; if (v.op === 'app' && v.val === 'elems') return { base: v, preds }; while (v.op === 'app' && v.val === 'filter') { const [l, bv, p] = v.args; preds.push(i => T.subst(p, bv, i)); v = l; } return { base: v, preds: preds.reverse() }; };
F.eachElem = function (I, st, o, cx, src, f, before) {
  const { base, preds } = this.peel(o.op === 'app' ? o : o), iv = { k: 'var', d: 'fe' + (++this.nid), name: 'i' };
  const body = { k: 'raws', src, fn: (I2, s, cx2) => {
    const i = s.env.get(cx2.frame.id + ':' + iv.d); let cur = [s]; const skip = [];
    for (const p of preds) cur = cur.flatMap(x => { const t = p(i); skip.push(...x.assume(T.not(t))); return x.assume(t); });
    return cur.flatMap(x => f(I2, x, x.simp(S.select(x.store, base, null, i)), i, cx2)).concat(skip);
  } };
  const n = { k: 'loop', src, init: { k: 'block', body: [...(before ? [before] : []), { k: 'let', d: iv.d, init: kc(T.ZERO) }] }, cond: { k: 'bin', op: '<', a: iv, b: { k: 'raw', fn: (I2, s) => one(s, this.lenOf(s, base)) } }, update: { k: 'expr', e: { k: 'incdec', op: '++', t: iv } }, body };
  return I.exec(n, st, cx, new Out());
};
// the declared type of the elements of the list a method is called on excludes undefined
F.elemNonNull = function (e) {
  const c = e && ts.isCallExpression(e) ? unwrap(e.expression) : null;
  if (!c || !ts.isPropertyAccessExpression(c)) return false;
  const t = this.ck.getNonNullableType(this.ck.getTypeAtLocation(c.expression)), el = this.ck.getIndexTypeOfType(t, ts.IndexKind.Number);
  return !!el && !(el.flags & (ts.TypeFlags.Any | ts.TypeFlags.Unknown | ts.TypeFlags.Undefined)) && !(el.isUnion && el.isUnion() && el.types.some(x => x.flags & ts.TypeFlags.Undefined));
};
F.mapMethod = function (name, I, st, o, a, cx, src, tn) {
  const isSet = o.op === 'app' && ['set', 'setdiff', 'union'].includes(o.val);
  switch (name) {
    case 'get': return one(st, st.simp(this.undflt(S.select(st.store, o, null, a[0]))));
    case 'has': if (isSet) return one(st, st.simp(this.setHas(st, o, a[0]))); return one(st, st.simp(T.not(T.eq(this.undflt(S.select(st.store, o, null, a[0])), T.UNDEF))));
    case 'set': { const loc = T.idx(o, a[0]); const s = st.write(loc, a[1]); I.emit('mapset', s, { src }, { map: o, key: a[0], v: a[1], pre: st }); if (I.isTracked(loc)) I.emit('write', s, { src }, { loc, v: a[1], pre: st }); return one(s, o); }
    case 'add': { I.emit('setadd', st, { src }, { set: o, v: a[0] }); let s = st.write(T.idx(o, a[0]), T.TRUE); if (this.o.traceSets) s = this.tr(I, s, 'setadd', src, { set: o, v: a[0] }); return one(s, o); }
    case 'delete': { const loc = T.idx(o, a[0]); let s = st.write(loc, T.UNDEF); if (this.o.traceSets && (isSet || ['Set', 'WeakSet'].includes(tn))) s = this.tr(I, s, 'setdel', src, { set: o, v: a[0] }); I.emit('mapdel', s, { src }, { map: o, key: a[0], pre: st }); if (I.isTracked(loc)) I.emit('write', s, { src }, { loc, v: T.UNDEF, pre: st, del: true }); return one(s, isSet || ['Set', 'WeakSet'].includes(tn) ? I.sym({ src }, 'deleted') : s.simp(T.not(T.eq(S.read(st.store, loc), T.UNDEF)))); }
    case 'clear': { I.emit('mapclear', st, { src }, { map: o }); return one(st.withStore(S.havoc(st.store, o, 'clear' + o.id)), T.UNDEF); }
    case 'values': return one(st, isSet ? T.app('elems', o) : T.app('mapvals', this.snap(st, o)));
    case 'keys': return one(st, isSet ? T.app('elems', o) : T.app('mapkeys', this.snap(st, o)));
    case 'entries': return one(st, T.app('mapentries', this.snap(st, o)));
    case 'forEach': { I.emit('mapeach', st, { src }, { map: o, f: a[0] }); const f = a[0]; const k = I.sym({ src }, 'key'); this.callFn(I, f, [S.select(st.store, o, null, k), k], st, cx, src); return one(st, T.UNDEF); }
  }
  return null;
};
F.setHas = function (st, s, x) {
  if (s.op === 'app' && s.val === 'set') { const l = T.idx(s, x), v = S.select(st.store, s, null, x); if (v !== l) { const go = t => t.op === 'ite' ? T.ite(t.args[0], go(t.args[1]), go(t.args[2])) : t === l ? this.setHas0(st, s, x) : t === T.TRUE ? T.TRUE : T.ne(t, T.UNDEF); return go(v); } }
  return this.setHas0(st, s, x);
};
F.setHas0 = function (st, s, x) {
  if (s.op === 'app' && s.val === 'set') return this.includes(st, s.args[0], x);
  if (s.op === 'app' && s.val === 'setdiff') return T.and(this.setHas(st, s.args[0], x), T.not(this.setHas(st, s.args[1], x)));
  if (s.op === 'app' && s.val === 'union') return T.or(this.setHas(st, s.args[0], x), this.setHas(st, s.args[1], x));
  return T.app('includes', s, x);
};
// a collection that is empty before a loop and gets at most one element per round is the filtered / mapped list
F.comprehend = function (I, cur, { st, hst, phis, alts, ind, hi }) {
  for (const m of phis.values()) {
    if (m.kind !== 'region' || m.loc.op !== 'ref') continue;
    const r = m.loc, set = !phisFor(phis, T.fld(r, 'length')) && S.refElem.get(r) === T.UNDEF && !written(st.store, T.fld(r, 'length'));
    const lm = set ? null : phisFor(phis, T.fld(r, 'length'));
    if (!set && (!lm || lm.kind !== 'loc' || lm.init !== T.ZERO)) continue;
    if (set && written(st.store, r)) continue;
    let ok = true, v = null; const conds = [];
    for (const a of alts) {
      const ws = [];
      for (let w = a.st.store; w.prev && w.depth > hst.store.depth; w = w.prev) { const rel = S.relation(w.loc, r); if (rel === 'disjoint') continue; if (rel !== 'below' || w.kind !== 'w' || w.elems) ok = false; ws.push(w); }
      if (!ok) break;
      if (!ws.length) continue;
      let x = null;
      if (set) { if (ws.length === 1 && ws[0].loc.op === 'idx' && ws[0].loc.args[0] === r && ws[0].val === T.TRUE) x = ws[0].loc.args[1]; }
      else if (ws.length === 2) {
        const el = ws.find(w => w.loc.op === 'idx' && w.loc.args[0] === r && w.loc.args[1] === lm.phi), ln = ws.find(w => w.loc === T.fld(r, 'length') && w.val === T.add(lm.phi, T.ONE));
        if (el && ln) x = this.snap(a.st, el.val);
      }
      if (!x || (v && v !== x)) { ok = false; break; }
      v = x; conds.push(F.conj(a.items.filter(i => !(i.k === 'lit' && rangeFact(i.t, ind.phi, hi)))));
    }
    if (!ok || !v) continue;
    const c = conds.reduce((a, b) => T.or(a, b), T.FALSE);
    const foreign = t => T.some(t, x => x !== ind.phi && (phis.has(x) || I.born.has(x) && (I.born.get(x) || []).length > I.activeLoops.length));
    if (foreign(v) || foreign(c)) continue;
    const A = [...new Set([...T.collect(v, t => t.op === 'idx' && t.args[1] === ind.phi), ...T.collect(c, t => t.op === 'idx' && t.args[1] === ind.phi)].map(t => t.args[0]))].find(x => this.lenOf(st, x) === hi);
    if (!A) continue;
    const bv = T.binder(), all = conds.length === alts.length || c === T.TRUE;
    const list = all ? A : T.app('filter', A, bv, T.subst(c, ind.phi, bv));
    let arr;
    if (v === T.idx(A, ind.phi)) arr = list;
    else {
      const h = T.sym('$elem'), body = T.substMany(v, new Map([[T.idx(A, ind.phi), h]]));
      if (T.contains(body, ind.phi)) { if (!all) continue; arr = T.mk('maparr', [hi, bv, T.subst(v, ind.phi, bv)]); }
      else arr = T.mk('maparr', [this.lenOf(st, list), bv, T.substMany(body, new Map([[h, T.idx(list, bv)]]))]);
    }
    const n = cur.clone();
    if (set) { const sub = new Map([[r, this.mkSet(arr)]]); n.env = new Map(); for (const [k, t] of cur.env) n.env.set(k, t && t.op ? T.substMany(t, sub) : t); }
    else n.store = S.write(cur.store, r, arr);
    cur = n;
  }
  return cur;
};
const phisFor = (phis, loc) => [...phis.values()].find(m => m.loc === loc);
const written = (s, loc) => { for (let e = s; e.prev; e = e.prev) if (S.relation(e.loc, loc) !== 'disjoint') return true; return false; };
const rangeFact = (t, i, hi) => t === T.lt(i, hi) || t === T.le(T.ZERO, i);
const NETWORK = new Set(['Signature']);
F.ethersFn = function (name, I, st, a, cx, src) {
  switch (name) {
    case 'keccak256': return one(st, T.mkApp('keccak', [this.snap(st, a[0])]));
    case 'verifyMessage': I.raise(st, T.sym('badsig'), { src }); return one(st, T.app('recover', this.snap(st, a[0]), this.snap(st, a[1])));
    case 'getBytes': case 'hexlify': case 'toBeHex': case 'zeroPadValue': case 'toUtf8Bytes': case 'getAddress': return one(st, this.snap(st, a[0]));
    case 'randomBytes': { const v = I.sym({ src }, 'random'); I.emit('random', st, { src }, { v, n: a[0] }); return one(st, v); }
    case 'concat': return one(st, T.app('concatBytes', this.snap(st, a[0])));
    case 'solidityPackedKeccak256': return one(st, T.app('packedkeccak', ...a.map(v => this.snap(st, v))));
  }
  return null;
};
// ---- helper functions of utils/set.ts are primitives here; their own bodies are decided by a separate rule
const SETFN = {
  fromArray: (f, st, [a]) => f.mkSet(f.snap(st, a)),
  stringSetFromArray: (f, st, [a]) => f.mkSet(f.snap(st, a)),
  toArray: (f, st, [s]) => T.app('elems', s),
  isSubset: (f, st, [a, b]) => T.app('subset', a, b),
  isSuperset: (f, st, [a, b]) => T.app('subset', b, a),
  difference: (f, st, [a, b]) => T.app('setdiff', a, b),
  union: (f, st, [a, b]) => T.app('union', a, b),
  intersection: (f, st, [a, b]) => T.app('intersection', a, b),
  excludeFromArray: (f, st, [a, s]) => { const arr = f.snap(st, a); const bv = T.binder(); return T.app('filter', arr, bv, T.not(f.setHas(st, s, T.idx(arr, bv)))); },
};
F.isContract = function (t) { // a generated contract type, or ethers' own
  t = this.ck.getNonNullableType(t); const s = t.symbol; if (!s) return false;
  const d = (s.declarations || [])[0]; if (!d) return false;
  const fn = d.getSourceFile().fileName;
  return /typechain-types/.test(fn) && /^(AStateChannelManagerProxy|AStateMachine|StateChannel|.*Facet.*)/.test(s.name);
};
F.typeName = function (t) { t = this.ck.getNonNullableType(t); return (t.aliasSymbol && t.aliasSymbol.name) || (t.symbol && t.symbol.name) || ''; };
// a promise that is only ever handed to runInBackground: the work it stands for is accounted where it is handed over
F.isBgCall = function (c) { const f = unwrap(c.expression); return ts.isIdentifier(f) && f.text === 'runInBackground' && !this.o.rawSched; };
F.bgOnly = function (d) {
  if (!this.bgMemo) this.bgMemo = new Map();
  if (this.bgMemo.has(d)) return this.bgMemo.get(d);
  this.bgMemo.set(d, false);
  let ok = !!d.name && ts.isIdentifier(d.name) && (ts.isParameter(d) ? !d.dotDotDotToken : !!d.initializer && !!(ts.getCombinedNodeFlags(d) & ts.NodeFlags.Const)) && /^Promise</.test(this.ck.typeToString(this.ck.getTypeAtLocation(d.name))), n = 0;
  if (ok) {
    let fn = d; while (fn.parent && !isFnLike(fn) && !ts.isSourceFile(fn)) fn = fn.parent;
    const sym = this.ck.getSymbolAtLocation(d.name);
    const visit = x => {
      if (ts.isIdentifier(x) && x !== d.name && x.text === d.name.text && this.ck.getSymbolAtLocation(x) === sym) {
        n++;
        const c = x.parent;
        if (!(c && ts.isCallExpression(c) && c.arguments.indexOf(x) >= 0 && (this.isBgCall(c) ? c.arguments[0] === x : this.bgParam(c, c.arguments.indexOf(x))))) ok = false;
      }
      ts.forEachChild(x, visit);
    };
    visit(fn);
  }
  ok = ok && n > 0;
  this.bgMemo.set(d, ok);
  return ok;
};
F.bgParam = function (call, i) { const sg = this.ck.getResolvedSignature(call), d = sg && sg.declaration; return !!d && inSrc(d) && isFnLike(d) && !!d.body && !!d.parameters[i] && this.bgOnly(d.parameters[i]); };
F.thunk = function (e) {
  const ir = this.ex(e), src = this.src(e), id = ++this.nid;
  return { k: 'raw', src, fn: (I, st, cx) => one(st, T.fnVal(`thunk@${id}@${cx.frame ? cx.frame.id : 0}@${cx.self ? cx.self.id : 0}`, { thunk: true, ir, cx })) };
};
F.call = function (e) {
  const src = this.src(e);
  const callee = unwrap(e.expression);
  const args = () => e.arguments.map((x, i) => ts.isCallExpression(unwrap(x)) && this.bgParam(e, i) && !this.isBgCall(e) ? this.thunk(x) : this.ex(x));
  const spread = e.arguments.some(x => ts.isSpreadElement(x));
  const optCall = !!e.questionDotToken;
  if (callee.kind === K.SuperKeyword) {
    const base = this.ck.getTypeAtLocation(callee); const c = this.P.classes.get(base.symbol && base.symbol.name);
    const as = args();
    return { k: 'raw', src, fn: (I, st, cx) => I.evList(as, st, cx).flatMap(({ st: s, vs }) => c ? this.construct(I, c, cx.self, vs, s, cx, src) : one(s, T.UNDEF)) };
  }
  const pa = ts.isPropertyAccessExpression(callee);
  const name = pa ? callee.name.text : ts.isIdentifier(callee) ? callee.text : null;
  const rtext = pa ? callee.expression.getText() : '';
  if (pa && rtext === 'console') return UND;
  if (name === 'import' ) return UND;
  const sig = this.ck.getResolvedSignature(e);
  let decl = sig && sig.declaration;
  if (decl && decl.body && (pa || ts.isIdentifier(callee))) { // a variable holding some function: decided by its value, not by its type
    let y = this.ck.getSymbolAtLocation(pa ? callee.name : callee); if (y && y.flags & ts.SymbolFlags.Alias) y = this.ck.getAliasedSymbol(y);
    const vd = y && y.valueDeclaration;
    if (vd && vd !== decl && !isFnDecl(vd) && !(vd.initializer && unwrap(vd.initializer) === decl)) decl = undefined;
  }
  const recvT = pa ? this.type(callee.expression) : null;
  const prim = (fn, as) => ({ k: 'prim', args: as || args(), src, fn: (I, st, vs, cx) => fn(I, st, vs, cx) });
  // --- project-level primitives
  if (decl && inSrc(decl)) {
    const cls = decl.parent && ts.isClassLike(decl.parent) && decl.parent.name ? decl.parent.name.text : null;
    const fnName = decl.name && ts.isIdentifier(decl.name) ? decl.name.text : (decl.parent && decl.parent.name && ts.isIdentifier(decl.parent.name)) ? decl.parent.name.text : null;
    const file = decl.getSourceFile().fileName;
    if (file.endsWith('/utils/set.ts') && SETFN[fnName] && !this.o.rawSet) return prim((I, st, vs) => one(st, st.simp(SETFN[fnName](this, st, vs))));
    if (cls === 'Mutex' && !this.o.rawMutex) {
      const recv = this.ex(callee.expression), waits = name !== 'lock' || this.waited(e);
      return { k: 'prim', args: [recv], src, fn: (I, st) => { if (!waits) { I.raise(st, T.sym('typeerr'), { src }); return []; } const n = st.x.lock || 0; const up = name === 'lock'; let s = st.withX('lock', n + (up ? 1 : -1)).withX('ver', (st.x.ver || 0) + 1); s = s.write(T.fld(SM, 'state'), T.sym((up ? 'sm@lock' : 'sm@unlock') + (st.x.ver || ''))); I.emit(up ? 'lock' : 'unlock', s, { src }, { pre: st, n }); return one(this.tr1(s, { key: (up ? 'lock|' : 'unlock|') + src + '|' + st.store.uid, kind: up ? 'lock' : 'unlock', src, st, n }), T.UNDEF); } };
    }
    if (cls === 'Clock' && fnName === 'getTimeInSeconds' && !this.o.rawClock) return prim((I, st) => one(st, T.sym('now' + (st.x.epoch || ''))), []);
    if (cls === 'EvmUtils' && fnName === 'ethersResultToObjectRecursive' && !this.o.rawEvm) return prim((I, st, [v]) => one(st, v));
    if (cls === 'DebugProxy' && !this.o.rawProxy) return prim((I, st, [v]) => one(st, v));
    if (fnName === 'runInBackground' && !this.o.rawSched) {
      let a0 = this.ex(e.arguments[0]);
      if (ts.isIdentifier(e.arguments[0])) { const v0 = a0; a0 = { k: 'raw', src, fn: (I, st, cx) => I.bindEv(v0, st, cx, (s, v) => v.op === 'fn' && v.extra && v.extra.thunk ? I.ev(v.extra.ir, s, v.extra.cx) : v.op === 'fn' && v.thunk ? I.ev(v.ir, s, v.cx) : one(s, v)) }; }
      return { k: 'raw', src, fn: (I, st, cx) => { I.emit('detached', st, { src }, {}); const n0 = I.events.length; const res = this.detached(I, st, cx, e, a0, src); return one(this.tr1(st, { key: 'detached|' + src + '|' + n0, kind: 'detached', src, st, res, evs: I.events.slice(n0) }), T.UNDEF); } };
    }
    if (fnName === 'scheduleTask' && !this.o.rawSched) return prim((I, st, [f, d], cx) => { I.emit('schedule', st, { src }, { delay: d, f }); const n0 = I.events.length; const res = this.async(I, st, f, [], cx, src, 'task'); return one(this.tr1(st, { key: 'schedule|' + src + '|' + n0, kind: 'schedule', src, st, delay: d, f, res, evs: I.events.slice(n0) }), T.UNDEF); });
    if (fnName === 'retry' && !this.o.rawRetry) return prim((I, st, [f, cfg], cx) => { I.emit('retry', st, { src }, { cfg: this.snap(st, cfg) }); const r = this.callFn(I, f, [], st, cx, src); const cb = S.select(st.store, cfg, 'onRetry', null); if (cb.op === 'fn') this.callFn(I, cb, [T.ONE, T.sym('err')], st, cx, src); return r; });
    if (cls === 'RpcHandler' && !this.o.rawRpc) {
      const recv = this.ex(callee.expression);
      return { k: 'prim', args: [recv, ...args()], src, fn: (I, st, [h, ...vs]) => { st = this.tr(I, st, 'send', src, { how: name, rpc: h, method: h.op === 'app' && h.val === 'rpc' && T.isStr(h.args[0]) ? h.args[0].val : null, params: h.op === 'app' && h.val === 'rpc' ? h.args.slice(1) : [], to: vs[0] }); return one(st, T.UNDEF); } };
    }
    if (cls === 'RpcProxy' && !this.o.rawRpc) return UND;
    if ((cls === 'AStateMachine' || (cls === 'EvmStateMachine' && !this.o.evm)) && ['stateTransition', 'getState', 'setState', 'getNextToWrite', 'getParticipants', 'runView'].includes(name)) return this.smCall(name, e, args(), src);
  }
  if (pa && this.typeName(recvT) === 'RpcHandleMethods' && !this.o.rawRpc) return prim((I, st, vs) => one(st, T.app('rpc', T.str(name), ...vs.map(v => this.snap(st, v)))));
  if (pa && this.typeName(recvT) === 'P2pEventHooks') return { k: 'prim', args: args(), src, fn: (I, st, vs) => { return one(this.tr(I, st, 'hook', src, { name, args: vs.map(v => this.snap(st, v)) }), T.UNDEF); } };
  if (pa && this.isContract(recvT) && !this.o.rawContract) {
    const recv = this.ex(callee.expression);
    return { k: 'prim', args: [recv, ...args()], src, fn: (I, st, [o, ...vs]) => {
      st = this.tr(I, st, 'chain', src, { m: name, recv: o, args: vs.map(v => this.snap(st, v)), raw: vs });
      I.raise(st, T.sym('chainerr'), { src });
      return one(st, I.sym({ src }, 'chain_' + name));
    } };
  }
  // --- inlined project code
  if (decl && inSrc(decl) && isFnLike(decl) && decl.body && !optCall) {
    const as = spread ? null : args();
    const isMethod = ts.isMethodDeclaration(decl) || ts.isGetAccessor(decl);
    const run = (I, st, cx, selfV, scope, vs) => {
      const fl = this.isAsync(decl) && this.floating(e);
      if (fl) { I.emit('float', st, { src }, {}); const save = I.thr; I.thr = []; const r = this.callDecl(I, decl, selfV, vs, st, cx, src, scope), bad = I.thr; I.thr = save; return this.dropped(I, I.joinRes(r), bad, src); }
      return this.callDecl(I, decl, selfV, vs, st, cx, src, scope);
    };
    if (isMethod) {
      if (hasMod(decl, K.StaticKeyword)) return { k: 'prim', args: as || args(), src, fn: (I, st, vs, cx) => run(I, st, cx, T.UNDEF, null, vs) };
      const recv = pa ? (callee.expression.kind === K.SuperKeyword ? { k: 'this' } : this.ex(callee.expression)) : UND;
      const o = pa && callee.expression.kind !== K.SuperKeyword;
      const inl = { k: 'prim', args: [recv, ...(as || args())], src, fn: (I, st, [r, ...vs], cx) => run(I, st, cx, r, null, vs) };
      if (o && callee.questionDotToken) return this.optional(callee.expression, recv, x => ({ k: 'prim', args: [x, ...(as || args())], src, fn: inl.fn }));
      if (ts.isOptionalChain(e)) return this.chainGuard(recv, null, x => ({ k: 'prim', args: [x, ...(as || args())], src, fn: inl.fn }));
      // abstract receiver with an override? inline the declared body
      return inl;
    }
    if (ts.isFunctionDeclaration(decl) && ts.isSourceFile(decl.parent)) return { k: 'prim', args: as || args(), src, fn: (I, st, vs, cx) => run(I, st, cx, T.UNDEF, null, vs) };
    if (pa && decl.parent && ts.isPropertyDeclaration(decl.parent)) { const recv = this.ex(callee.expression); return { k: 'prim', args: [recv, ...(as || args())], src, fn: (I, st, [r, ...vs], cx) => run(I, st, cx, r, null, vs) }; }
    const cv = this.ex(callee);
    return { k: 'prim', args: [cv, ...(as || args())], src, fn: (I, st, [f, ...vs], cx) => {
      const fl = this.isAsync(decl) && this.floating(e);
      if (!fl) return this.callFn(I, f, vs, st, cx, src);
      const save = I.thr; I.thr = []; const r = this.callFn(I, f, vs, st, cx, src), bad = I.thr; I.thr = save; return this.dropped(I, r, bad, src);
    } };
  }
  // --- runtime and libraries
  if (!pa) {
    switch (name) {
      case 'Number': case 'BigInt': case 'String': case 'parseInt': return prim((I, st, [v]) => one(st, this.o.convert ? this.o.convert(name, st, v) : v));
      case 'Boolean': return prim((I, st, [v]) => one(st, st.simp(this.truthTerm(v, this.kindOf(this.type(e.arguments[0])), this.type(e.arguments[0])))));
      case 'clearTimeout': case 'clearInterval': case 'clearImmediate': return prim((I, st, vs) => this.extCall(I, st, name, null, vs, src).map(r => ({ st: r.st, v: T.UNDEF })));
      case 'setTimeout': case 'setInterval': case 'setImmediate': case 'queueMicrotask': return prim((I, st, [f, d], cx) => { const n0 = I.events.length; I.emit('timer', st, { src }, { delay: d || T.ZERO, f, name }); const res = this.async(I, st, f, [], cx, src, 'timer'); st = this.tr1(st, { key: 'timer|' + src + '|' + n0, kind: 'timer', src, st, delay: d || T.ZERO, f, name, res, evs: I.events.slice(n0 + 1) }); return one(st, I.sym({ src }, 'timer')); });
    }
    if (name && decl && /node_modules\/ethers/.test(decl.getSourceFile().fileName)) { const as = args(); return { k: 'prim', args: as, src, fn: (I, st, vs, cx) => this.ethersFn(name, I, st, vs, cx, src) || this.extCall(I, st, name, null, vs, src) }; }
    const cv = this.ex(callee);
    const as = args();
    const body = (I, st, f, vs, cx) => this.callFn(I, f, vs, st, cx, src);
    return { k: 'raw', src, fn: (I, st, cx) => I.bindEv(cv, st, cx, (s, f) => {
      if (!optCall) return I.evList(as, s, cx).flatMap(({ st: s2, vs }) => body(I, s2, f, vs, cx));
      const r = []; const n = s.simp(this.nullishT(f, this.type(callee)));
      for (const s1 of s.assume(T.not(n))) for (const { st: s2, vs } of I.evList(as, s1, cx)) r.push(...body(I, s2, f, vs, cx));
      for (const s1 of s.assume(n)) r.push({ st: s1, v: T.UNDEF });
      return r;
    }) };
  }
  // x.m(...)
  const dfile = decl ? decl.getSourceFile().fileName : '';
  const tn = this.typeName(recvT);
  if (rtext === 'Math') {
    if ((name === 'max' || name === 'min') && spread && ts.isSpreadElement(e.arguments[e.arguments.length - 1]) && e.arguments.slice(0, -1).every(x => !ts.isSpreadElement(x))) return prim((I, st, vs, cx) => {
      const first = vs.length > 1 ? vs.slice(0, -1) : [T.sym(name === 'max' ? '-Infinity' : 'Infinity')], pick = (s, x, b) => { const r = []; const c = name === 'max' ? T.le(b, x) : T.le(x, b); for (const s1 of s.assume(c)) r.push({ st: s1, v: x }); for (const s1 of s.assume(T.not(c))) r.push({ st: s1, v: b }); return r; };
      const acc = 'mx' + (++this.nid), key = c => c.frame.id + ':' + acc;
      let cur = [{ st, v: first[0] }]; for (const b of first.slice(1)) cur = cur.flatMap(({ st: s, v }) => pick(s, v, b));
      return cur.flatMap(({ st: s, v }) => this.eachElem(I, s, vs[vs.length - 1], cx, src, (I2, x, el, i, cx2) => pick(x, x.env.get(key(cx2)), el).map(r => r.st.setVar(key(cx2), r.v)), { k: 'let', d: acc, init: kc(v) }).map(x => ({ st: x, v: x.env.get(key(cx)) })));
    });
    if (name === 'max' || name === 'min') return prim((I, st, vs) => {
      let cur = [{ st, v: vs[0] }];
      for (const b of vs.slice(1)) cur = cur.flatMap(({ st: s, v: x }) => { const r = []; const c = name === 'max' ? T.le(b, x) : T.le(x, b); for (const s1 of s.assume(c)) r.push({ st: s1, v: x }); for (const s1 of s.assume(T.not(c))) r.push({ st: s1, v: b }); return r; });
      return cur;
    });
    return prim((I, st, vs) => one(st, T.app(name, ...vs)));
  }
  if (rtext === 'Promise') {
    if (name === 'resolve') return prim((I, st, [v]) => one(st, v || T.UNDEF));
    if (name === 'all' || name === 'allSettled') return prim((I, st, [v]) => one(st, v));
    if (name === 'reject') return prim((I, st, [v]) => { I.raise(st, v || T.UNDEF, { src }); return []; });
  }
  if (rtext === 'JSON') return prim((I, st, vs) => { if (name === 'parse') I.raise(st, T.sym('badjson'), { src }); return one(st, T.mkApp(name === 'parse' ? 'unjson' : 'json', [this.snap(st, vs[0])])); });
  if (rtext === 'Array' && name === 'from') return prim((I, st, vs, cx) => { const v = vs[0].op === 'app' && vs[0].val === 'set' ? T.app('elems', vs[0]) : vs[0]; if (vs[1]) return this.method('map', I, st, v, [vs[1]], cx, src, e); return one(st, v); });
  if (rtext === 'Array' && name === 'isArray') return prim((I, st, [v]) => one(st, T.app('isArray', v)));
  if (rtext === 'Object') return prim((I, st, vs) => one(st, T.app('Object.' + name, ...vs.map(v => this.snap(st, v)))));
  if (rtext === 'Reflect') { return prim((I, st, vs, cx) => name === 'apply' ? this.callFn(I, vs[0], [vs[2]], st, cx, src) : one(st, T.app('Reflect.' + name, ...vs))); }
  if (rtext === 'Buffer') return prim((I, st, vs) => one(st, name === 'from' ? vs[0] : T.app('Buffer.' + name, ...vs.map(v => this.snap(st, v)))));
  if (/node_modules\/ethers/.test(dfile)) {
    if (rtext.replace(/^ethers\./, '') === 'Signature' && name === 'from') return prim((I, st, [v]) => { I.raise(st, T.sym('badsig'), { src }); return one(st, T.app('sig', this.snap(st, v))); });
    if (/AbiCoder$/.test(rtext) && name === 'defaultAbiCoder') return kc(T.sym('abiCoder'));
    if (tn === 'AbiCoder') {
      if (name === 'encode') return prim((I, st, [ty, v]) => { const t = this.snap(st, ty), x = this.snap(st, v); I.raise(st, T.sym('badabi'), { src }); return one(st, this.abi(t, x)); });
      if (name === 'decode') return prim((I, st, [ty, v]) => { const t = this.snap(st, ty), x = this.snap(st, v); I.raise(st, T.sym('badabi'), { src }); return one(st, T.app('unabis', this.tyKey(t), x)); });
    }
    if (/^ethers$/.test(rtext)) { const as = args(); return { k: 'prim', args: as, src, fn: (I, st, vs, cx) => this.ethersFn(name, I, st, vs, cx, src) || this.extCall(I, st, name, null, vs, src) }; }
    if (name === 'signMessage' || name === 'signTypedData' || name === 'signTransaction') {
      const recv = this.ex(callee.expression);
      return { k: 'prim', args: [recv, ...args()], src, fn: (I, st, [o, ...vs]) => { const m = vs.map(v => this.snap(st, v)); st = this.tr(I, st, 'sign', src, { signer: o, msg: m[0], what: name }); I.raise(st, T.sym('signerr'), { src }); return one(st, T.app('signature', o, ...m)); } };
    }
  }
  const recv = this.ex(callee.expression);
  const as = args();
  const self = this;
  if (name === 'then' || name === 'catch' || name === 'finally') {
    return { k: 'raw', src, fn: (I, st, cx) => {
      const save = I.thr; const sink = []; if (name !== 'then') I.thr = sink;
      const rs = I.ev(recv, st, cx);
      I.thr = save;
      const out = [];
      for (const r of rs) {
        if (name === 'then') out.push(...I.evList(as, r.st, cx).flatMap(({ st: s, vs }) => { const f = vs[0]; return f.op === 'fn' ? this.callFn(I, f, [r.v], s, cx, src) : one(s, r.v); }));
        else if (name === 'catch') { if (this.o.tracePromise) for (const { st: s, vs } of I.evList(as, r.st, cx)) { const t0 = I.thr; I.thr = []; const hs = vs[0] ? this.callFn(I, vs[0], [T.sym('rejected')], s, cx, src) : []; const bad = I.thr; I.thr = t0; out.push({ st: this.tr(I, s, 'handled', src, { p: r.v, f: vs[0], res: hs, bad }), v: r.v }); } else out.push(r); }
        else out.push(...I.evList(as, r.st, cx).flatMap(({ st: s, vs }) => this.callFn(I, vs[0], [], s, cx, src).map(x => ({ st: x.st, v: r.v }))));
      }
      for (const t of I.joinRes(sink.map(t => ({ st: t.st, v: t.v || T.UNDEF })))) {
        for (const { st: s, vs } of I.evList(as, t.st, cx)) {
          const q = this.callFn(I, vs[0], name === 'catch' ? [t.v] : [], s, cx, src);
          if (name === 'catch') out.push(...q); else for (const x of q) I.raise(x.st, t.v, { src });
        }
      }
      return I.joinRes(out);
    } };
  }
  if (name === 'bind') return { k: 'prim', args: [recv, ...as], src, fn: (I, st, [f, o]) => one(st, f.op === 'fn' && f.decl ? this.fnVal(f.decl, f.scope, o) : f) };
  if (name === 'call' || name === 'apply') return { k: 'prim', args: [recv, ...as], src, fn: (I, st, [f, o, ...vs], cx) => this.callFn(I, f.op === 'fn' && f.decl ? this.fnVal(f.decl, f.scope, o) : f, vs, st, cx, src) };
  const isMap = ['Map', 'WeakMap', 'ReadonlyMap', 'Set', 'WeakSet', 'ReadonlySet', 'Queue'].includes(tn);
  const isArr = this.ck.isArrayType(this.ck.getNonNullableType(recvT)) || ['Array', 'ReadonlyArray', 'Result'].includes(tn) || (recvT.flags & ts.TypeFlags.StringLike);
  const fn = (I, st, [o, ...vs], cx) => {
    let r = null;
    if (name === 'toString' || name === 'valueOf' || name === 'toBigInt' || name === 'toNumber') return one(st, o);
    if (o.op === 'fn' ) return self.callFn(I, o, vs, st, cx, src);
    if (isMap) r = self.mapMethod(name, I, st, o, vs, cx, src, tn);
    if (!r && (isArr || !isMap)) r = self.method2(name, isArr, I, st, o, vs, cx, src, e);
    return r || self.valueCall(I, st, cx, callee, name, o, vs, src);
  };
  const node = { k: 'prim', args: [recv, ...as], src, fn };
  if (callee.questionDotToken) return this.optional(callee.expression, recv, x => ({ k: 'prim', args: [x, ...as], src, fn }));
  if (optCall) return { k: 'raw', src, fn: (I, st, cx) => I.bindEv(this.prop(callee), st, cx, (s, f) => {
    const r = []; const n = s.simp(this.nullishT(f, this.type(callee)));
    for (const s1 of s.assume(T.not(n))) for (const { st: s2, vs } of I.evList(as, s1, cx)) r.push(...this.callFn(I, f, vs, s2, cx, src));
    for (const s1 of s.assume(n)) r.push({ st: s1, v: T.UNDEF });
    return r;
  }) };
  if (ts.isOptionalChain(e)) return this.chainGuard(recv, null, x => ({ k: 'prim', args: [x, ...as], src, fn }));
  return node;
};
F.method2 = function (name, isArr, I, st, o, vs, cx, src, e) {
  if (!isArr) { if (['push', 'map', 'filter', 'forEach', 'some', 'every', 'at', 'includes'].includes(name) && (o.op === 'ref' || o.op === 'app' || o.op === 'arr')) return this.method(name, I, st, o, vs, cx, src, e); return null; }
  return this.method(name, I, st, o, vs, cx, src, e);
};
// a function stored in a property: call its value if known
F.valueCall = function (I, st, cx, callee, name, o, vs, src) {
  const v = st.simp(this.undflt(S.select(st.store, o, name, null)));
  if (v.op === 'fn') return this.callFn(I, v, vs, st, cx, src);
  return this.extCall(I, st, name, o, vs, src);
};
F.extCall = function (I, st, name, o, vs, src) {
  st = this.tr(I, st, 'ext', src, { name, recv: o, args: vs.map(v => this.snap(st, v)), raw: vs });
  for (const v of vs) if (v.op === 'fn' && v.decl) this.async(I, st, v, [I.sym({ src }, 'cbarg')], { frame: v.scope, self: v.self }, src, 'callback:' + name);
  return one(st, I.sym({ src }, 'ext_' + name));
};
F.chainGuard = function (o, f, mk) {
  return { k: 'raw', fn: (I, st, cx) => I.bindEv(o, st, cx, (s, v) => v.op === 'undef' ? [{ st: s, v }] : I.ev(mk ? mk(kc(v)) : Object.assign({}, f, { o: kc(v) }), s, cx)) };
};
// failures of work nobody waits for
F.dropped = function (I, rs, bad, src) { return this.o.tracePromise && bad.length ? rs.map(r => ({ st: this.tr(I, r.st, 'dropped', src, { bad }), v: r.v })) : rs; };
F.isAsync = d => hasMod(d, K.AsyncKeyword);
// is the promise of this call dropped (neither awaited, returned, stored nor passed on)?
F.floating = function (e) {
  let p = e.parent;
  while (ts.isParenthesizedExpression(p) || ts.isAsExpression(p) || ts.isNonNullExpression(p)) p = p.parent;
  return ts.isExpressionStatement(p) || (ts.isVoidExpression(p));
};
F.tyKey = function (t) { return T.str(normStr(T.pp(t))); };
F.tyOne = function (t) { return t.op === 'arr' && t.args.length === 1 ? this.tyStr(t.args[0]) : this.tyKey(t); };
F.tyStr = t => T.str(T.isStr(t) ? normStr(t.val).replace(/\s*([(),\[\]])\s*/g, '$1') : T.pp(t));
F.tyKey = function (t) { return t.op === 'arr' ? (t.args.length === 1 ? this.tyStr(t.args[0]) : T.mk('tuple', t.args.map(x => this.tyStr(x)))) : this.tyStr(t); };
F.abi = function (t, x) {
  if (x.op === 'arr' && x.args.length === 1) return T.mkApp('abi', [this.tyKey(t), this.canonFields(x.args[0])]);
  return T.mkApp('abi', [this.tyKey(t), x]);
};
F.canonFields = v => v;
F.smCall = function (name, e, as, src) {
  const L = T.fld(SM, 'state');
  return { k: 'prim', args: as, src, fn: (I, st, vs) => {
    const cur = st.simp(S.read(st.store, L));
    const err = () => I.raise(st, T.sym('smerr'), { src });
    switch (name) {
      case 'getState': err(); return one(st, cur);
      case 'getNextToWrite': err(); return one(st, T.app('nextToWrite', cur));
      case 'getParticipants': err(); return one(st, T.app('participants', cur));
      case 'runView': return one(st, T.app('view', cur, vs[0]));
      case 'setState': { err(); const v = this.snap(st, vs[0]); const s = st.write(L, v); I.emit('sm', s, { src }, { m: name, arg: v, pre: st }); return one(s, T.TRUE); }
      case 'stateTransition': {
        const tx = this.snap(st, vs[0]);
        const post = T.app('post', cur, tx), ok = T.app('transOk', cur, tx);
        const s = st.write(L, post);
        I.emit('sm', s, { src }, { m: name, arg: tx, pre: st });
        const r = I.alloc({ src }, 'transition'); S.refFields.set(r, { name: 'transition', names: ['success', 'successCallback'] });
        const cb = T.fnVal('successCallback@' + src + T.pp(tx).length + '#' + tx.id, { prim: (I2, s2, a, cx2, src2) => { return one(this.tr(I2, s2, 'successCallback', src2, { tx }), T.UNDEF); } });
        return one(s.write(T.fld(r, 'success'), ok).write(T.fld(r, 'successCallback'), cb), r);
      }
    }
  } };
};
// ---- new
F.newEx = function (e) {
  const src = this.src(e);
  const args = (e.arguments || []).map(x => this.ex(x));
  const ct = unwrap(e.expression); const name = ts.isIdentifier(ct) ? ct.text : ct.getText();
  const t = this.type(e);
  const cn = this.classOfType(t);
  const cls = cn && this.P.classes.get(cn);
  if (cls) {
    return { k: 'prim', args, src, fn: (I, st, vs, cx) => {
      const sing = SINGLETONS.includes(cn);
      const self = sing ? (cn === 'EvmStateMachine' && !this.o.evm ? SM : T.root(cn)) : I.alloc({ src }, cn);
      I.emit('new', st, { src }, { cls: cn, args: vs.map(v => this.snap(st, v)), raw: vs, self });
      if (sing && !this.o.construct) return one(st, self);
      return this.construct(I, cls, self, vs, st, cx, src).map(r => ({ st: r.st, v: self }));
    } };
  }
  return { k: 'prim', args, src, fn: (I, st, vs, cx) => {
    switch (name) {
      case 'Map': case 'WeakMap': { const r = I.alloc({ src }, 'map'); S.refElem.set(r, T.UNDEF); return one(st, r); }
      case 'Set': case 'WeakSet': { if (!vs[0]) { const r = I.alloc({ src }, 'set'); S.refElem.set(r, T.UNDEF); return one(st, r); } return one(st, this.mkSet(this.snap(st, vs[0]))); }
      case 'Error': case 'TypeError': case 'RangeError': return one(st, T.app('Error', vs[0] ? this.snap(st, vs[0]) : T.UNDEF));
      case 'Date': return one(st, I.sym({ src }, 'date'));
      case 'Promise': {
        const pv = I.sym({ src }, 'promise');
        const mk = k => T.fnVal(k + '@' + T.pp(pv), { prim: (I2, s2, a, cx2, src2) => { I2.emit(k, s2, { src: src2 }, { promise: pv, v: a[0] || T.UNDEF }); if (this.o.tracePromise) s2 = this.tr(I2, s2, k, src2, { promise: pv }); return one(s2, T.UNDEF); }, promise: pv });
        const rs = vs[0] && vs[0].op === 'fn' ? this.callFn(I, vs[0], [mk('resolve'), mk('reject')], st, cx, src) : one(st, T.UNDEF);
        return rs.map(r => ({ st: r.st, v: pv }));
      }
      default: {
        I.emit('new', st, { src }, { cls: name, args: vs.map(v => this.snap(st, v)), raw: vs });
        return one(st, I.sym({ src }, 'new_' + name));
      }
    }
  } };
};
F.construct = function (I, cls, self, vs, st, cx, src) {
  const ctor = cls.members.find(m => ts.isConstructorDeclaration(m) && m.body);
  let cur = [st];
  const base = cls.heritageClauses && cls.heritageClauses.find(h => h.token === K.ExtendsKeyword);
  const bc = base && this.P.classes.get(unwrap(base.types[0].expression).getText());
  if (bc && !ctor) cur = this.construct(I, bc, self, vs, st, cx, src).map(r => r.st);
  for (const m of cls.members) if (ts.isPropertyDeclaration(m) && m.initializer && !hasMod(m, K.StaticKeyword)) {
    const init = this._init(m);
    if (this.singleton(this.type(m.name)) && !ts.isNewExpression(unwrap(m.initializer))) continue;
    const frame = { id: ++I.frames, parent: null, fn: { name: cls.name.text } };
    cur = cur.flatMap(s => I.ev(init, s, Object.assign({}, cx, { self, frame })).map(r => this.singleton(this.type(m.name)) ? r.st : r.st.write(T.fld(self, m.name.getText()), r.v)));
    cur = I.join(cur);
  }
  if (!ctor) return cur.map(s => ({ st: s, v: self }));
  return cur.flatMap(s => this.callDecl(I, ctor, self, vs, s, cx, src, null)).map(r => ({ st: r.st, v: self }));
};
F._init = function (m) { const k = 'init' + this.idOf(m); let r = this.lowered.get(k); if (!r) this.lowered.set(k, r = this.ex(m.initializer)); return r; };
let uidN = 0;
F.uid = function () { return this._uid || (this._uid = (++uidN) + '#'); };
