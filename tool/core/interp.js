'use strict';
// Interprocedural guard/value-flow dataflow over a structured IR.  Facts are must-facts over
// value-numbered terms; paths are partitioned and re-merged at joins; loops are summarised once
// (havoc of what they modify + quantified body facts).  No solver, no execution.
const T = require('./terms');
const S = require('./state');
const { State } = S;

let gloop = 0;
class Out { constructor() { this.ret = []; this.brk = []; this.cont = []; } }

class Interp {
  constructor(opts = {}) {
    this.events = []; this.loops = []; this.rec = true; this.stack = []; this.thr = null;
    this.unsigned = !!opts.unsigned; this.opts = opts; this.frames = 0; this.steps = 0; this.fnsSeen = new Set(); this.notes = [];
    this.cap = opts.cap || 60; this.loopCnt = 0; this.activeLoops = []; this.loopStack = []; this.born = new Map(); this.loopByPhi = new Map();
  }
  tick() { if (++this.steps > (this.opts.maxSteps || 4000000)) throw new Error('analysis budget exceeded'); }
  site(node) { return { src: node && node.src, fn: this.stack[this.stack.length - 1] && this.stack[this.stack.length - 1].name }; }
  emit(kind, st, node, data) {
    if (this.rec) this.events.push(Object.assign({ kind, st, src: node && node.src, fn: (this.stack[this.stack.length - 1] || {}).name, stack: this.stack.map(f => f.name), entry: this.entry, loopStack: this.loopStack.slice() }, data));
  }
  raise(st, v, node) { if (this.opts.raiseEvents && this.rec && !this.silentRaise) this.emit('raise', st, node, { v }); if (this.thr) this.thr.push({ st, v, node }); }
  // ---- expressions: return [{st,v}]
  ev(n, st, cx) {
    this.tick();
    switch (n.k) {
      case 'const': return [{ st, v: n.v }];
      case 'var': return [{ st, v: this.getVar(n, st, cx) }];
      case 'this': return [{ st, v: cx.self }];
      case 'root': { const loc = n.t; return [{ st, v: n.ref ? loc : st.simp(S.read(st.store, loc)) }]; }
      case 'fld': return this.bindEv(n.o, st, cx, (s, o) => this.readFld(n, s, o, cx));
      case 'idx': return this.bindEv(n.o, st, cx, (s, o) => this.bindEv(n.i, s, cx, (s2, i) => this.readIdx(n, s2, o, i, cx)));
      case 'load': return this.bindEv(n.e, st, cx, (s, v) => [{ st: s, v: S.load(s.store, v) }]);
      case 'un': return this.bindEv(n.e, st, cx, (s, v) => [{ st: s, v: this.unop(n, v, s) }]);
      case 'bin': return this.bindEv(n.a, st, cx, (s, a) => this.bindEv(n.b, s, cx, (s2, b) => this.binop(n, s2, a, b, cx)));
      case 'and': return this.shortCircuit(n, st, cx, true);
      case 'or': return this.shortCircuit(n, st, cx, false);
      case 'nullish': return this.bindEv(n.a, st, cx, (s, a) => {
        const isN = n.noNull ? T.eq(a, T.UNDEF) : T.or(T.eq(a, T.NULL), T.eq(a, T.UNDEF));
        const r = [];
        for (const s1 of s.assume(T.not(isN))) r.push({ st: s1, v: a });
        for (const s1 of s.assume(isN)) r.push(...this.ev(n.b, s1, cx));
        return r;
      });
      case 'cond': {
        const r = [];
        for (const s of this.branch(n.c, st, cx, true)) r.push(...this.ev(n.a, s, cx));
        for (const s of this.branch(n.c, st, cx, false)) r.push(...this.ev(n.b, s, cx));
        return r;
      }
      case 'assign': return this.evAssign(n, st, cx);
      case 'incdec': return this.lval(n.t, st, cx, (s, lv) => {
        const old = this.lget(lv, s); const nv = n.op === '++' ? T.add(old, T.ONE) : T.sub(old, T.ONE);
        return this.lset(lv, s, nv, cx, n).map(s2 => ({ st: s2, v: n.prefix ? nv : old }));
      });
      case 'tuple': return this.evList(n.els, st, cx).map(({ st: s, vs }) => ({ st: s, v: T.mk('tuple', vs.map(v => v || T.UNDEF)) }));
      case 'prim': return this.evList(n.args, st, cx).flatMap(({ st: s, vs }) => n.fn(this, s, vs, cx, n));
      case 'raw': return n.fn(this, st, cx, n);
      case 'seq': { let cur = [{ st, v: T.UNDEF }]; for (const e of n.els) cur = cur.flatMap(c => this.ev(e, c.st, cx)); return cur; }
      default: throw new Error('ev: ' + n.k);
    }
  }
  bindEv(n, st, cx, f) {
    const rs = this.ev(n, st, cx);
    if (rs.length === 1) return f(rs[0].st, rs[0].v);
    return rs.flatMap(r => f(r.st, r.v));
  }
  evList(ns, st, cx) {
    let cur = [{ st, vs: [] }];
    for (const n of ns) {
      if (!n) { cur = cur.map(c => ({ st: c.st, vs: c.vs.concat([null]) })); continue; }
      cur = cur.flatMap(c => this.ev(n, c.st, cx).map(r => ({ st: r.st, vs: c.vs.concat([r.v]) })));
    }
    return cur;
  }
  getVar(n, st, cx) {
    let f = cx.frame;
    while (f) { const v = st.env.get(f.id + ':' + n.d); if (v !== undefined) return v; f = f.parent; }
    if (n.global) return n.global;
    return T.sym('?' + n.name);
  }
  varKey(n, st, cx) {
    let f = cx.frame;
    while (f) { const k = f.id + ':' + n.d; if (st.env.has(k)) return k; f = f.parent; }
    return cx.frame.id + ':' + n.d;
  }
  readFld(n, st, o, cx) {
    if (this.opts.readFld) { const r = this.opts.readFld(this, n, st, o, cx); if (r) return r; }
    if (n.ref) return [{ st, v: T.fld(o, n.name) }];
    return [{ st, v: st.simp(S.select(st.store, o, n.name, null)) }];
  }
  readIdx(n, st, o, i, cx) {
    if (n.ref) return [{ st, v: T.idx(o, i) }];
    if (n.check && !n.nocheck) { // bounds check: out-of-bounds raises
      const len = st.simp(S.select(st.store, o, 'length', null));
      const inb = T.lt(i, len);
      const r = [];
      if (!(T.isBool(inb) && inb.val)) for (const s of st.assume(T.not(inb))) { this.emit('oob', s, n, { o, i }); this.raise(s, T.str('panic'), n); }
      for (const s of st.assume(inb)) r.push({ st: s, v: s.simp(S.select(s.store, o, null, i)) });
      return r;
    }
    return [{ st, v: st.simp(S.select(st.store, o, null, i)) }];
  }
  unop(n, v, st) {
    if (n.op === '!') return st.simp(T.not(this.truth(v)));
    if (n.op === '-') return T.neg(v);
    if (n.op === '+') return v;
    return T.app('un' + n.op, v);
  }
  truth(v) { return this.opts.truth ? this.opts.truth(v) : v; }
  binop(n, st, a, b, cx) {
    let v;
    switch (n.op) {
      case '==': case '===': v = st.simp(T.eq(a, b)); break;
      case '!=': case '!==': v = st.simp(T.not(T.eq(a, b))); break;
      case '<': v = st.simp(T.lt(a, b)); break;
      case '>': v = st.simp(T.lt(b, a)); break;
      case '<=': v = st.simp(T.le(a, b)); break;
      case '>=': v = st.simp(T.le(b, a)); break;
      case '+': v = n.strcat || (T.isStr(a) || T.isStr(b)) ? T.app('concat', a, b) : T.add(a, b); break;
      case '-':
        v = T.sub(a, b);
        if (n.checked) { const r = []; const ok = T.le(b, a); for (const s of st.assume(T.not(ok))) this.raise(s, T.str('underflow'), n); for (const s of st.assume(ok)) r.push({ st: s, v }); return r; }
        break;
      case '*': v = T.mul(a, b); break;
      default: v = T.app('op' + n.op, a, b);
    }
    return [{ st, v }];
  }
  shortCircuit(n, st, cx, isAnd) {
    return this.bindEv(n.a, st, cx, (s, av) => {
      const a = this.truth(av);
      const c = s.simp(a);
      if (T.isBool(c)) return (c.val === isAnd) ? this.ev(n.b, s, cx) : [{ st: s, v: n.valued ? av : c }];
      const r = [];
      for (const s1 of s.assume(isAnd ? c : T.not(c))) r.push(...this.ev(n.b, s1, cx));
      for (const s1 of s.assume(isAnd ? T.not(c) : c)) r.push({ st: s1, v: n.valued ? av : T.bool(!isAnd) });
      return this.mergeRes(r);
    });
  }
  // states in which condition n has truth value `want`
  branch(n, st, cx, want) { return this.branch2(n, st, cx)[want ? 0 : 1]; }
  branch2(n, st, cx) {
    const key = n;
    if (this._bn === key && this._bs === st && this._bf === cx.frame) return this._br;
    const t = [], f = [];
    for (const r of this.ev(n, st, cx)) {
      const c = this.truth(r.v);
      t.push(...r.st.assume(c)); f.push(...r.st.assume(T.not(c)));
    }
    const res = [t, f];
    this._bn = key; this._bs = st; this._bf = cx.frame; this._br = res;
    return res;
  }
  // ---- lvalues
  lval(t, st, cx, f) {
    switch (t.k) {
      case 'var': return f(st, { k: 'var', key: this.varKey(t, st, cx), n: t });
      case 'root': return f(st, { k: 'loc', loc: t.t, storage: t.storage, n: t });
      case 'fld': return this.bindEv(t.o, st, cx, (s, o) => f(s, { k: 'loc', loc: T.fld(o, t.name), n: t, o }));
      case 'idx': return this.bindEv(t.o, st, cx, (s, o) => this.bindEv(t.i, s, cx, (s2, i) => f(s2, { k: 'loc', loc: T.idx(o, i), n: t, o })));
      case 'load': return this.lval(t.e, st, cx, f);
      case 'tuple': {
        const go = (i, s, acc) => i === t.els.length ? f(s, { k: 'tuple', els: acc }) : t.els[i] ? this.lval(t.els[i], s, cx, (s2, l) => go(i + 1, s2, acc.concat([l]))) : go(i + 1, s, acc.concat([null]));
        return go(0, st, []);
      }
      default: return this.bindEv(t, st, cx, (s, o) => f(s, { k: 'loc', loc: o, n: t }));
    }
  }
  lget(lv, st) {
    if (lv.k === 'var') return st.env.get(lv.key) || T.UNDEF;
    return st.simp(S.read(st.store, lv.loc));
  }
  lset(lv, st, v, cx, node) {
    if (lv.k === 'tuple') {
      let cur = [st];
      lv.els.forEach((l, i) => { if (l) cur = cur.flatMap(s => this.lset(l, s, v.op === 'tuple' ? v.args[i] : T.app('proj' + i, v), cx, node)); });
      return cur;
    }
    if (lv.k === 'var') return [st.setVar(lv.key, v)];
    if (this.opts.onWrite) { const r = this.opts.onWrite(this, st, lv.loc, v, node, cx); if (r) return r; }
    const s = st.write(lv.loc, v);
    if (this.isTracked(lv.loc)) this.emit('write', s, node, { loc: lv.loc, v, pre: st });
    return [s];
  }
  isTracked(loc) { const b = S.decompose(loc).base; return b.op === 'root' || !!this.opts.trackAll; }
  evAssign(n, st, cx) {
    if (n.op && n.op !== '=') {
      if (n.op === '&&=' || n.op === '||=' || n.op === '??=') {
        return this.lval(n.t, st, cx, (s, lv) => {
          const a = this.lget(lv, s); const r = [];
          const c = n.op === '??=' ? T.not(T.or(T.eq(a, T.NULL), T.eq(a, T.UNDEF))) : this.truth(a);
          const keep = n.op === '&&=' ? T.not(c) : c;
          for (const s1 of s.assume(keep)) r.push({ st: s1, v: a });
          for (const s1 of s.assume(T.not(keep))) for (const x of this.ev(n.v, s1, cx)) for (const s2 of this.lset(lv, x.st, x.v, cx, n)) r.push({ st: s2, v: x.v });
          return r;
        });
      }
      return this.lval(n.t, st, cx, (s, lv) => this.bindEv(n.v, s, cx, (s2, b) => this.binop({ op: n.op.slice(0, -1), checked: n.checked, src: n.src, strcat: n.strcat }, s2, this.lget(lv, s2), b, cx)
        .flatMap(r => this.lset(lv, r.st, r.v, cx, n).map(s3 => ({ st: s3, v: r.v })))));
    }
    return this.bindEv(n.v, st, cx, (s, v) => this.lval(n.t, s, cx, (s2, lv) => this.lset(lv, s2, v, cx, n).map(s3 => ({ st: s3, v }))));
  }
  // ---- statements: normal exit states returned, others into out
  exec(n, st, cx, out) {
    this.tick();
    switch (n.k) {
      case 'block': {
        let cur = [st];
        for (const c of n.body) { cur = cur.flatMap(s => this.exec(c, s, cx, out)); if (!cur.length) break; if (cur.length > 1) cur = this.join(cur); }
        return cur;
      }
      case 'expr': return this.ev(n.e, st, cx).map(r => r.st);
      case 'let': {
        if (!n.init) return [st.setVar(cx.frame.id + ':' + n.d, n.dflt ? n.dflt(this, st, cx) : T.UNDEF)];
        return this.ev(n.init, st, cx).map(r => r.st.setVar(cx.frame.id + ':' + n.d, r.v));
      }
      case 'lets': return this.ev(n.init, st, cx).flatMap(r => {
        let s = r.st;
        n.ds.forEach((d, i) => { if (d) s = s.setVar(cx.frame.id + ':' + d.d, r.v.op === 'tuple' ? r.v.args[i] : T.app('proj' + i, r.v)); });
        return [s];
      });
      case 'if': {
        const [t, f] = this.branch2(n.c, st, cx);
        const rt = t.flatMap(s => this.exec(n.a, s, cx, out));
        const rf = n.b ? f.flatMap(s => this.exec(n.b, s, cx, out)) : f;
        return rt.concat(rf);
      }
      case 'return': {
        if (!n.e) { out.ret.push({ st, v: n.named ? n.named(this, st, cx) : T.UNDEF }); return []; }
        for (const r of this.ev(n.e, st, cx)) out.ret.push(r);
        return [];
      }
      case 'break': out.brk.push({ st, label: n.label }); return [];
      case 'continue': out.cont.push({ st, label: n.label }); return [];
      case 'throw': { if (n.e) { for (const r of this.ev(n.e, st, cx)) this.raise(r.st, r.v, n); } else this.raise(st, T.UNDEF, n); return []; }
      case 'loop': return this.execLoop(n, st, cx, out);
      case 'try': return this.execTry(n, st, cx, out);
      case 'raws': return n.fn(this, st, cx, out, n);
      case 'nop': return [st];
      default: throw new Error('exec: ' + n.k);
    }
  }
  execTry(n, st, cx, out) {
    const save = this.thr; const caught = []; this.thr = caught;
    const o1 = new Out();
    (this.tries = this.tries || []).push(save);
    let norm = this.exec(n.body, st, cx, o1);
    this.tries.pop(); this.thr = save;
    if (n.handler) {
      const prev = this.thr; const inner = []; this.thr = n.final ? inner : prev;
      const groups = this.joinRes(caught.map(c => ({ st: c.st, v: c.v || T.UNDEF })));
      for (const c of groups) {
        let s = c.st;
        if (this.markCatch) s = s.addTrace({ key: 'caught|' + n.src, kind: 'caught', v: c.v });
        const run = (s2) => norm.push(...this.exec(n.handler, s2, cx, o1));
        if (n.param) run(s.setVar(cx.frame.id + ':' + n.param, c.v)); else run(s);
      }
      this.thr = prev;
      caught.length = 0; caught.push(...inner);
    }
    if (n.final) {
      const fin = (s, o) => this.exec(n.final, s, cx, o);
      norm = this.join(norm).flatMap(s => fin(s, out));
      for (const r of o1.ret) for (const s of fin(r.st, out)) out.ret.push({ st: s, v: r.v });
      for (const r of o1.brk) for (const s of fin(r.st, out)) out.brk.push({ st: s, label: r.label });
      for (const r of o1.cont) for (const s of fin(r.st, out)) out.cont.push({ st: s, label: r.label });
      for (const c of this.joinRes(caught.map(c => ({ st: c.st, v: c.v || T.UNDEF })))) for (const s of fin(c.st, out)) this.raise(s, c.v, n);
    } else {
      out.ret.push(...o1.ret); out.brk.push(...o1.brk); out.cont.push(...o1.cont);
      if (!n.handler) for (const c of caught) this.raise(c.st, c.v, c.node);
    }
    return this.join(norm);
  }
  // ---- joins
  sig(st) { let k = st.store.uid + '/' + st.trace.uid + '/'; for (const [a, b] of st.env) k += a + '=' + b.id + ';'; for (const q of Object.keys(st.x).sort()) k += q + '~' + (st.x[q] && st.x[q].id !== undefined ? st.x[q].id : st.x[q]) + ';'; return k; }
  join(list) {
    if (list.length < 2) return list;
    const g = new Map();
    for (const s of list) { const k = this.sig(s); (g.get(k) || g.set(k, []).get(k)).push(s); }
    let out = [...g.values()].map(l => S.mergeStates(l)).filter(Boolean);
    if (out.length > this.cap) this.notes.push(`path partition ${out.length} at ${(this.stack[this.stack.length - 1] || {}).name}`);
    return out;
  }
  mergeRes(rs) { return rs.length > 1 ? this.joinRes(rs) : rs; }
  joinRes(rs) {
    if (rs.length < 2) return rs;
    const g = new Map();
    for (const r of rs) { const k = r.v.id + '#' + this.sig(r.st); (g.get(k) || g.set(k, []).get(k)).push(r); }
    return [...g.values()].map(l => { const s = S.mergeStates(l.map(x => x.st)); return s && { st: s, v: l[0].v }; }).filter(Boolean);
  }
  // ---- inlined call.  fn: {name, params:[{d}], body, named?:(I,st,cx)=>v, scope?}
  inline(fn, args, st, cx, extra) {
    const depth = this.stack.filter(f => f.key === fn.key).length;
    if (depth >= (fn.maxDepth || 2) || this.stack.length > 40) return [{ st, v: this.sym({ src: fn.key }, 'rec_' + fn.name) }];
    this.fnsSeen.add(fn.key || fn.name);
    const frame = { id: ++this.frames, parent: fn.scope || null, fn };
    const ncx = Object.assign({}, cx, extra || {}, { frame, fn });
    let s = st;
    s = s.clone(); s.env = new Map(st.env);
    fn.params.forEach((p, i) => s.env.set(frame.id + ':' + p.d, args[i] || T.UNDEF));
    if (fn.locals) fn.locals(this, s, frame.id, ncx);
    this.stack.push({ name: fn.name, key: fn.key, fn, callSrc: (extra && extra.callSrc) || fn.name });
    const out = new Out();
    const norm = fn.exec ? fn.exec(this, s, ncx, out) : this.exec(fn.body, s, ncx, out);
    for (const x of norm) out.ret.push({ st: x, v: fn.named ? fn.named(this, x, ncx) : T.UNDEF });
    this.stack.pop();
    const pre = frame.id + ':';
    const rs = fn.keepFrame ? out.ret : out.ret.map(r => ({ st: r.st.delFrame(pre), v: r.v }));
    return this.joinRes(rs);
  }
  // ---- loops.  n: {init?, cond?, update?, body, pre?}  (pre(I,st,cx,out) -> states : binds the iteration variable)
  execLoop(n, st0, cx, out) {
    const starts = n.init ? this.exec(n.init, st0, cx, out) : [st0];
    return this.join(starts).flatMap(s => {
      if (n.cond && !n.doWhile && !n.pre) { // a loop that is never entered
        const rec = this.rec, thr = this.thr; this.rec = false; this.thr = null;
        const [t, f] = this.branch2(n.cond, s, cx);
        this.rec = rec; this.thr = thr; this._bn = null;
        if (!t.length && f.length) return this.branch2(n.cond, s, cx)[1];
      }
      if (n.cond && !n.doWhile && !n.pre && !this.opts.noUnroll) { // constant trip count: unroll
        const rec = this.rec, thr = this.thr; this.rec = false; this.thr = null;
        const u = this.unroll(n, s, cx, { ret: [], brk: [], cont: [] });
        this.rec = rec; this.thr = thr; this._bn = null;
        if (u) return this.unroll(n, s, cx, out);
      }
      return this.loopFrom(n, s, cx, out);
    });
  }
  unroll(n, s0, cx, out) {
    let cur = [s0]; const res = [];
    for (let k = 0; k < 4; k++) {
      const next = [];
      for (const s of cur) {
        const c = this.ev(n.cond, s, cx);
        if (c.length !== 1 || !T.isBool(c[0].v)) return null;
        if (!c[0].v.val) { res.push(c[0].st); continue; }
        const it = this.iterate(n, s, cx);
        res.push(...it.brk, ...it.exits); out.ret.push(...it.ret); out.brk.push(...it.brkOuter); out.cont.push(...it.contOuter);
        if (this.thr) for (const t of it.thr) this.thr.push(t);
        next.push(...it.cont);
      }
      cur = this.join(next);
      if (!cur.length) return this.join(res);
    }
    return null;
  }
  // run one iteration from state s (cond assumed): returns {cont:[st], brk:[st], ret:[{st,v}], thr:[...]}
  iterate(n, s, cx) {
    const o = new Out(); const save = this.thr; const thr = []; this.thr = thr;
    let ss = [s], exits = [];
    if (n.cond && !n.doWhile) { const [t, f] = this.branch2(n.cond, s, cx); ss = t; exits = f; }
    ss = ss.flatMap(x => this.exec(n.body, x, cx, o));
    const own = l => !l.label || l.label === n.label;
    ss = ss.concat(o.cont.filter(own).map(c => c.st));
    if (n.update) ss = this.join(ss).flatMap(x => this.exec(n.update, x, cx, o));
    if (n.cond && n.doWhile) { const n2 = []; for (const x of this.join(ss)) { const [t, f] = this.branch2(n.cond, x, cx); n2.push(...t); exits.push(...f); } ss = n2; }
    this.thr = save;
    return { cont: this.join(ss), exits, brk: o.brk.filter(own).map(b => b.st), brkOuter: o.brk.filter(b => !own(b)), contOuter: o.cont.filter(b => !own(b)), ret: o.ret, thr };
  }
  loopFrom(n, st, cx, out) {
    const rec = this.rec; this.rec = false;
    const invVars = new Set(); const locs = new Map(); // loc -> 'fixed' | 'elems' | 'region'
    let phis, hst, loopId = ++this.loopCnt;
    const envKeys = new Set(st.env.keys());
    this.activeLoops.push(loopId);
    for (let round = 0; ; round++) {
      ({ phis, hst } = this.havocState(st, invVars, locs, n));
      const it = this.iterate(n, hst, cx);
      let grew = false;
      for (const e of it.cont) { // only states that flow around the back edge matter
        for (const k of envKeys) if (e.env.get(k) !== hst.env.get(k) && !invVars.has(k)) { invVars.add(k); grew = true; }
        for (let w = e.store; w.prev && w.depth > hst.store.depth; w = w.prev) {
          const l = this.regionOf(w, loopId);
          if (l && this.addLoc(locs, l.loc, l.kind)) grew = true;
        }
      }
      if (!grew || round > 10) break;
    }
    // counters that advance in lockstep with another counter
    const lock = [];
    if (phis.size > 1 && !n.doWhile) {
      const it = this.iterate(n, hst, cx);
      const steps = [...phis].filter(([p, m]) => m.kind !== 'region' && m.init && it.cont.length && it.cont.every(e => (m.kind === 'var' ? e.env.get(m.key) : S.read(e.store, m.loc)) === T.add(p, T.ONE)));
      const main = steps.find(([, m]) => m.kind === 'var');
      if (main) for (const [p, m] of steps) {
        if (m === main[1]) continue;
        const v = T.add(st.simp(m.init), T.sub(main[0], main[1].init));
        phis.delete(p); lock.push({ m, v });
        const h2 = hst.clone(); h2.env = new Map(hst.env);
        if (m.kind === 'var') h2.env.set(m.key, v); else h2.store = S.write(hst.store, m.loc, v);
        hst = h2;
      }
    }
    // counters that only go down never exceed their start
    for (const [p, m] of phis) {
      if (m.kind !== 'var' || !m.init || n.doWhile || !p.op) continue;
      const it = this.iterate(n, hst, cx);
      if (it.cont.length && it.cont.every(e => { const d = T.sub(e.env.get(m.key), p); return T.isNum(d) && d.val <= 0n; })) { const h2 = hst.assume(T.le(p, m.init)); if (h2.length) hst = h2[0]; }
    }
    this.rec = rec;
    // final pass with recording
    const mark = this.events.length;
    const info = { id: ++gloop, node: n, lock, phis, base: st, h: hst, fn: (this.stack[this.stack.length - 1] || {}).name };
    this.loopStack.push(info);
    const it = this.iterate(n, hst, cx);
    this.loopStack.pop();
    this.activeLoops.pop();
    info.it = it;
    if (this.rec) {
      this.loopStack.push(info);
      for (const x of it.cont) this.emit('iter', x, n, { info, how: 'cont' });
      for (const x of it.brk) this.emit('iter', x, n, { info, how: 'brk' });
      this.loopStack.pop();
    }
    this.silentRaise = true;
    for (const t of it.thr) this.raise(t.st, t.v, t.node);
    this.silentRaise = false;
    return this.summarise(n, st, hst, phis, it, info, cx, out, locs);
  }
  addLoc(locs, loc, kind) {
    for (const [o, k] of locs) {
      const r = S.relation(o, loc);
      if (r === 'same') { if (k === kind || k === 'region' || (k === 'elems' && kind === 'elems')) return false; locs.set(o, 'region'); return true; }
      if (r === 'above') {
        const step = S.decompose(loc).steps[S.decompose(o).steps.length];
        if (k !== 'elems' || step.op === 'idx') { if (k === 'fixed') { locs.set(o, 'region'); return true; } return false; }
      }
    }
    if (kind !== 'fixed') for (const [o] of [...locs]) if (S.relation(loc, o) === 'above') {
      const step = S.decompose(o).steps[S.decompose(loc).steps.length];
      if (kind === 'region' || step.op === 'idx') locs.delete(o);
    }
    locs.set(loc, kind);
    return true;
  }
  freshIn(x, loopId) { const a = this.born.get(x); return !!a && a.includes(loopId); }
  regionOf(w, loopId) {
    // widest loop-invariant prefix of the written location
    const d = S.decompose(w.loc);
    const variant = t => T.some(t, x => this.freshIn(x, loopId));
    if (variant(d.base)) return null; // object created inside the body
    let cur = d.base;
    for (const s of d.steps) {
      if (s.op === 'idx' && variant(s.args[1])) return { loc: cur, kind: 'elems' };
      cur = s.op === 'fld' ? T.fld(cur, s.val) : T.idx(cur, s.args[1]);
    }
    return { loc: cur, kind: w.kind === 'w' ? 'fixed' : w.kind === 'map' || w.elems ? 'elems' : 'region' };
  }
  // deterministic fresh names: program point + inlining path
  point(node, hint) { return `${hint}@${(node && node.src) || ''}~${this.stack.map(f => f.callSrc || f.name).join('>')}`; }
  fresh(kind, node, hint) {
    let t = T.mk(kind, [], this.point(node, hint));
    this.born.set(t, this.activeLoops.slice());
    return t;
  }
  alloc(node, hint) { return this.fresh('ref', node, hint); }
  sym(node, hint) { return this.fresh('sym', node, hint); }
  havocState(st, vars, locs, n) {
    const phis = new Map(); // phi term -> {kind, key/loc, init}
    const hst = st.clone(); hst.env = new Map(st.env);
    const mkPhi = h => { const p = T.freshSym('phi_' + h, { isPhi: true }); this.born.set(p, this.activeLoops.slice()); return p; };
    for (const k of vars) {
      const p = mkPhi(k.split(':')[1]);
      phis.set(p, { kind: 'var', key: k, init: st.env.get(k), phi: p });
      hst.env.set(k, p);
    }
    let store = st.store;
    for (const [l, kind] of locs) {
      const p = mkPhi('loc');
      if (kind === 'fixed') { phis.set(p, { kind: 'loc', loc: l, init: S.read(st.store, l), phi: p }); store = S.write(store, l, p); }
      else { phis.set(p, { kind: 'region', loc: l, phi: p, elems: kind === 'elems' }); store = S.havoc(store, l, p.id, kind === 'elems'); }
    }
    hst.store = store;
    return { phis, hst };
  }
  summarise(n, st, hst, phis, it, info, cx, out, locs) {
    // next values per alternative
    const baseItems = new Set(hst.items);
    const alts = it.cont.map(e => ({ st: e, items: e.items.filter(i => !baseItems.has(i)), next: p => { const m = phis.get(p); return m.kind === 'var' ? e.env.get(m.key) : m.kind === 'loc' ? S.read(e.store, m.loc) : null; } }));
    const P = [...phis.keys()];
    for (const p of P) { const m = phis.get(p); if (m.kind !== 'region') { m.nexts = [...new Set(alts.map(a => a.next(p)))]; m.alts = alts; } }
    // induction variable
    let ind = null;
    for (const p of P) { const m = phis.get(p); if (m.kind === 'var' && m.nexts && m.nexts.length === 1 && m.nexts[0] === T.add(p, T.ONE)) { m.step = 1; if (!ind) ind = m; } else if (m.nexts && m.nexts.length === 1 && m.nexts[0] === T.sub(p, T.ONE)) m.step = -1; }
    info.alts = alts; info.ind = ind;
    this.loops.push(info);
    for (const p of P) this.loopByPhi.set(p, info);
    // propagate outer control flow with exit facts
    const lower = s => { if (ind && ind.init) { const r = s.assume(T.le(ind.init, ind.phi)); return r; } return [s]; };
    for (const r of it.ret) for (const s of lower(r.st)) out.ret.push({ st: s, v: r.v });
    for (const b of it.brkOuter) for (const s of lower(b.st)) out.brk.push({ st: s, label: b.label });
    for (const b of it.contOuter) out.cont.push(b);
    const res = [];
    for (const b of it.brk) res.push(...lower(b).map(s => this.breakFacts(s, info)));
    // normal exit
    for (const e of it.exits) {
      let base = e;
      // upper bound from the exit condition
      let hi = null;
      if (ind && !n.doWhile) {
        for (const i of e.items) if (!baseItems.has(i) && i.k === 'lit') {
          if (i.t.op === 'le0') { const l = T.toLin(i.t.args[0]); if (l.m.get(ind.phi) === -1n) { const h = T.add(T.fromLin({ c: l.c, m: l.m }), ind.phi); if (!this.variantIn(h, phis)) hi = h; } }
          if (i.t.op === 'eq' && (i.t.args[0] === ind.phi || i.t.args[1] === ind.phi)) { const o = i.t.args[0] === ind.phi ? i.t.args[1] : i.t.args[0]; if (!this.variantIn(o, phis)) hi = o; }
        }
      }
      res.push(...this.exitStates(n, st, hst, base, phis, alts, info, ind, hi, it));
    }
    if (!n.cond && !it.brk.length && !it.exits.length) { /* infinite loop or return-only */ }
    return this.join(res);
  }
  variantIn(t, phis) { return T.some(t, x => phis.has(x)); }
  breakFacts(s, info) { return s; }
  exitStates(n, st, hst, e, phis, alts, info, ind, hi, it) {
    // flag-like loop-carried variables: every alternative either leaves it unchanged or sets it to a value
    // that does not depend on its own previous value
    const flags = [];
    for (const [p, m] of phis) {
      if (m.kind === 'region' || m === ind) continue;
      const bool = T.isBool(m.init || T.UNDEF);
      let ok = alts.length > 0;
      for (const a of alts) { const v = a.next(p); if (v === p) continue; if (bool && !T.isBool(v)) continue; if (v !== m.init && T.contains(v, p)) ok = false; }
      if (ok && alts.some(a => a.next(p) === p || a.next(p) === m.init || (bool && !T.isBool(a.next(p))))) flags.push(m);
    }
    const use = flags.slice(0, 3);
    // refine alternatives for boolean flags with symbolic next
    let cls = alts.map(a => ({ items: a.items, st: a.st, get: a.next }));
    for (const f of use) if (T.isBool(f.init)) {
      cls = cls.flatMap(a => {
        const v = a.get(f.phi);
        if (T.isBool(v) || v === f.phi) return [a];
        const mkc = want => a.st.assume(want ? v : T.not(v)).map(s => ({ st: s, items: s.items.filter(i => !hst.items.includes(i)), get: p => p === f.phi ? T.bool(want) : a.get(p) }));
        return mkc(true).concat(mkc(false));
      });
    }
    const res = [];
        for (let mask = 0; mask < (1 << use.length); mask++) {
      // unchanged flags keep init; all alternatives must keep them (given they hold init)
      const unch = use.filter((f, i) => !(mask & (1 << i))), chg = use.filter((f, i) => mask & (1 << i));
      let feas = [];
      for (const a of cls) {
        let keep = true, s = a.st; let items = a.items;
        // flags unchanged all the way: their phi equals init
        for (const f of unch) {
          const v = a.get(f.phi);
          if (!(v === f.phi || v === f.init)) { keep = false; break; }
          const ss = s.assume(T.eq(f.phi, f.init)); if (!ss.length) { keep = false; break; } s = ss[0];
        }
        if (keep) feas.push({ items: s.items.filter(i => !hst.items.includes(i)), get: a.get });
      }
      // changed flags need a witnessing alternative
      const wit = chg.map(f => {
        const w = [];
        for (const a of cls) {
          const v = a.get(f.phi);
          if (v === f.phi || v === f.init) continue;
          // consistent with unchanged flags
          let s = a.st, keep = true;
          for (const u of unch) { const uv = a.get(u.phi); if (!(uv === u.phi || uv === u.init)) { keep = false; break; } const ss = s.assume(T.eq(u.phi, u.init)); if (!ss.length) { keep = false; break; } s = ss[0]; }
          if (keep && T.isBool(f.init)) { const ss = s.assume(T.eq(f.phi, f.init)); if (!ss.length) keep = false; else s = ss[0]; }
          if (keep) w.push({ v, items: s.items.filter(i => !hst.items.includes(i)), st: s });
        }
        return w;
      });
      if (wit.some(w => !w.length)) continue;
      const zeroIter = mask === 0;
      // build exit state
      let s = e.clone();
      const env = new Map(e.env);
      let s2 = e;
      const fixes = [];
      for (const f of unch) fixes.push([f.phi, f.init]);
      // choose changed values: same constant across witnesses or per-witness split
      let combos = [[]];
      chg.forEach((f, ci) => {
        const byV = new Map(); for (const w of wit[ci]) (byV.get(w.v) || byV.set(w.v, []).get(w.v)).push(w);
        combos = combos.flatMap(c => [...byV].map(([v, ws]) => c.concat([{ f, v, ws }])));
      });
      for (const combo of combos) {
        let cur = S.withItems(e, e.items); // e: exit condition facts (over phis)
        if (!cur) continue;
        const ren = new Map(); // witness iteration renaming (phis -> fresh)
        let dead = false;
        const setPhi = (m, v) => {
          // the exit value of m is v : substitute in env/store
          const sub = new Map([[m.phi, v]]);
          const nx = cur.clone();
          nx.env = new Map(); for (const [k, t] of cur.env) nx.env.set(k, T.substMany(t, sub));
          if (m.kind === 'loc') nx.store = S.write(nx.store, m.loc, v);
          for (const l of info.lock) if (l.m.kind === 'loc' && T.contains(l.v, m.phi)) nx.store = S.write(nx.store, l.m.loc, T.substMany(l.v, sub));
          cur = nx;
          // facts mentioning phi at exit
          const ni = cur.items.map(i => i.k === 'lit' ? S.lit(T.substMany(i.t, sub)) : i);
          const w = S.withItems(cur, ni.filter(i => !(i.k === 'lit' && T.isBool(i.t) && i.t.val)));
          if (!w || ni.some(i => i.k === 'lit' && i.t.op === 'const' && i.t.val === false)) { dead = true; return; }
          cur = w;
        };
        for (const f of unch) { setPhi(f, f.init); if (dead) break; }
        if (dead) continue;
        for (const c of combo) {
          const map = new Map(); for (const p of phis.keys()) map.set(p, T.freshSym('w'));
          if (T.isBool(c.f.init)) map.set(c.f.phi, c.f.init);
          const v = T.substMany(c.v, map);
          setPhi(c.f, v); if (dead) break;
          const alts2 = c.ws.map(w => renameItems(w.items, map).filter(i => !(i.k === 'lit' && T.isBool(i.t) && i.t.val)));
          if (ind) { const wi = map.get(ind.phi); const bnd = [S.lit(T.le(ind.init, wi))].filter(i => !T.isBool(i.t)); for (const a of alts2) a.push(...bnd); }
          if (alts2.length === 1) { const w = S.withItems(cur, cur.items.concat(alts2[0])); if (!w) { dead = true; break; } cur = w; }
          else cur = cur.addItem(S.orItem(alts2));
        }
        if (dead) continue;
        if (this.unsigned) for (const m of phis.values()) if (m.kind !== 'region' && m !== ind && m.step === -1 && e.items.some(i => i.k === 'lit' && !hst.items.includes(i) && i.t.op === 'le0' && i.t.args[0] === m.phi)) { setPhi(m, T.ZERO); if (dead) break; }
        if (dead) continue;
        if (ind && hi && ind.step === 1) { setPhi(ind, T.isNum(ind.init) && ind.init.val === 0n ? hi : hi); if (dead) continue; }
        // quantified facts over all iterations
        if (ind && hi && ind.step === 1 && feas.length && mask === 0) {
          const q = { i: ind.phi, lo: ind.init, hi, alts: feas.map(a => a.items.filter(i => true)), phis: [...phis.values()].filter(m => m !== ind && m.kind !== 'region').map(m => ({ phi: m.phi, init: m.init, nexts: m.nexts })), loop: info };
          cur = cur.addItem(S.allItem(q));
        } else if (mask === 0 && !feas.length && alts.length) {
          // no iteration completes with flags unchanged: zero iterations
          if (ind && hi) { const z = cur.assume(T.le(hi, ind.init)); if (!z.length) continue; cur = z[0]; }
        }
        if (!alts.length && ind === null) { /* body never completes: zero iterations on normal exit */ }
        // element-wise array construction
        if (mask === 0) cur = this.mapWrites(cur, st, hst, phis, alts, ind, hi, it);
        if (mask === 0 && ind && hi && ind.step === 1 && alts.length && T.isNum(ind.init) && ind.init.val === 0n && this.front && this.front.comprehend) cur = this.front.comprehend(this, cur, { st, hst, phis, alts, ind, hi });
        if (alts.some(a => a.st.trace !== hst.trace)) cur = cur.addTrace({ key: 'loop' + n.src + '/' + info.id, kind: 'loop', info });
        res.push(cur);
      }
    }
    // body never flows back: normal exit means zero iterations -> phis none
    return res;
  }
  mapWrites(cur, st, hst, phis, alts, ind, hi, it) {
    if (!ind || !hi || !alts.length || !T.isNum(ind.init) || ind.init.val !== 0n) return cur;
    for (const m of phis.values()) {
      if (m.kind !== 'region') continue;
      let val = null, ok = true;
      for (const a of alts) {
        let found = null;
        for (let w = a.st.store; w.prev && w.depth > hst.store.depth; w = w.prev) {
          const r = S.relation(w.loc, m.loc);
          if (m.elems && w.loc.op === 'fld' && w.loc.args[0] === m.loc) continue;
          if (r === 'below' || r === 'maybelow') {
            const d = S.decompose(w.loc), b = S.decompose(m.loc);
            if (d.steps.length === b.steps.length + 1 && w.kind === 'w' && w.loc.op === 'idx' && w.loc.args[1] === ind.phi && !found) found = w.val; else ok = false;
          } else if (r !== 'disjoint') ok = false;
        }
        if (!found) ok = false; else if (val && val !== found) ok = false; else val = found;
      }
      if (ok && val) {
        const bad = T.some(val, x => phis.has(x) && x !== ind.phi);
        if (!bad) { const c = cur.clone(); c.store = S.mapWrite(cur.store, m.loc, ind.phi, val); cur = c; }
      }
    }
    return cur;
  }
}
function renameItems(items, map) {
  return items.map(i => {
    if (i.k === 'lit') return S.lit(T.substMany(i.t, map));
    if (i.k === 'or') return S.orItem(i.alts.map(a => renameItems(a, map)));
    if (i.k === 'all') return S.allItem(Object.assign({}, i, { hi: T.substMany(i.hi, map), lo: T.substMany(i.lo, map), alts: i.alts.map(a => renameItems(a, map)), id: undefined }));
    return i;
  });
}
module.exports = { Interp, Out, renameItems };
