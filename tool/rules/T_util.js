'use strict';
// Shared machinery of the client: the lock, background and delayed work, retries, the clock, set helpers, the forwarding proxy.
const L = require('./tlib'), X = require('./tspec');
const { T, S, Query, F, par, run, ts, fieldOf, hasMod, K } = L;
const { lt, le, not, eq, ne, len, table, E, bag, trace, effects, rd } = X;
const U = T.UNDEF;
const groups = {};
const entry = r => ({ self: r.self || U, frame: { id: ++r.I.frames, parent: null, fn: { name: 'entry' } }, fn: { name: 'entry' }, stack: [], loopStack: [] });
const callv = (r, f, args, st) => { const save = r.I.thr; r.I.thr = []; const res = r.front.callFn(r.I, f, args, st, entry(r), 'entry'); const thr = r.I.thr; r.I.thr = save; return { res, thr }; };
const feasible = x => !new Query(x.st).infeasible();

// ---- mutual exclusion: one holder, first come first served
const fieldsOf = (c, test) => L.cls(c).members.filter(m => ts.isPropertyDeclaration(m) && test(L.P.ck.typeToString(L.P.ck.getTypeAtLocation(m)))).map(m => m.name.getText());
groups.mutex = rep => {
  const ls = fieldsOf('Mutex', t => t === 'boolean'), qs = fieldsOf('Mutex', t => /\[\]$/.test(t));
  const w0 = L.where(L.cls('Mutex'));
  rep.ob('mutex:fields', ls.length === 1 && qs.length === 1, w0, 'the lock keeps whether it is held and who waits', '');
  if (ls.length !== 1 || qs.length !== 1) return;
  const M = T.root('Mutex'), H = F(M, ls[0]), Q = F(M, qs[0]), n = len(Q);
  const front = { rawMutex: true, trace: true, tracePromise: true };
  const pending = v => v && v.op === 'sym' && /^promise@/.test(v.val);
  const resolved = (st, x) => pending(x.v) ? effects(st, 'resolve').filter(e => e.promise === x.v).length : 1, called = st => effects(st, 'callback');
  const cnt = (cx, st, k) => cx.eq(rd(st, T.fld(Q, 'length')), k);
  const at = (st, i) => st.simp(S.read(st.store, T.idx(Q, i)));
  // the waiting ones before index m stay as they are / only the entry at index n is added
  const only = (st, ok) => { for (let e = st.store; e && e.prev; e = e.prev) if (e.loc && S.relation(e.loc, Q) !== 'disjoint' && !ok.includes(e.loc) && S.decompose(e.loc).base === M && e.loc !== H) return false; return true; };
  const tail = st => { const v = S.snapshot(st.store, rd(st, Q)); return v.op === 'app' && (v.val === 'tail' || v.val === 'slice' && T.isNum(v.args[1]) && v.args[1].val === 1n && v.args.length === 2) && v.args[0] === Q; };
  { const r = run('Mutex', 'lock', { front });
    table(rep, 'mutex:lock', r, { rows: [
      { n: 'free', when: [[not(H)]], fx: (cx, st, x) => cx.holds(rd(st, H)) && resolved(st, x) === 1 && called(st).length === 0 && only(st, []) },
      { n: 'held', when: [[H]], fx: (cx, st, x) => { const v = at(st, n); return cx.holds(rd(st, H)) && resolved(st, x) === 0 && called(st).length === 0 && cnt(cx, st, T.add(n, T.ONE)) && only(st, [T.idx(Q, n), T.fld(Q, 'length')]) && wakes(r, v, st); } },
    ], thr: [], rule: 'taking the lock succeeds at once exactly if nobody holds it, and otherwise waits behind everybody who waits already' }); }
  { const r = run('Mutex', 'unlock', { front });
    table(rep, 'mutex:unlock', r, { rows: [
      { n: 'nobody', when: [[eq(n, T.ZERO)]], fx: (cx, st) => cx.holds(not(rd(st, H))) && called(st).length === 0 && cnt(cx, st, T.ZERO) },
      { n: 'next', when: [[lt(T.ZERO, n)]], fx: (cx, st) => { const c = called(st); return (cx.holds(rd(st, H)) || cx.eq(rd(st, H), H)) && c.length === 1 && cx.eq(c[0].f, T.idx(Q, T.ZERO)) && tail(st); } },
      { n: 'typed', optional: true, when: [[lt(T.ZERO, n), eq(T.idx(Q, T.ZERO), U)]] },
    ], thr: [], rule: 'releasing the lock hands it to the one who waits longest, and frees it only if nobody waits' }); }
};
// the waiting entry, when called, lets the waiter go on
function wakes(r, v, st) {
  if (v.op !== 'fn') return false;
  const s0 = st.clone(); s0.trace = S.TR0;
  const { res, thr } = callv(r, v, [], s0);
  return res.length > 0 && thr.filter(feasible).length === 0 && res.every(x => effects(x.st, 'resolve').length === 1);
}

// ---- work handed to the background never fails unhandled; delayed work runs once, after the delay
groups.background = rep => {
  { const r = run(null, 'runInBackground', { front: { rawSched: true, trace: true, tracePromise: true } }), p = r.args[0];
    table(rep, 'background', r, { rows: [{ n: 'handled', fx: (cx, st) => { const es = trace(st).filter(e => e.kind === 'handled'); return es.length >= 1 && es.some(e => cx.eq(e.p, p) && e.f && e.f.op === 'fn' && e.res.some(feasible) && e.bad.filter(feasible).length === 0) || trace(st).some(e => e.kind === 'await' && cx.eq(e.v, p)) && trace(st).every(e => e.kind !== 'dropped' || !e.bad.some(feasible)); } }], thr: [], rule: 'a failure of work in the background is always handled' }); }
};
groups.delayed = rep => {
  const r = run(null, 'scheduleTask', { front: { rawSched: true, trace: true, tracePromise: true, cbThrows: true } }), [f, d] = r.args;
  const fine = (cx, e) => e.kind === 'timer' && e.name !== 'setInterval' && cx.eq(e.delay, d) && (e.res || []).some(feasible) && (e.res || []).filter(feasible).every(x => {
    const es = trace(x.st).filter(t => !['caught', 'handled', 'await'].includes(t.kind)), q = new Query(x.st);
    return es.length === 1 && es[0].kind === 'callback' && q.check(c => c.eq(es[0].f, f));
  });
  table(rep, 'delayed', r, { rows: [{ n: 'later', fx: (cx, st) => { const es = trace(st); return es.length === 1 && fine(cx, es[0]); } }], thr: [], rule: 'delayed work runs once, after exactly the given delay' });
  rep.ob('delayed:failure', failuresCaught(r), L.where(r.decl), 'a failure of delayed work, immediate or later, is handled', '');
};
// the task may throw or reject: no outcome of the delayed function is a failure, and its promise is awaited or handled
function failuresCaught(r) {
  const t = r.events.find(e => e.kind === 'timer');
  if (!t) return false;
  const f = t.f || (t.raw && t.raw[0]); if (!f || f.op !== 'fn') return false;
  const s0 = t.st.clone(); s0.trace = S.TR0;
  const { res, thr } = callv(r, f, [], s0);
  if (thr.some(feasible)) return false;
  const v = T.app('callv', r.args[0]);
  const got = res.filter(feasible);
  // some outcome knows the result: there the promise has been waited for
  return got.some(x => effects(x.st, 'await').some(e => e.v === v) || effects(x.st, 'handled').some(e => e.p === v));
}

// ---- retrying: the first success is the result; at most maxRetries further attempts; the last failure is reported
groups.retry = rep => {
  const N = 3;
  for (let k = 0; k <= N; k++) {
    const fn = par('fn'), cfg = T.struct('', ['maxRetries', 'delayMs', 'useExponentialBackoff', 'backoffFactor', 'onRetry'], [T.num(BigInt(k)), U, U, U, U]);
    const r = run(null, 'retry', { front: { rawRetry: true, trace: true, cbThrows: true }, args: [fn, cfg] });
    const calls = st => effects(st, 'callback').filter(e => e.f === fn).length;
    const seen = new Set();
    table(rep, `retry:${k}`, r, { rows: [{ n: 'success', fx: (cx, st, x) => { const c = calls(st); seen.add(c); return c >= 1 && c <= k + 1; }, ret: (cx, st, v) => v.op === 'app' && v.val === 'callv' && v.args[0] === fn }],
      thr: (cx, st, x) => calls(st) === k + 1 && x.v && x.v.op === 'sym' && x.v.val === 'cberr', rule: 'an action is tried again until it succeeds, at most the given number of times', thrRule: 'only when every attempt failed, the failure is reported' });
    if (!k) { const c2 = par('config'), r2 = run(null, 'retry', { front: { rawRetry: true, trace: true, cbThrows: true }, args: [fn, c2] }); const ch = r2.res.concat(r2.thr).flatMap(x => X.given(x.st)); rep.ob('retry:given', !ch.length, L.where(r2.decl), 'retrying leaves the settings it is given as they are', ch.length ? `changes ${T.pp(ch[0])}` : ''); }
    rep.ob(`retry:${k}:all`, seen.size === k + 1, L.where(r.decl), 'every allowed attempt is made', `attempts ${[...seen].sort()}`);
    rep.ob(`retry:${k}:fails`, r.thr.some(feasible), L.where(r.decl), 'an action that keeps failing is reported as failed', '');
  }
};

// ---- how a component starts: with its flags down and nothing collected
const starts = (...classes) => rep => {
  for (const c of classes) {
    const front = new L.TsFront({ construct: true, rawMutex: true }); front.base = L.base();
    const I = front.interp({}); I.thr = [];
    const d = L.cls(c), ctor = d.members.find(x => ts.isConstructorDeclaration(x) && x.body), self = T.root(c);
    const args = ctor ? ctor.parameters.map(p => front.singleton(front.type(p)) || par(ts.isIdentifier(p.name) ? p.name.text : 'arg')) : [];
    const st = new S.State(); st.uns = true;
    const cx = { self, frame: { id: ++I.frames, parent: null, fn: { name: 'entry' } }, fn: { name: 'entry' }, stack: [], loopStack: [] };
    const rs = front.construct(I, d, self, args, st, cx, 'start').filter(x => !new Query(x.st).infeasible());
    const fs = []; for (let k = d; k; ) { for (const m of k.members) if (ts.isPropertyDeclaration(m) && !hasMod(m, K.StaticKeyword)) fs.push(m); const h = k.heritageClauses && k.heritageClauses.find(h => h.token === K.ExtendsKeyword); k = h && L.P.classes.get(h.types[0].expression.getText()); }
    let n = 0;
    for (const m of fs) {
      const t = m.type ? m.type.getText() : L.P.ck.typeToString(L.P.ck.getTypeAtLocation(m)), f = m.name.getText();
      const flag = /^(boolean|false|true)$/.test(t), list = /\[\]$|^(Array|Map|Set)</.test(t);
      if (!flag && !list || !front.changed().has(m)) continue; // a constant list is not a collection
      n++;
      const ok = rs.length > 0 && rs.every(x => { const v = x.st.simp(S.read(x.st.store, T.fld(self, f))); return flag ? v === T.FALSE || v === T.UNDEF || v === T.fld(self, f) : new Query(x.st).check(cx => v.op === 'ref' && (S.select(x.st.store, v, 'length', null) === T.ZERO || !/^arr/.test(String(v.val)))); });
      rep.ob(`start:${c}:${f}`, ok, L.where(m), `a new ${c} starts with nothing collected and no flag set`, '');
    }
    L.cover(rep, { I, front, decl: ctor || d, events: I.events, res: rs, thr: [] });
    rep.ob(`start:${c}:fields`, n > 0, L.where(d), `the initial state of ${c} is found`, '');
  }
};
groups.startLock = starts('Mutex');
groups.startConn = starts('HolepunchTransport', 'WebRTCTransport');
groups.startMgr = starts('StateManager');

// ---- the clock
groups.clock = rep => {
  const A = fieldsOf('Clock', t => t === 'number'), I = fieldsOf('Clock', t => t === 'Clock');
  const r = run('Clock', 'getTimeInSeconds', { front: { rawClock: true, trace: true } });
  rep.ob('clock:fields', A.length === 1, L.where(L.cls('Clock')), 'the clock keeps one adjustment', '');
  if (A.length !== 1) return;
  table(rep, 'clock:now', r, { rows: [{ n: 'adjusted', ret: (cx, st, v) => {
    const adj = [...T.collect(v, t => t.op === 'fld' && t.val === A[0])]; if (adj.length !== 1) return false;
    const whole = T.sub(v, adj[0]);
    return whole.op === 'app' && ['floor', 'trunc'].includes(whole.val) && whole.args[0].op === 'app' && whole.args[0].val === 'op/' && T.isNum(whole.args[0].args[1]) && whole.args[0].args[1].val === 1000n;
  } }], thr: undefined, refuse: cx => cx.terms(t => t.op === 'fld' && /^instance$/.test(String(t.val))).some(t => cx.eq(t, T.UNDEF)), rule: 'the time is the local time in whole seconds plus the adjustment' });
  { // one round of synchronisation: either nothing changes, or the clock is moved by the whole difference
    const s = run('Clock', 'syncClock', { front: { rawClock: true, trace: true, opaque: { 'Clock.getTimeInSeconds': 'pure' } } }), adj = F(T.root('Clock'), A[0]);
    const now = T.app('Clock.getTimeInSeconds');
    const moved = st => T.sub(rd(st, adj), adj);
    let n = 0;
    for (const e of s.events.filter(e => e.kind === 'write' && e.loc === adj)) {
      n++;
      const d = T.sub(e.v, rd(e.pre, adj)), lin = T.toLin(d);
      const parts = [...lin.m.entries()].map(([t, c]) => ({ t, c }));
      const stamp = parts.filter(p => p.c === 1n && T.pp(p.t).endsWith('.timestamp')), local = parts.filter(p => p.c === -1n);
      rep.ob('clock:adjust:' + n, parts.length === 2 && stamp.length === 1 && local.length === 1 && /getTimeInSeconds/.test(T.pp(local[0].t)), e.src, 'the clock is moved by exactly the difference between the chain and the local time', T.pp(d).slice(0, 120));
    }
    rep.floor('adjustments', n, 1, 'adjustments of the clock');
    const lits = st => st.items.flatMap(function g(i) { return i.k === 'lit' ? [i.t] : i.k === 'or' ? i.alts.flat().flatMap(g) : []; });
    const within = (cx, st) => {
      const bs = trace(st).filter(e => e.kind === 'ext' && e.name === 'getBlock'), ls = lits(st);
      const avgs = new Set(ls.flatMap(l => [...T.collect(l, t => t.op === 'app' && t.val === 'op/')]));
      return bs.length === 2 && [...avgs].some(q => {
        const lin = T.toLin(q.args[0]), p = [...lin.m.entries()], a = p.find(([, c]) => c === 1n), b = p.find(([, c]) => c === -1n);
        if (p.length !== 2 || !a || !b || a[0].val !== 'timestamp' || b[0].val !== 'timestamp' || lin.c !== 0n) return false;
        const latest = a[0].args[0], gap = T.sub(F(latest, 'number'), bs[1].args[0]);
        return bs[0].args[0] === T.str('latest') && bs[0].recv === F(T.root('Clock'), prov) && bs[1].recv === bs[0].recv && cx.eq(gap, q.args[1]) && (cx.holds(lt(T.ZERO, gap)) || cx.holds(ne(q, T.ZERO))) && cx.holds(le(T.sub(F(latest, 'timestamp'), now), T.add(q, q)));
      });
    };
    const prov = fieldsOf('Clock', t => /Provider$/.test(t))[0];
    // the block asked for besides the newest one exists: its number is not negative
    const exists = (cx, st) => { const bs = trace(st).filter(e => e.kind === 'ext' && e.name === 'getBlock'); return bs.slice(1).every(b => new Query(cx.items.concat(lits(st).concat(b.args).flatMap(l => [...T.collect(l, t => t.op === 'fld' && t.val === 'number')]).map(t => S.lit(le(T.ZERO, t))))).check(c => c.holds(le(T.ZERO, b.args[0])))); };
    table(rep, 'clock:sync', s, { rows: [
      { n: 'moved', fx: (cx, st) => moved(st) !== T.ZERO && exists(cx, st) },
      { n: 'kept', fx: (cx, st) => rd(st, adj) === adj && within(cx, st) && exists(cx, st) },
    ], thr: (cx, st) => rd(st, adj) === adj, rule: 'the clock stays as it is only if the chain is at most two average block times ahead' });
    const c = run('Clock', 'init', { front: { rawClock: true, trace: true, construct: true, opaque: { 'Clock.syncClock': 'eff' } } });
    table(rep, 'clock:init', c, { rows: [{ n: 'synchronised', fx: (cx, st) => {
      const cs = trace(st).filter(e => e.kind === 'call'); if (cs.length !== 1 || cs[0].callee !== 'Clock.syncClock') return false;
      const o = cs[0].self || cs[0].recv, g = (s2, n) => s2.simp(S.select(s2.store, o, n, null)), s2 = cs[0].st || st;
      return !!o && g(s2, A[0]) === T.ZERO && g(s2, prov) === c.args[0];
    } }], thr: undefined, rule: 'the clock starts unadjusted and is synchronised with the given chain before it is used' });
  }
};

// ---- set helpers
groups.sets = rep => {
  const a = par('a'), b = par('b'), A = T.app('set', a), B = T.app('set', b);
  const front = { trace: true, traceSets: true };
  { const r = run(null, 'isSubset', { args: [A, B], front });
    const sub = T.app('subset', A, B), none = eq(T.app('size', T.app('setdiff', A, B)), T.ZERO), none2 = eq(F(T.app('setdiff', A, B), 'size'), T.ZERO);
    table(rep, 'sets:subset', r, { bool: true, rows: [
      { n: 'no', ret: T.FALSE, fx: (cx, st) => X.anyOf(cx, [[]], st) && ([sub, none, none2].some(t => cx.holds(not(t))) || missing(r, st, A, B)) },
      { n: 'yes', ret: T.TRUE, fx: (cx, st) => [sub, none, none2].some(t => cx.holds(t)) || wholeOf(r, cx, A, B) },
    ], thr: [], rule: 'a set is a subset of another exactly if no element is missing there' }); }
  { const r = run(null, 'difference', { args: [A, B], front });
    const y = T.sym('someElement');
    table(rep, 'sets:difference', r, { rows: [
      { n: 'difference', ret: (cx, st, v) => {
        const es = trace(st), mut = es.filter(e => /^set(add|del)$/.test(e.kind) || e.kind === 'loop');
        if (mut.length === 0 || v.op === 'app' && v !== A && onlyBuilds(st)) { const h = r.front.setHas(st, v, y), ha = r.front.setHas(st, A, y), hb = r.front.setHas(st, B, y); return equivalent(st, h, T.and(ha, not(hb))); }
        if (cx.holds(eq(T.app('size', v), T.ZERO)) && mut.every(e => e.kind === 'setdel' || e.kind === 'loop')) return v === A || (v.op === 'app' && v.val === 'set');
        if (mut.length !== 1 || mut[0].kind !== 'loop') return false;
        return eachSet(cx, mut[0], B, (c, es2, x) => es2.length === 1 && es2[0].kind === 'setdel' && es2[0].set === v && c.eq(es2[0].v, x)) && v === A
          || eachSet(cx, mut[0], A, (c, es2, x, st2) => es2.length === 1 ? es2[0].kind === 'setadd' && es2[0].set === v && c.eq(es2[0].v, x) && c.holds(not(r.front.setHas(st2, B, x))) : es2.length === 0 && c.holds(r.front.setHas(st2, B, x)));
      } },
    ], thr: [], rule: 'the difference keeps exactly the elements that are not in the other set' }); }
  const y = T.sym('someElement');
  for (const [fn, arr] of [['fromArray', a], ['stringSetFromArray', a]]) {
    const r = run(null, fn, { args: [arr], front });
    table(rep, 'sets:' + fn, r, { rows: [{ n: 'same', ret: (cx, st, v) => equivalent(st, r.front.setHas(st, v, y), r.front.setHas(st, A, y)) && onlyBuilds(st) }], thr: [], rule: 'the set of an array has exactly its elements' });
  }
  { const r = run(null, 'excludeFromArray', { args: [a, B], front });
    const bv = T.binder(), want = T.app('filter', a, bv, not(r.front.setHas(r.res[0] ? r.res[0].st : new (S.State || Object)(), B, T.idx(a, bv))));
    table(rep, 'sets:exclude', r, { rows: [{ n: 'rest', ret: (cx, st, v) => cx.eq(S.snapshot(st.store, v), want) }], thr: [], rule: 'exactly the excluded elements are left out, in order' }); }
};
// the only thing done is to add to sets made here
const onlyBuilds = st => trace(st).every(e => e.kind === 'loop' && e.info.alts.every(al => al.st && trace(al.st).every(t => t.kind === 'setadd' && t.set.op === 'ref')));
const equivalent = (st, p, q) => st.assume(p).every(s => new Query(s).infeasible() || new Query(s).check(c => c.holds(q))) && st.assume(not(p)).every(s => new Query(s).infeasible() || new Query(s).check(c => c.holds(not(q))));
const members = X0 => [T.app('elems', X0), X0.args[0], X0];
// the loop covers the whole set, and every round does `f`
function eachSet(cx, e, set, f) {
  const ms = members(set);
  const q = cx.alls.find(q => q.loop === e.info && cx.eq(q.lo, T.ZERO) && ms.some(m => cx.eq(q.hi, len(m))));
  if (!q) return false;
  return e.info.alts.every(al => { const c = new Query(al.items); if (c.infeasible()) return true; return c.check(x => al.st && ms.some(m => f(x, trace(al.st).filter(t => /^set(add|del)$/.test(t.kind)), T.idx(m, q.i), al.st))); });
}
// on this path some element of A is known not to be in B
function missing(r, st, A, B) {
  const q = new Query(st);
  return q.check(cx => members(A).some(m => [...new Set(T.pp ? collectIdx(st, m) : [])].some(x => cx.holds(not(r.front.setHas(st, B, x))))));
}
const collectIdx = (st, m) => { const out = []; for (const l of st.items.filter(x => x.k === 'lit').map(x => x.t)) out.push(...T.collect(l, t => t.op === 'idx' && t.args[0] === m)); return out; };
// every element of A is known to be in B: a loop over the whole of A whose rounds all establish it
function wholeOf(r, cx, A, B) {
  return members(A).some(m => cx.alls.some(q => cx.eq(q.lo, T.ZERO) && cx.eq(q.hi, len(m)) && q.loop && q.loop.alts.length && q.loop.alts.every(al => { const c = new Query(al.items); return c.infeasible() || c.check(x => al.st && al.kind !== 'brk' && x.holds(r.front.setHas(al.st, B, T.idx(m, q.i)))); })))
    || cx.alls.length === 0 && cx.holds(eq(len(A.args[0]), T.ZERO));
}
// ---- the forwarding proxy only forwards
groups.proxy = rep => {
  const r = run('DebugProxy', 'createProxy', { front: { rawProxy: true, trace: true }, args: [par('original')] }), w = L.where(r.decl);
  const made = r.events.filter(e => e.kind === 'new' && e.cls === 'Proxy');
  rep.ob('proxy:made', made.length === 1 && made[0].raw[0] === par('original') && r.res.length === 1, w, 'one proxy is made around the given object', '');
  if (made.length !== 1 || r.res.length !== 1) return;
  const h = made[0].raw[1], st = r.res[0].st;
  const get = st.simp(S.select(st.store, h, 'get', null)), target = par('target'), prop = par('prop'), recv = par('receiver');
  const traps = h.op === 'ref' ? L.P && ['set', 'apply', 'has', 'deleteProperty'].filter(n => { const v = st.simp(S.select(st.store, h, n, null)); return v.op === 'fn'; }) : [];
  rep.ob('proxy:traps', traps.length === 0, w, 'only reading of properties is intercepted', traps.join());
  if (get.op !== 'fn') return;
  const { res, thr } = callv(r, get, [target, prop, recv], st);
  rep.ob('proxy:throw', thr.filter(feasible).length === 0, w, 'reading a property never fails because of the proxy', '');
  let seenF = 0, ok = res.length > 0;
  for (const x of res) {
    if (!feasible(x)) continue;
    const isVal = x.v.op === 'app' && x.v.val === 'Reflect.get' && x.v.args[0] === target && x.v.args[1] === prop || x.v.op === 'idx' && x.v.args[0] === target && x.v.args[1] === prop;
    if (isVal) continue;
    if (x.v.op !== 'fn') { ok = false; continue; }
    seenF++;
    const c = callv(r, x.v, [par('x1'), par('x2')], x.st.clone());
    ok = ok && c.res.filter(feasible).length > 0 && c.res.filter(feasible).every(y => {
      const es = effects(y.st, 'callback');
      if (es.length !== 1) return false;
      const f = es[0].f, as = es[0].args.length === 1 && es[0].args[0].op === 'arr' ? es[0].args[0].args : es[0].args;
      const isF = f.op === 'app' && f.val === 'Reflect.get' && f.args[0] === target && f.args[1] === prop || f.op === 'idx' && f.args[0] === target && f.args[1] === prop;
      return isF && as.length === 2 && as[0] === par('x1') && as[1] === par('x2') && y.v.op === 'app' && y.v.val === 'callv' && y.v.args[0] === f;
    });
  }
  rep.ob('proxy:forward', ok, w, 'a property is passed through, and a method call is forwarded with its arguments and result', '');
};
module.exports = { groups, callv, entry, feasible, fieldsOf };
