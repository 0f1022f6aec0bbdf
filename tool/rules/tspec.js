'use strict';
// Vocabulary of the client's data structures and the generic "outcome table" obligation.
const L = require('./tlib');
const { T, S, Query, ts, P, F, cls, par, fieldOf } = L;
// ---- fields discovered by declared type, so that a rename is followed
function fieldByType(c, re) {
  for (const m of cls(c).members) {
    if (!ts.isPropertyDeclaration(m)) continue;
    const t = m.type ? m.type.getText() : P.ck.typeToString(P.ck.getTypeAtLocation(m));
    if (re.test(t.replace(/\s/g, ''))) return m.name.getText();
  }
  throw new Error(`${c}: no field of type ${re}`);
}
const lazy = f => { let v; return () => v === undefined ? (v = f()) : v; };
const FORKS = lazy(() => T.fld(T.root('ForkService'), fieldByType('ForkService', /^(Array<AgreementFork>|AgreementFork\[\])$/)));
const BLOCKQ = lazy(() => T.fld(T.root('QueueService'), fieldByType('QueueService', /SignedBlockStruct/)));
const CONFQ = lazy(() => T.fld(T.root('QueueService'), fieldByType('QueueService', /BlockConfirmation/)));
const len = a => T.fld(a, 'length');
const LEN = () => len(FORKS());
const FK = f => T.idx(FORKS(), f);
const AGR = f => T.fld(FK(f), 'agreements');
const AG = (f, h) => T.idx(AGR(f), h);
const CB = f => T.fld(FK(f), 'chainBlocks');
const lt = (a, b) => T.lt(a, b), le = (a, b) => T.le(a, b), not = T.not, eq = T.eq, ne = (a, b) => T.not(T.eq(a, b));
const hdr = L.hdr;
const fork = b => hdr(b, 'forkCnt'), height = b => hdr(b, 'transactionCnt'), author = b => hdr(b, 'participant');
// facts ----------------------------------------------------------------
const has = (f, h) => [lt(f, LEN()), lt(h, len(AGR(f))), ne(AG(f, h), T.UNDEF)];
const hasNot = (f, h) => [[le(LEN(), f)], [eq(FK(f), T.UNDEF)], [le(len(AGR(f)), h)], [eq(AG(f, h), T.UNDEF)]];
const hasFork = f => [lt(f, LEN()), ne(FK(f), T.UNDEF)];
const noFork = f => [[le(LEN(), f)], [eq(FK(f), T.UNDEF)]];
const same = (f, h, b) => eq(F(AG(f, h), 'block'), b);
let TYB; // the block type as written in the sources, normalised
const front0 = lazy(() => new L.TsFront({}));
const blkTy = lazy(() => L.val('EvmUtils', 'encodeBlock', [par('blk')]).args[0]);
const encBlk = b => L.val('EvmUtils', 'encodeBlock', [b]);
const decBlk = e => { const r = L.run('EvmUtils', 'decodeBlock', { args: [e] }); return S.snapshot(r.res[0].st.store, r.res[0].v); };
const keccak = x => T.app('keccak', x);
const recover = (b, sig) => T.app('recover', keccak(encBlk(b)), sig);
const sigs = (f, h) => F(AG(f, h), 'blockSignatures');
const signers = (f, h, b) => { const a = sigs(f, h); const v = T.sym('λ1'); return T.mk('maparr', [len(a), v, recover(b, T.idx(a, v))]); };
// ---- checks ------------------------------------------------------------
const holdsAll = (cx, l, st, x) => l.every(t => typeof t === 'function' ? t(cx, st, x) : cx.holds(t));
const anyOf = (cx, alts, st, x) => alts.some(a => typeof a === 'function' ? a(cx, st, x) : holdsAll(cx, Array.isArray(a) ? a : [a], st, x));
// universally quantified fact over an index range, from the loop summaries known on the path
let fresh = 0;
function forall(cx, hi, body) {
  const k = T.sym('∀' + (++fresh));
  const s = [S.lit(T.lt(k, hi)), S.lit(T.le(T.ZERO, k))];
  return inst(cx.with(s), [k], body(k), 2);
}
function inst(cx, ks, body, depth) {
  const add = [];
  for (const q of cx.alls) for (const k of ks) if (cx.holds(T.le(q.lo, k)) && cx.holds(T.lt(k, q.hi))) add.push(...L.instantiate(q, k));
  const q = new Query(cx.items.filter(i => i.k !== 'all').concat(add));
  return q.check(c => typeof body === 'function' ? body(c) : c.holds(body)) || (depth > 0 && add.some(i => i.k === 'all') && q.check(c => c.alls.length > 0 && inst(c, ks, body, depth - 1)));
}
const deep = x => x.op === 'ref' || x.op === 'obj';
// every result of r matches a row: the value it returns, under the row's condition, with the row's effects
function table(rep, key, r, o) {
  L.cover(rep, r);
  const w = L.where(r.decl);
  let res = [];
  for (const x of r.res) {
    if (!o.bool || T.isBool(x.v)) { res.push(x); continue; }
    for (const s of x.st.assume(x.v)) res.push({ st: s, v: T.TRUE });
    for (const s of x.st.assume(T.not(x.v))) res.push({ st: s, v: T.FALSE });
  }
  let n = 0; const hit = new Set();
  const tryRow = (row, cx, x) => {
    const v = x.thrown ? x.v : S.snapshot(x.st.store, x.v);
    if (row.ret !== undefined && !(typeof row.ret === 'function' ? row.ret(cx, x.st, x.v) : cx.eq(v, row.ret))) return false;
    if (row.when && !anyOf(cx, row.when, x.st, x)) return false;
    if (row.fx && !row.fx(cx, x.st, x)) return false;
    hit.add(row.n); return true;
  };
  let bad = null;
  for (const x of res.concat(r.thr)) { const l = given(x.st).filter(l => !(o.changes && o.changes(l))); if (l.length && !bad && !new Query(x.st).infeasible()) bad = l[0]; }
  if (!o.changesAny) rep.ob(`${key}:given${bad ? ':' + T.pp(bad).slice(0, 60) : ''}`, !bad, w, `${r.name} changes nothing of what it is given or looks up, beyond what the specification says`, bad ? `changes ${T.pp(bad).slice(0, 120)}` : '');
  for (const x of res) {
    const q = new Query(x.st);
    if (q.infeasible()) continue;
    n++;
    const ok = q.check(cx => o.rows.some(row => tryRow(row, cx, x)));
    rep.ob(`${key}:outcome${ok ? '' : ':' + label(x)}`, ok, w, o.rule || `each outcome of ${r.name} is one the specification allows, under its condition`, ok ? '' : `returns ${label(x)} when ${L.facts(x.st)}`);
  }
  for (const x of r.thr) {
    const env = x.v.op === 'sym' && x.v.val !== 'typeerr', typeerr = x.v.op === 'sym' && !env;
    if (o.thr === undefined && env) continue; // a failure of something it relies on
    const q = new Query(x.st);
    if (q.infeasible()) continue;
    const ok = !typeerr && q.check(cx => o.thr === undefined ? !!o.refuse && o.refuse(cx, x.st, x) : typeof o.thr === 'function' ? o.thr(cx, x.st, x) : o.thr.some(row => tryRow(row, cx, Object.assign({ thrown: true }, x))));
    rep.ob(`${key}:throw${ok ? '' : ':' + label(x)}`, ok, w, o.thrRule || (o.thr === undefined ? `${r.name} refuses only what the specification says, and never fails over something missing` : `each failure of ${r.name} leaves the state as specified`), ok ? '' : `throws ${label(x)} when ${L.facts(x.st)}`);
  }
  for (const row of o.rows) if (!row.optional) rep.ob(`${key}:reached:${row.n}`, hit.has(row.n), w, `the outcome "${row.n}" is produced by some path of ${r.name}`, '');
  return n;
}
// locations changed on a path that belong to a parameter, or to something another component returned
function given(st) {
  const out = [];
  for (let e = st.store; e && e.prev; e = e.prev) { if (!e.loc) continue; const b = S.decompose(e.loc).base; if (b.op === 'sym' && /^p:/.test(String(b.val)) || b.op === 'app' && /^[A-Z]\w*\.\w+$/.test(String(b.val))) out.push(e.loc); }
  return out;
}
const label = x => { const v = S.snapshot(x.st.store, x.v); return T.pp(v).slice(0, 60); };
// stored value at the end of a path
const rd = (st, l) => st.simp(S.read(st.store, l));
const unchanged = (st, base, locs) => locs.every(l => { for (let e = st.store; e && e.prev && e !== base.store; e = e.prev) { const rel = S.relation(e.loc, l); if (rel !== 'disjoint') return false; } return true; });
const roots = { forks: () => FORKS(), blockQ: () => BLOCKQ(), confQ: () => CONFQ(), sm: () => T.fld(L.SM, 'state') };
const trace = st => S.traceList(st.trace);
// flat list of the effects on a path, loops included
const effects = (st, kind, f) => trace(st).filter(e => e.kind === kind && (!f || f(e)));
// ---- effects on a path, matched as a multiset --------------------------
const isT = x => x && x.op !== undefined;
const argsOk = (cx, e, list, as) => as.length <= list.length && as.every((a, i) => a === undefined || (typeof a === 'function' ? a(cx, list[i], e) : list[i] !== undefined && cx.eq(list[i], a))) && list.slice(as.length).every(x => x === undefined || cx.eq(x, T.UNDEF));
const E = {
  call: (f, ...as) => (cx, e) => e.kind === 'call' && e.callee === f && argsOk(cx, e, e.args, as),
  hook: (n, ...as) => { const f = (cx, e) => e.kind === 'hook' && e.name === n && argsOk(cx, e, e.args, as); f.hook = n; return f; },
  chain: (m, ...as) => (cx, e) => e.kind === 'chain' && e.m === m && argsOk(cx, e, e.args, as),
  ext: (n, ...as) => (cx, e) => e.kind === 'ext' && e.name === n && argsOk(cx, e, e.args || [], as),
  sign: msg => (cx, e) => e.kind === 'sign' && cx.eq(e.msg, msg),
  send: (how, method, ...as) => (cx, e) => e.kind === 'send' && e.how === how && e.method === method && argsOk(cx, e, e.params, as),
  succ: tx => (cx, e) => e.kind === 'successCallback' && cx.eq(e.tx, tx),
  sched: (delay, inner) => (cx, e) => (e.kind === 'schedule' || e.kind === 'timer') && cx.eq(e.delay, delay) && inner(e.res, e),
  bg: inner => (cx, e) => e.kind === 'detached' && inner(e.res, e),
};
// exact multiset of effects; order: pairs [i, j] of patterns that must come in that order
const QUIET = new Set(['lock', 'unlock', 'caught']);
function bag(cx, st, pats, order) {
  const es = trace(st).filter(e => !QUIET.has(e.kind));
  if (es.length > pats.length) return false;
  const used = new Array(pats.length).fill(-1);
  // a hook the embedding application did not register is not called
  const unset = n => { for (const it of st.items) if (it.k === 'lit') for (const x of T.collect(it.t, y => y.op === 'fld' && y.val === n && y.args[0].op === 'fld' && y.args[0].val === 'p2pEventHooks')) if (cx.eq(x, T.UNDEF)) return true; return false; };
  const go = i => {
    if (i === es.length) return pats.every((p, k) => used[k] >= 0 || p.opt || p.hook && unset(p.hook)) && (order || []).every(([a, b]) => used[a] < 0 || used[b] < 0 || used[a] < used[b]);
    for (let k = 0; k < pats.length; k++) if (used[k] < 0 && (pats[k].opt || pats[k])(cx, es[i])) { used[k] = i; if (go(i + 1)) return true; used[k] = -1; }
    return false;
  };
  return go(0);
}
const opt = f => ({ opt: f });
// outcomes of code that runs later: every feasible result matches a row, every row is reached
function later(rows, o) {
  return (res, e) => {
    const hit = new Set();
    for (const x of res || []) {
      const q = new Query(x.st);
      if (q.infeasible()) continue;
      if (!q.check(cx => rows.some(r => { const ok = (!r.when || anyOf(cx, r.when, x.st, x)) && (!r.fx || r.fx(cx, x.st, x)); if (ok) hit.add(r); return ok; }))) { if (process.env.DBG) console.log('later: no row for', trace(x.st).map(t => t.kind + ':' + (t.callee || t.name || t.m || '')).join(' '), L.facts(x.st).slice(-300)); return false; }
    }
    return rows.every(r => r.optional || hit.has(r));
  };
}
const ver = (st, t) => { const n = (st.x && st.x.ver) || 0; return n ? T.app(t.val, ...t.args, T.sym('v' + n)) : t; };
const verN = (n, t) => n ? T.app(t.val, ...t.args, T.sym('v' + n)) : t;
// loops over a whole array: the loop entry on the trace covers 0..length
function wholeLoop(cx, e, length) { return e.kind === 'loop' && cx.alls.some(q => q.loop === e.info && cx.eq(q.lo, T.ZERO) && cx.eq(q.hi, length)); }
module.exports = { given, fieldByType, FORKS, BLOCKQ, CONFQ, len, LEN, FK, AGR, AG, CB, lt, le, not, eq, ne, hdr, fork, height, author, has, hasNot, hasFork, noFork, same, encBlk, decBlk, keccak, recover, sigs, signers, anyOf, holdsAll, forall, inst, table, label, rd, unchanged, roots, trace, effects, lazy, E, bag, opt, later, ver, verN, wholeLoop, isT };
