'use strict';
// C06: the posted state of a dispute is finalized and latest.  C17, C26: the two lemmas the other rules rely on.
const L = require('./clib'); const { T, S, Query, Ctx, F, dec, blk, hdr, keccak, ST, now, rd, memberOf } = L;
const C = require('./C_proofs'), H = require('./C_chan'); const { tsignedBy } = C; const { emits, D0, partsOf, trusted, fullRange } = H;
const opRead = (st, loc) => rd(st, loc);
// what a loop-carried value stands for in the current iteration: its start value in iteration 0, f(i-1) afterwards
function unroll(I, cx, i) { // facts about predecessor-valued loop variables, by case on i
  const first = [], later = [];
  const info = I.loopByPhi.get(i); if (!info) return null;
  for (const [p, m] of info.phis) {
    if (p === i || m.kind !== 'var') continue;
    first.push(T.eq(p, m.init));
    const ns = new Set(info.alts.map(a => a.next(p)));
    if (ns.size === 1) { const n = [...ns][0]; if (!T.contains(n, p) && ![...info.phis.keys()].some(x => x !== i && T.contains(n, x))) later.push(T.eq(p, T.subst(n, i, T.sub(i, T.ONE)))); }
  }
  return { first, later };
}
// facts for every element of [0,len): cond(cx, i, isFirst) -> bool, case split on first / later
function forVotes(I, cx, len, cond) {
  if (cx.eq(len, T.ZERO)) return true;
  if (T.isNum(len)) { for (let k = 0n; k < len.val; k++) if (!cond(cx, T.num(k), k === 0n)) return false; return true; }
  return cx.alls.some(q => cx.eq(q.lo, T.ZERO) && cx.eq(q.hi, len) && q.alts.every(a => {
    const u = unroll(I, cx, q.i);
    const c1 = cx.with(a);
    const split = (facts, isFirst) => allCases(c1, facts, c2 => cond(c2, q.i, isFirst));
    return split([T.eq(q.i, T.ZERO)].concat(u ? u.first : []), true) && split([T.le(T.ONE, q.i)].concat(u ? u.later : []), false);
  }));
}
// evaluate f in every case left open by the disjunctions of a context
function allCases(cx, facts, f) {
  const c = cx.with(facts.flatMap(L.lits));
  return new Query({ items: c.items }).check(f);
}
let oc = 0; const om = new WeakMap(); const oid = o => { const x = o.k === 'lit' ? o.t : o; if (!om.has(x)) om.set(x, ++oc); return om.get(x); };
function C06(rep) {
  const seen = new Set(), failed = new Set();
  let n = 0, m = 0;
  for (const c of L.managers()) for (const name of ['createDispute', 'challengeDispute']) {
    const a = L.entry(c, name, { raise: true }); L.cover(rep, a); const k = `${c.name}.${name}`;

    const ch = a.args[0], f = a.args[1]; const [fin, enc, V] = name === 'createDispute' ? [a.args[2], a.args[3], a.args[4]] : [a.args[5], a.args[6], a.args[4]];
    const len = F(V, 'length'), D = D0(ch), gen = ST.enc(ch, f);
    const parts = name === 'createDispute' ? [partsOf(ch, f)] : [F(D, 'participants')];
    for (const e of emits(a, 'DisputeUpdated')) {
      n++; if (new Query(e.st).infeasible()) continue;
      const w = L.at(e);
      // facts about the voting blocks, the states and the participants suffice; a stored record carries its own key as channel (C04)
      const vt = [V, fin, enc], rel = t => vt.some(v => T.contains(t, v));
      const about = i => i.k === 'lit' || (i.k === 'all' ? rel(i.hi) || rel(i.lo) : i.alts.some(al => al.some(x => x.k === 'lit' ? rel(x.t) : about(x))) && i.alts.every(al => al.length <= 6));
      const sig = e.st.items.filter(about), sk = k + sig.map(oid).join(','); if (seen.has(sk)) continue; seen.add(sk);
      const key = T.eq(F(D, 'channelId'), ch), q0 = new Query({ items: sig }).given(key), qa = new Query(e.st).given(key);
      const q = { check: f => q0.check(f) || (!failed.has(k) && qa.check(f)) || (failed.add(k), false) };
      const el = x => F(T.idx(V, x), 'encodedBlock'), B = x => blk(el(x));
      const each = (nm, f) => rep.ob(`${k}:${nm}`, q.check(cx => forVotes(a.I, cx, len, f)), w, nm, 'not established for every voting block on every path');
      each('every voting block belongs to the channel', (cx, i) => cx.eq(hdr(B(i), 'channelId'), ch));
      each('every voting block belongs to the fork', (cx, i) => cx.eq(hdr(B(i), 'forkCnt'), f));
      each('every voting block is signed by its author', (cx, i) => {
        const p = hdr(B(i), 'participant');
        return cx.terms(t => t.op === 'app' && t.val === 'recover').some(t => cx.eq(t, p) && t.args[1].op === 'idx' && cx.eq(t.args[1].args[0], F(T.idx(V, i), 'signatures')) && cx.eq(t, T.signer(el(i), t.args[1])));
      });
      each('every author is a participant', (cx, i) => memberOf(cx, hdr(B(i), 'participant'), parts));
      each('voting blocks are linked', (cx, i, first) => first || cx.eq(F(B(i), 'previousStateHash'), F(B(T.sub(i, T.ONE)), 'stateHash')));
      each('the first voting block starts from the finalized state', (cx, i, first) => !first || (!cx.eq(fin, gen) && cx.eq(F(B(i), 'stateHash'), keccak(fin))) || (cx.eq(fin, gen) && cx.eq(F(B(i), 'previousStateHash'), keccak(fin))));
      each('the last voting block leads to the latest state', (cx, i) => cx.holds(T.ne(i, T.sub(len, T.ONE))) || cx.holds(T.not(T.eq(T.sub(len, i), T.ONE))) || cx.eq(F(B(i), 'stateHash'), keccak(enc)));
      rep.ob(`${k}:empty`, q.check(cx => cx.holds(T.ne(len, T.ZERO)) || cx.eq(fin, enc)), w, 'without voting blocks the finalized state is the latest', '');
      rep.ob(`${k}:threshold`, q.check(cx => cx.eq(fin, gen) || cx.terms(t => a.I.loopByPhi.has(t)).some(t => parts.some(p => cx.eq(F(p, 'length'), t)) && counted(rep, k, a, cx, t, V, parts, w))), w, 'the finalized state is genesis or every participant signed a voting block', '');
    }
    rep.floor(k, n, 1, 'reachable dispute records'); m++;
  }
  rep.floor('entries', m, 2, 'dispute entries');
}
// phi counts distinct members of `parts` that signed a voting block
const done = new Map();
function counted(rep, k, a, cx, phi, V, parts, w) {
  const key = k + T.pp(phi); if (done.has(key)) return done.get(key);
  const info = a.I.loopByPhi.get(phi), m = info.phis.get(phi);
  let ok = m.kind === 'var' && m.init === T.ZERO; if (ok) ok = step(info, phi, 0);
  done.set(key, ok);
  return ok;
  function step(info, phi, d) {
    if (d > 4) return false;
    return info.alts.every(al => {
      const n = al.next(phi), q = new Query(al.st);
      if (q.infeasible()) return true;
      if (q.eq(n, phi)) return !d || noIncrementJustified(q, al, info, phi);
      if (q.eq(n, T.add(phi, T.ONE))) return q.check(cx => {
        const sigs = cx.terms(t => t.op === 'app' && t.val === 'recover');
        return sigs.some(s => {
          const sg = s.args[1]; if (!sg || sg.op !== 'idx' || sg.args[0].op !== 'fld' || sg.args[0].val !== 'signatures') return false;
          const vb = sg.args[0].args[0]; if (vb.op !== 'idx' || !cx.eq(vb.args[0], V)) return false;
          if (!cx.eq(s, T.signer(F(vb, 'encodedBlock'), sg))) return false;
          if (!memberOf(cx, s, parts)) return false;
          // recorded at position phi and absent from the positions before it
          return seenSets(al, info).some(arr => cx.eq(rd(al.st, T.idx(arr, phi)), s) && onlyAt(al, info, arr, phi, cx) && cx.alls.some(qq => cx.eq(qq.lo, T.ZERO) && cx.eq(qq.hi, phi) && qq.alts.every(x => cx.with(x).holds(T.ne(rd(info.h, T.idx(arr, qq.i)), s)))));
        });
      });
      const inner = a.I.loopByPhi.get(n); if (!inner) return false;
      return inner.phis.get(n).kind === 'var' && q.eq(inner.phis.get(n).init, phi) && step(inner, n, d + 1);
    });
  }
  function noIncrementJustified(q, al, info, phi) { // the signer is no member, or already counted
    return q.check(cx => cx.terms(t => t.op === 'app' && t.val === 'recover').some(s =>
      parts.some(p => cx.alls.some(qq => cx.eq(qq.lo, T.ZERO) && cx.eq(qq.hi, F(p, 'length')) && qq.alts.every(x => cx.with(x).holds(T.ne(T.idx(p, qq.i), s))))) ||
      seenSets(al, info).some(arr => cx.terms(t => { const u = t.op === 'at' ? t.args[0] : t; return u.op === 'idx' && u.args[0] === arr; }).some(t => cx.eq(t, s) && cx.holds(T.lt((t.op === 'at' ? t.args[0] : t).args[1], phi))))));
  }
}
// arrays written in the iterations of a loop
function seenSets(al, info) {
  const out = new Set();
  for (const [, m] of info.phis) if (m.kind === 'region' && m.loc) out.add(m.loc); else if (m.kind === 'region' && m.region) out.add(m.region);
  return [...out];
}
function onlyAt(al, info, arr, phi, cx) {
  for (const w of H.storeChain(al.st, info.h.store)) { const d = S.decompose(w.loc); if (d.base === arr) { if (w.kind !== 'w') return false; const ix = d.steps[0] && d.steps[0].op === 'idx' ? d.steps[0].args[1] : null; if (!ix || !cx.eq(ix, phi)) return false; } }
  return true;
}

// ---- lemmas: the real code of two functions the other rules use by contract
const lemma = (name) => {
  const fds = []; for (const c of L.prog().contracts.values()) for (const fd of c.nodes) if (fd.nodeType === 'FunctionDefinition' && fd.name === name && fd.body) fds.push({ c, fd });
  const fr = L.front({ noLemma: true });
  return fds.map(({ c, fd }) => Object.assign(fr.analyse(c, fd, { raiseEvents: true }), { c, fd }));
};
const loopsOf = I => I.loops.values ? [...I.loops.values()] : I.loops;
function C17(rep) {
  const as = lemma('verifyThresholdSigned'); rep.floor('fn', as.length, 1, 'threshold verification function');
  for (const a of as) {
    L.cover(rep, a); const w = L.prog().loc(a.fd.src), k = a.fd.name; const [A, data, sigs] = a.args; const n = F(A, 'length');
    // counting variables: every increment claims a still unclaimed slot whose address signed
    const good = new Map();
    const slotWrites = (al, info) => { const out = []; for (const x of H.storeChain(al.st, info.h.store)) { const d = S.decompose(x.loc); out.push({ base: d.base, ix: d.steps[0] && d.steps[0].op === 'idx' ? d.steps[0].args[1] : null, w: x }); } return out; };
    const step = (info, phi, d, region) => d < 4 && info.alts.every(al => {
      const q = new Query(al.st), nx = al.next(phi); if (q.infeasible()) return true;
      const ws = slotWrites(al, info);
      if (ws.some(x => x.w.kind === 'w' && region.loc === x.base && x.w.val !== region.v)) return false;
      if (q.eq(nx, phi)) return true;
      if (q.eq(nx, T.add(phi, T.ONE))) return ws.some(x => x.base === region.loc && x.w.kind === 'w' && x.ix && x.w.val === region.v && q.check(cx =>
        cx.holds(T.lt(x.ix, n)) && cx.holds(T.ne(rd(info.h, T.idx(region.loc, x.ix)), region.v)) && cx.terms(t => t.op === 'idx' && cx.eq(t.args[0], sigs)).some(s => cx.eq(T.signer(data, s), T.idx(A, x.ix)))));
      const inner = a.I.loopByPhi.get(nx); return !!inner && inner.phis.get(nx).kind === 'var' && q.eq(inner.phis.get(nx).init, phi) && step(inner, nx, d + 1, region);
    });
    for (const info of loopsOf(a.I)) for (const [p, m] of info.phis) {
      if (m.kind !== 'var' || m.init !== T.ZERO || p === (info.ind && info.ind.phi)) continue;
      for (const [, rm] of info.phis) if (rm.kind === 'region') for (const v of [T.ZERO, T.ONE, T.TRUE, T.FALSE]) if (!good.has(p) && step(info, p, 0, { loc: rm.loc, v }) && info.alts.some(al => al.next(p) !== p)) good.set(p, { info, loc: rm.loc, v });
    }
    let t = 0, f = 0;
    for (const r of a.rs) {
      const q = new Query(r.st); if (q.infeasible()) continue;
      const res = r.v.op === 'tuple' ? r.v.args[0] : r.v;
      if (!q.holds(T.not(res))) { t++; rep.ob(`${k}:sound`, q.check(cx => cx.holds(T.not(res)) || cx.eq(n, T.ZERO) || [...good.keys()].some(p => cx.eq(p, n))), w, 'verification succeeds only if every listed address is matched by its own signature over the data', 'no counting argument reaches this exit'); }
      if (!q.holds(res)) { f++; rep.ob(`${k}:complete`, q.check(cx => cx.holds(res) || cx.holds(T.lt(F(sigs, 'length'), n)) || [...good.keys()].some(p => cx.holds(T.ne(p, n)))), w, 'verification fails only if some address is missing', 'fails for another reason'); }
    }
    rep.floor(k + ':t', t, 1, 'successful exits'); rep.floor(k + ':f', f, 1, 'failing exits');
    for (const e of a.events) if (e.kind === 'raise' && !new Query(e.st).infeasible()) rep.ob(`${k}:no-revert`, e.kind !== 'raise', L.at(e), 'signatures never revert the verification of other signatures', '');
    // a listed signer whose slot is unclaimed is always counted, every signature is looked at, and all slots start unclaimed
    for (const [p, g] of good) {
      rep.ob(`${k}:all-signatures`, g.info.it.brk.length === 0 && a.rs.every(() => true) && fullRange(null, g.info, F(sigs, 'length')), w, 'every signature is considered', '');
      for (const al of g.info.alts) {
        const q = new Query(al.st); if (q.infeasible() || !q.eq(al.next(p), p)) continue;
        rep.ob(`${k}:counts`, q.check(cx => cx.alls.some(x => cx.eq(x.lo, T.ZERO) && cx.eq(x.hi, n) && x.alts.every(y => new Query(cx.with(y).items).check(c2 => c2.holds(T.ne(T.signer(data, T.idx(sigs, g.info.ind.phi)), T.idx(A, x.i))) || c2.eq(rd(g.info.h, T.idx(g.loc, x.i)), g.v) || c2.holds(T.ne(rd(g.info.h, T.idx(g.loc, x.i)), g.v === T.ZERO ? T.ONE : g.v === T.ONE ? T.ZERO : T.not(g.v))))))), w, 'a signature of a listed, not yet matched address is counted', '');
      }
    }
    rep.floor(k + ':count', good.size, 1, 'counting loops');
  }
  const as2 = lemma('retriveSignerAddress'); rep.floor('fn2', as2.length, 1, 'signer recovery function');
  for (const a of as2) for (const r of a.rs) { L.cover(rep, a); rep.ob('signer', new Query(r.st).eq(r.v, T.signer(a.args[0], a.args[1])), L.prog().loc(a.fd.src), 'the recovered address is the signer of the signed-message hash of the data', T.pp(r.v)); }
}
function C26(rep) {
  const as = lemma('getChainLatestBlockTimestamp'); rep.floor('fn', as.length, 1, 'latest publication time function');
  for (const a of as) {
    L.cover(rep, a); const w = L.prog().loc(a.fd.src), k = a.fd.name; const [ch, f, max] = a.args;
    const keys = F(ST.posted(ch, f), 'keys'), len = F(keys, 'length'), key = i => T.idx(keys, i), tsOf = i => F(ST.posted(ch, f), 'map', F(key(i), 'transactionCnt'), F(key(i), 'participant'), 'timestamp');
    let good = null;
    for (const info of loopsOf(a.I)) for (const [p, m] of info.phis) {
      if (m.kind !== 'var' || m.init !== T.ZERO || !info.ind || p === info.ind.phi) continue;
      const i = info.ind.phi;
      const ok = info.alts.every(al => { const q = new Query(al.st), n = al.next(p); if (q.infeasible()) return true;
        return q.check(cx => cx.eq(n, p) ? cx.holds(T.le(tsOf(i), p)) || cx.holds(T.lt(max, F(key(i), 'transactionCnt'))) : cx.eq(n, tsOf(i)) && cx.holds(T.le(p, tsOf(i))) && cx.holds(T.le(F(key(i), 'transactionCnt'), max))); });
      if (ok && info.ind.init === T.ZERO && fullRange(null, info, len) && !(info.it.ret || []).length) good = { p, info };
    }
    rep.ob(`${k}:max`, good, w, 'the loop keeps the largest publication time of the blocks up to the given transaction, over all published blocks', 'no loop computes it');
    for (const r of a.rs) {
      const q = new Query(r.st); if (q.infeasible()) continue;
      const wits = q.ctx.terms(t => t.op === 'sym').concat([T.ZERO]);
      rep.ob(`${k}:result`, good && q.check(cx => cx.eq(r.v, good.p) || cx.eq(len, T.ZERO) && cx.eq(r.v, T.ZERO) || (cx.eq(r.v, T.ZERO) && cx.alls.some(x => x.i === good.info.ind.phi)) || wits.some(x => cx.holds(T.lt(x, len)) && cx.eq(r.v, tsOf(x)) && cx.holds(T.le(F(key(x), 'transactionCnt'), max)))), w, 'the result is that largest time, or zero when nothing was published', T.pp(r.v).slice(0, 200));
    }
  }
  // the other query over published blocks: presence is a non-zero publication time
  const bs = lemma('getBlockCallData'); rep.floor('fn2', bs.length, 1, 'published block query');
  for (const a of bs) for (const r of a.rs) {
    L.cover(rep, a); const q = new Query(r.st); if (q.infeasible()) continue;
    const slot = F(ST.posted(a.args[0], a.args[1]), 'map', a.args[2], a.args[3]);
    const found = r.v.op === 'tuple' ? r.v.args[0] : r.v;
    rep.ob('found', q.check(cx => cx.holds(found) ? cx.holds(T.ne(F(slot, 'timestamp'), T.ZERO)) : cx.holds(T.not(found)) ? cx.eq(F(slot, 'timestamp'), T.ZERO) : cx.canon(found) === cx.canon(T.not(T.eq(F(slot, 'timestamp'), T.ZERO)))), L.prog().loc(a.fd.src), 'a block counts as published exactly when it has a publication time', T.pp(found));
    if (r.v.op === 'tuple') rep.ob('data', q.check(cx => cx.eq(F(r.v.args[1], 'timestamp'), F(slot, 'timestamp')) && cx.eq(F(r.v.args[1], 'signedBlock', 'encodedBlock'), F(slot, 'signedBlock', 'encodedBlock')) && cx.eq(F(r.v.args[1], 'signedBlock', 'signature'), F(slot, 'signedBlock', 'signature'))), L.prog().loc(a.fd.src), 'the reported block is the published one', '');
  }
}
const r = (run, rule) => ({ run, level: 'proof', trusted, rule });
module.exports = { unroll, forVotes, allCases };
module.exports.rules = {
  C06: r(C06, 'at every reachable dispute record the listed facts hold for every voting block (induction over the loop that checks them); the signature threshold is decided by an invariant of the counting loops: every increment records a distinct participant that signed'),
  C17: r(C17, 'counting invariant of the verification loop: each increment flips one unclaimed slot whose address signed the data, slots are never unclaimed, success requires as many increments as addresses'),
  C26: r(C26, 'loop invariant: the carried value is the maximum publication time over all published keys not after the given transaction'),
};
