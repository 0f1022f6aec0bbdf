'use strict';
// Dispute proofs: what may slash, time out, un-time-out or add a participant.
const L = require('./clib'); const { T, S, Query, F, dec, blk, hdr, keccak, ST, now, SENDER, rd, memberOf, notMember } = L;

// candidate proof elements mentioned by the facts: terms P with a known P.proofType
function proofsOf(cx, kind) {
  const k = T.num(L.enumVal('ProofType', kind));
  return cx.terms(t => t.op === 'fld' && t.val === 'proofType').filter(t => cx.eq(t, k)).map(t => t.args[0]);
}
function disp(st, D) {
  const r = n => rd(st, T.fld(D, n));
  return { D, channelId: r('channelId'), forkCnt: r('forkCnt'), folded: r('foldedTransactionCnt'), participants: [r('participants'), S.load(st.store, T.fld(D, 'participants')), T.fld(D, 'participants')], timedout: r('timedoutParticipant'), timeoutDisputer: r('timeoutDisputer'), posted: r('postedStateDisputer'), creation: r('creationTimestamp'), slashed: T.fld(D, 'slashedParticipants'), votes: T.fld(D, 'virtualVotingBlocks'), st };
}
const all = (cx, ts, miss) => { let ok = true; for (const [n, t] of ts) { const h = t.hold ? t.hold(cx) : cx.holds(t); if (!h) { ok = false; if (miss) miss.add(n); } } return ok; };
let wn = 0;
const member = (x, arrs) => ({ hold: cx => memberOf(cx, x, arrs), wit: () => { const k = T.sym('wit' + ++wn), a = arrs[0]; return { k, ts: [T.le(T.ZERO, k), T.lt(k, T.fld(a, 'length')), T.eq(T.idx(a, k), x)] }; } });
const nonMember = (x, arrs, loc, st) => ({ hold: cx => arrs.some(a => notInArr(cx, a, x)), none: { arrs, x } });
// for all j in [0, |a|): a[j] != x, for an array value a
function notInArr(cx, a, x) {
  return cx.alls.some(q => cx.eq(q.lo, T.ZERO) && cx.eq(q.hi, T.fld(a, 'length')) && q.alts.every(al => cx.with(al).holds(T.ne(T.idx(a, q.i), x))));
}
const tsignedBy = (arrs, d, s) => ({ hold: cx => arrs.some(p => cx.holds(T.mkApp('tsigned', [p, d, s]))), as: [[T.mkApp('tsigned', [arrs[0], d, s])]] });
// assume a template in a query: list of contexts (one per alternative)
function assume(items, cand, opts) {
  let cur = [items]; const ks = [], nons = [];
  for (const [, t] of cand) {
    if (t.wit) { const w = t.wit(); ks.push(w.k); cur = cur.map(c => c.concat(w.ts.flatMap(L.lits))); } else if (t.as) cur = cur.flatMap(c => t.as.map(a => c.concat(a.flatMap(L.lits)))); else if (t.none) nons.push(t.none); else cur = cur.map(c => c.concat(L.lits(t)));
  }
  cur = cur.map(c => { const cx = new L.Ctx(c, { unsigned: true }); return c.concat(c.filter(i => i.k === 'all').flatMap(q => ks.filter(k => cx.holds(T.le(q.lo, k)) && cx.holds(T.lt(k, q.hi))).flatMap(k => L.instantiate(q, k)))); });
  if (nons.length) cur = cur.map(c => { // an element equal to a non-member cannot exist
    const cx = new L.Ctx(c, { unsigned: true }); let extra = [];
    for (const n of nons) for (const u of cx.terms(t => t.op === 'idx')) if (n.arrs.some(a => cx.canon(u.args[0]) === cx.canon(a))) extra = extra.concat(L.lits(T.ne(u, n.x)));
    return c.concat(extra);
  });
  return cur.map(c => new Query(c));
}
const inChan = (n, b, d) => [[n + ' belongs to the disputed channel', T.eq(hdr(b, 'channelId'), d.channelId)], [n + ' belongs to the disputed fork', T.eq(hdr(b, 'forkCnt'), d.forkCnt)]];
// ground templates: each returns a list of [name, condition] for one candidate payload
const templates = {
  DoubleSign: (cx, d, P, v) => {
    const pl = dec('DoubleSignProof', F(P, 'encodedProof')); const arr = F(pl, 'doubleSigns');
    const els = cx.terms(t => t.op === 'idx' && cx.canon(t.args[0]) === cx.canon(arr));
    return els.map(e => {
      const e1 = F(e, 'block1', 'encodedBlock'), e2 = F(e, 'block2', 'encodedBlock'), b1 = blk(e1), b2 = blk(e2);
      return [...inChan('first block', b1, d), ...inChan('second block', b2, d),
        ['both blocks have the same transaction count', T.eq(hdr(b1, 'transactionCnt'), hdr(b2, 'transactionCnt'))],
        ['the two blocks differ', T.ne(e1, e2)],
        ['slashed party signed the first block', T.eq(T.signer(e1, F(e, 'block1', 'signature')), v)],
        ['slashed party signed the second block', T.eq(T.signer(e2, F(e, 'block2', 'signature')), v)],
        ['slashed party is a dispute participant', member(v, d.participants)]];
    });
  },
  IncorrectData: (cx, d, P, v) => {
    const pl = dec('IncorrectDataProof', F(P, 'encodedProof'));
    const e1 = F(pl, 'block1', 'encodedBlock'), e2 = F(pl, 'block2', 'encodedBlock'), b1 = blk(e1), b2 = blk(e2), s = F(pl, 'encodedState');
    const gen = ST.enc(d.channelId, d.forkCnt);
    const prevG = ST.gts(d.channelId, d.forkCnt), prevB = hdr(b1, 'timestamp'), tsx = hdr(b2, 'timestamp');
    const chain = T.app('chainLatest', hdr(b2, 'channelId'), hdr(b2, 'forkCnt'), hdr(b2, 'transactionCnt')), p2p = ST.time('p2pTime');
    const ok = T.app('transOk', s, F(b2, 'transaction')), wrong = T.ne(F(b2, 'stateHash'), keccak(T.app('trans', s, F(b2, 'transaction'))));
    const bad = prev => ({ as: [[T.lt(tsx, prev)], [T.lt(T.add(prev, p2p), tsx), T.lt(T.add(chain, p2p), tsx)], [T.not(ok)], [ok, wrong]], hold: cx => cx.holds(T.lt(tsx, prev)) || (cx.holds(T.lt(T.add(prev, p2p), tsx)) && cx.holds(T.lt(T.add(chain, p2p), tsx))) ||
      cx.holds(T.not(ok)) || (cx.holds(ok) && cx.holds(wrong)) });
    const common = [['slashed party is the author of the incorrect block', T.eq(hdr(b2, 'participant'), v)], ['the incorrect block is signed by the slashed party', T.eq(T.signer(e2, F(pl, 'block2', 'signature')), v)],
      ['slashed party is a dispute participant', member(v, d.participants)], ...inChan('the incorrect block', b2, d)];
    return [
      [...common, ['the pre-state is the genesis state of the fork', T.eq(s, gen)], ['the block builds on genesis', T.eq(F(b2, 'previousStateHash'), keccak(s))], ['the block is the first of the fork', T.eq(hdr(b2, 'transactionCnt'), T.ZERO)], ['(the unused preceding block is a copy)', { hold: () => true, as: [[T.eq(F(pl, 'block1'), F(pl, 'block2'))]] }], ['the block has a bad timestamp or does not execute to its state hash', bad(prevG)]],
      [...common, ...inChan('the preceding block', b1, d), ['the pre-state is the one the preceding block commits to', T.eq(F(b1, 'stateHash'), keccak(s))], ['the block builds on the preceding block', T.eq(F(b2, 'previousStateHash'), F(b1, 'stateHash'))],
        ['the two blocks are consecutive', T.eq(T.add(hdr(b1, 'transactionCnt'), T.ONE), hdr(b2, 'transactionCnt'))],
        ['the preceding block is signed by its author', T.eq(T.signer(e1, F(pl, 'block1', 'signature')), hdr(b1, 'participant'))], ['the block has a bad timestamp or does not execute to its state hash', bad(prevB)]],
    ];
  },
  NewerState: (cx, d, P, v) => {
    const pl = dec('NewerStateProof', F(P, 'encodedProof')); const e = F(pl, 'encodedBlock'), b = blk(e);
    const len = rd(d.st, T.fld(d.votes, 'length'));
    const last = rd(d.st, T.fld(T.idx(d.votes, T.sub(len, T.ONE)), 'encodedBlock'));
    return [[...inChan('the newer block', b, d), ['slashed party posted the disputed state', T.eq(d.posted, v)], ['slashed party confirmed the newer block', T.eq(T.signer(e, F(pl, 'confirmationSignature')), v)],
      ['the block is strictly newer than the posted state', { hold: cx => cx.holds(T.eq(len, T.ZERO)) || cx.holds(T.lt(hdr(blk(last), 'transactionCnt'), hdr(b, 'transactionCnt'))), as: [[T.eq(len, T.ZERO)], [T.lt(T.ZERO, len), T.lt(hdr(blk(last), 'transactionCnt'), hdr(b, 'transactionCnt'))]] }]]];
  },
  FoldRechallenge: (cx, d, P, v) => {
    const pl = dec('FoldRechallengeProof', F(P, 'encodedProof')); const e = F(pl, 'encodedBlock'), b = blk(e);
    return [[...inChan('the block', b, d), ['the block is at the timed-out transaction', T.eq(hdr(b, 'transactionCnt'), d.folded)],
      ['the block is signed by every dispute participant', tsignedBy(d.participants, e, F(pl, 'signatures'))],
      ['slashed party raised the timeout', T.eq(d.timeoutDisputer, v)]]];
  },
  BlockTooFarInFuture: (cx, d, P, v) => {
    const pl = dec('BlockTooFarInFutureProof', F(P, 'encodedProof')); const e = F(pl, 'block1', 'encodedBlock'), b = blk(e);
    return [[...inChan('the block', b, d), ['slashed party is the author of the block', T.eq(hdr(b, 'participant'), v)], ['slashed party signed the block', T.eq(T.signer(e, F(pl, 'block1', 'signature')), v)],
      ['slashed party is a dispute participant', member(v, d.participants)], ['the block is dated in the future', T.lt(now, hdr(b, 'timestamp'))]]];
  },
};
// the party a valid proof incriminates, and what else a valid proof presupposes
const party = {
  DoubleSign: (d, P, e) => T.signer(F(e, 'block1', 'encodedBlock'), F(e, 'block1', 'signature')),
  IncorrectData: (d, P) => hdr(blk(F(dec('IncorrectDataProof', F(P, 'encodedProof')), 'block2', 'encodedBlock')), 'participant'),
  NewerState: d => d.posted,
  FoldRechallenge: d => d.timeoutDisputer,
  BlockTooFarInFuture: (d, P) => hdr(blk(F(dec('BlockTooFarInFutureProof', F(P, 'encodedProof')), 'block1', 'encodedBlock')), 'participant'),
};
const timedoutActive = d => T.ne(d.timedout, T.ZERO);
// does some candidate of `kind` justify v ? collects the best explanation of failure
function justified(cx, kind, d, v, miss, extra) {
  const ps = proofsOf(cx, kind); let best = null;
  for (const P of ps) for (const cand of templates[kind](cx, d, P, v)) {
    const m = new Set(); if (all(cx, extra ? cand.concat(extra) : cand, m)) return true;
    if (!best || m.size < best.size) best = m;
  }
  if (best && miss) { if (!miss.best || best.size < miss.best.size) miss.best = best; }
  return false;
}
const KINDS = Object.keys(templates);
function kindOf(q) { // proof kind an event happens under, when unique
  for (const k of KINDS.concat(['JoinChannel', 'FoldPriorBlock', 'LeaveChannelForce'])) if (q.check(cx => proofsOf(cx, k).length > 0)) return k;
  return null;
}
function slashPushes(rep, fn) {
  const out = [];
  for (const c of L.managers()) for (const name of ['createDispute', 'challengeDispute']) {
    const a = L.entry(c, name, { raise: true }); L.cover(rep, a);
    for (const e of a.events) {
      if (e.kind !== 'push') continue;
      const w = L.dispField(e.loc);
      if (w && w.field === 'slashedParticipants' && !w.rest.length) out.push({ c, name, e, w });
    }
  }
  return out;
}
// any other write under slashedParticipants in any entry of any manager
function otherWrites(rep, field) {
  const out = [];
  for (const c of L.managers()) for (const a of allEntries(c)) {
    L.cover(rep, a);
    for (const e of a.events) {
      if (!['push', 'write', 'pop'].includes(e.kind)) continue;
      const w = L.dispField(e.loc);
      if (w && (w.field === field)) out.push({ c, name: a.name, e, w, a });
    }
  }
  return out;
}
function allEntries(c) { return L.prog().entries(c).filter(f => !['view', 'pure'].includes(f.stateMutability)).map(f => L.entry(c, f.name, { raise: true })); }
// ---- a proof of this kind slashes only a provably guilty party
function slashRule(kind) {
  return rep => {
    let n = 0;
    for (const { c, name, e, w } of slashPushes(rep)) {
      const q = new Query(e.pre); if (q.infeasible()) continue;
      const k = kindOf(q); if (k !== kind) continue;
      n++;
      const d = disp(e.pre, w.D); const miss = {};
      const ok = q.check(cx => justified(cx, kind, d, e.v, miss));
      rep.ob(`${c.name}.${name}:${kind}:slash`, ok, L.at(e), `a ${kind} proof slashes only a provably guilty participant`, ok ? '' : 'not established on every path: ' + [...(miss.best || ['(no proof payload found)'])].join('; '));
    }
    rep.floor(kind + '-slash', n, L.managers().length, `reachable slash by a ${kind} proof`);
  };
}
// a valid proof of this kind is not rejected, and it has its effect
function acceptRule(kind) {
  return rep => {
    let n = 0, m = 0;
    for (const c of L.managers()) for (const name of ['createDispute', 'challengeDispute']) {
      const a = L.entry(c, name, { raise: true }); L.cover(rep, a);
      for (const e of a.events) {
        const isRaise = e.kind === 'raise' && e.loopStack.length;
        const isIter = e.kind === 'iter' && e.how === 'cont';
        if (!isRaise && !isIter) continue;
        const q = new Query(e.st);
        const pt = T.num(L.enumVal('ProofType', kind));
        const Ps = proofsOf(q.ctx, kind);
        if (!Ps.length) continue;
        const inner = e.loopStack[e.loopStack.length - 1];
        if (kind !== 'DoubleSign' && isIter && !(inner.ind && Ps.some(P => T.contains(P, inner.ind.phi)))) continue;
        if (isRaise && !e.loopStack.some(l => l.ind && Ps.some(P => T.contains(P, l.ind.phi)))) continue;
        for (const P of Ps) {
          const D = dispOf(c, q.ctx, e); if (!D) continue;
          const st = isRaise ? e.st : withStore(e.st, inner.h.store);
          const d = disp(st, D);
          if (kind === 'DoubleSign') {
            const arr = F(dec('DoubleSignProof', F(P, 'encodedProof')), 'doubleSigns');
            const els = q.ctx.terms(t => t.op === 'idx' && q.ctx.canon(t.args[0]) === q.ctx.canon(arr));
            for (const el of els) { if (isIter && !(inner.ind && T.contains(el, inner.ind.phi) && !Ps.some(P => T.contains(P, inner.ind.phi)))) continue; one(P, d, D, party.DoubleSign(d, P, el)); }
          } else one(P, d, D, party[kind](d, P));
        }
        function one(P, d, D, v) {
          const cands = templates[kind](q.ctx, d, P, v);
          cands.forEach((cand, ci) => {
            const extra = kind === 'FoldRechallenge' ? [['', timedoutActive(d)]] : [];
            const qs = assume(q.ctx.items, cand.concat(extra));
            if (isRaise) { n++; rep.ob(`${c.name}.${name}:${kind}:accept`, qs.every(x => x.infeasible()), L.at(e), `a valid ${kind} proof is not rejected`, 'a valid proof reaches this revert'); return; }
            m++;
            const sl = d.slashed, l0 = S.read(inner.h.store, T.fld(sl, 'length'));
            const has = cx => {
              const len = rd(e.st, T.fld(sl, 'length'));
              if (cx.eq(len, T.add(l0, T.ONE)) && cx.eq(rd(e.st, T.idx(sl, l0)), v)) return true;
              return cx.terms(t => { const u = t.op === 'at' ? t.args[0] : t; return u.op === 'idx' && u.args[0] === sl; }).some(t => cx.eq(t, v));
            };
            rep.ob(`${c.name}.${name}:${kind}:effect`, qs.every(x => x.check(has)), L.at(e), `after a valid ${kind} proof the guilty party is slashed`, 'a valid proof leaves the guilty party unslashed on this path');
          });
        }
      }
    }
    for (const c of L.managers()) for (const name of ['createDispute', 'challengeDispute']) coverage(rep, L.entry(c, name, { raise: true }), `${c.name}.${name}:${kind}`, kind);
    rep.floor(kind + '-effect', m, L.managers().length, `iterations that process a ${kind} proof`);
  };
}
// every submitted proof (and every element of a double-sign proof) is looked at
function rangeOk(info, len) {
  if (!info.ind || info.ind.init !== T.ZERO || info.it.brk.length) return false;
  return info.it.exits.every(s => new Query(s).given(T.le(T.ZERO, info.ind.phi)).holds(T.le(T.sub(len, info.ind.phi), T.ZERO)));
}
function coverage(rep, a, k, kind) {
  let n = 0, m = 0;
  for (const info of a.I.loops) {
    if (!info.ind || !info.it) continue;
    const over = f => { const out = new Map(); for (const al of info.alts) { const cx = new Query(al.st).ctx; for (const t of cx.terms(t => t.op === 'idx' && t.args[1] === info.ind.phi)) if (f(t, cx)) out.set(t.args[0], t); } return [...out.keys()]; };
    const arrs = over((t, cx) => cx.terms(u => u.op === 'fld' && u.val === 'proofType' && u.args[0] === t).length);
    if (arrs.length) { n++; rep.ob(k + ':every-proof', arrs.every(x => rangeOk(info, T.fld(x, 'length'))), L.prog().loc(info.node.src), 'every submitted proof is examined', ''); }
    if (kind !== 'DoubleSign') continue;
    const els = over((t, cx) => proofsOf(cx, kind).some(P => cx.canon(t.args[0]) === cx.canon(F(dec('DoubleSignProof', F(P, 'encodedProof')), 'doubleSigns'))));
    if (els.length) { m++; rep.ob(k + ':every-element', els.every(x => rangeOk(info, T.fld(x, 'length'))), L.prog().loc(info.node.src), 'every element of a double-sign proof is examined', ''); }
  }
  rep.floor(k + '-loops', n, 1, 'loops over the submitted proofs');
  if (kind === 'DoubleSign') rep.floor(k + '-elements', m, 1, 'loops over the elements of a double-sign proof');
}
const withStore = (st, store) => st.withStore(store);
function dispOf(c, cx, e) { // the dispute record the entry works on
  const w = []; for (const t of cx.terms(t => t.op === 'idx' && t.args[0] === T.root(L.role('disputes')))) w.push(t);
  return w.length === 1 ? w[0] : T.idx(T.root(L.role('disputes')), L.par('channelId'));
}
// every slash in every entry is of a known kind
function slashKinds(rep) {
  const ok = new Set(KINDS);
  for (const { c, name, e, w } of slashPushes(rep)) {
    const q = new Query(e.pre); if (q.infeasible()) continue;
    const k = kindOf(q);
    rep.ob(`${c.name}.${name}:slash-kind`, k && ok.has(k), L.at(e), 'a participant is slashed only under a fraud proof', k || 'no proof type established on this path');
  }
}
module.exports = { member, nonMember, tsignedBy, assume, acceptRule, notInArr, party, templates, proofsOf, disp, all, inChan, justified, kindOf, slashPushes, otherWrites, allEntries, slashRule, slashKinds, KINDS };
