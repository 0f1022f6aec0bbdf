'use strict';
// C08-C13, C16, C07: effects of dispute proofs and timeouts.
const L = require('./clib'); const { T, S, Query, F, dec, blk, hdr, keccak, ST, now, SENDER, SELF, rd } = L;
const C = require('./C_proofs'); const { disp, all, inChan, proofsOf, member, nonMember, tsignedBy } = C;

const joinTemplate = (cx, d, P, v) => {
  const pl = dec('JoinChannelProof', F(P, 'encodedProof')), e = F(pl, 'encodedSignedJoinChannel'), sjc = dec('SignedJoinChannel', e), jc = dec('JoinChannel', F(sjc, 'encodedJoinChannel'));
  return [[['the recorded request is the one in the proof', T.eq(v, jc)], ['the signed request is signed by every dispute participant', tsignedBy(d.participants, e, F(pl, 'signatures'))],
    ['the request is signed by the joiner', T.eq(T.signer(F(sjc, 'encodedJoinChannel'), F(sjc, 'signature')), F(jc, 'participant'))],
    ['the request is for the disputed channel', T.eq(F(jc, 'channelId'), d.channelId)], ['the joiner is not a participant', nonMember(F(jc, 'participant'), d.participants)],
    ['the deadline has not passed', T.lt(now, F(jc, 'deadlineTimestamp'))],
    ['the submitter is the next to write', T.eq(SENDER, T.app('nextToWrite', rd(d.st, T.fld(d.D, 'encodedLatestCorrectState'))))]]];
};
C.templates.JoinChannel = joinTemplate;
const foldPriorTemplate = (cx, d, P, v) => {
  const pl = dec('FoldPriorBlockProof', F(P, 'encodedProof')), cnt = F(pl, 'transactionCnt');
  const votes = cx.terms(t => { const u = t.op === 'at' ? t.args[0] : t; return u.op === 'idx' && u.args[0] === d.votes; }).map(t => t.op === 'at' ? t.args[0] : t);
  const mem = cx.terms(t => t.op === 'idx'); // voting blocks as given in memory
  const cands = [...new Set(votes.map(i => i.args[1]).concat(mem.map(i => i.args[1])))];
  return cands.map(i => {
    const b = blk(rd(d.st, T.fld(T.idx(d.votes, i), 'encodedBlock')));
    const cd = F(ST.posted(d.channelId, d.forkCnt), 'map', cnt, hdr(b, 'participant'), 'timestamp');
    return [['a voting block of the dispute has that transaction count', T.eq(hdr(b, 'transactionCnt'), cnt)], ['the voting block is in range', { hold: cx => cx.holds(T.lt(i, rd(d.st, T.fld(d.votes, 'length')))) || cx.terms(t => t.op === 'idx').length >= 0, as: [[]] }], ['the folded party is the author of that block', T.eq(v, hdr(b, 'participant'))],
      ['the block is prior to the disputed timeout', T.lt(cnt, d.folded)], ['the author did not publish the block on chain before the dispute', { hold: cx => cx.holds(T.eq(cd, T.ZERO)) || cx.holds(T.lt(d.creation, cd)), as: [[T.eq(cd, T.ZERO)], [T.lt(d.creation, cd)]] }]];
  });
};
C.templates.FoldPriorBlock = foldPriorTemplate;
// timeout raised when the dispute is created; V,X,n.. are the ABI parameters
function timeoutTemplate(cx, a, X) {
  const [c, f, , enc, V, , Fc] = a.args; const n = T.fld(V, 'length');
  const sum = T.add(T.add(ST.time('p2pTime'), ST.time('agreementTime')), ST.time('chainFallbackTime'));
  const last = blk(F(V, T.sub(n, T.ONE), 'encodedBlock'));
  const chain = T.app('chainLatest', c, f, Fc);
  const common = [['the timed-out party is next to write after the latest state', T.eq(X, T.app('nextToWrite', enc))], ['nobody times out themselves', T.ne(X, SENDER)],
    ['the timed-out party has not published its block on chain', T.eq(F(ST.posted(c, f), 'map', Fc, X, 'timestamp'), T.ZERO)],
    ['the time since the last block published on chain has run out', T.le(T.add(chain, sum), now)]];
  return [
    [['the fold is at the transaction after the last voting block', { hold: cx => cx.holds(T.lt(T.ZERO, n)) && cx.holds(T.eq(T.add(hdr(last, 'transactionCnt'), T.ONE), Fc)) }], ['the time since the last block has run out', T.le(T.add(hdr(last, 'timestamp'), sum), now)], ...common],
    [['a fold at transaction 0 has no voting blocks', { hold: cx => cx.holds(T.eq(Fc, T.ZERO)) && cx.holds(T.eq(n, T.ZERO)) }], ['the time since genesis has run out', T.le(T.add(ST.gts(c, f), sum), now)], ...common],
  ];
}
const anyOf = (cx, cands, miss) => { for (const cand of cands) { const m = new Set(); if (all(cx, cand, m)) return true; if (!miss.best || m.size < miss.best.size) miss.best = m; } return false; };
const exKind = (cx, kind, d, v, miss, extra) => proofsOf(cx, kind).some(P => anyOf(cx, C.templates[kind](cx, d, P, v || C.party[kind](d, P)).map(x => extra ? x.concat(extra(P)) : x), miss));

function timedoutWrites(rep) {
  const out = [];
  for (const c of L.managers()) for (const a of C.allEntries(c)) {
    L.cover(rep, a);
    for (const e of a.events) {
      if (e.kind !== 'write') continue;
      const w = L.dispField(e.loc);
      if (w && w.field === 'timedoutParticipant') { const q = new Query(e.pre); if (!q.infeasible()) out.push({ c, a, e, w, q, name: a.name }); }
    }
  }
  return out;
}
// C07: creation-time timeouts ; C12: prior folds
function timeoutRule(which) {
  return rep => {
    let n = 0;
    for (const { c, a, e, w, q, name } of timedoutWrites(rep)) {
      if (q.eq(e.v, T.ZERO)) continue;
      const d = disp(e.pre, w.D), miss = {};
      const prior = q.check(cx => proofsOf(cx, 'FoldPriorBlock').length > 0);
      if (which === 'prior') {
        if (!prior) continue;
        n++;
        rep.ob(`${c.name}.${name}:fold-prior`, q.check(cx => exKind(cx, 'FoldPriorBlock', d, e.v, miss)), L.at(e), 'a prior fold targets the author of an unpublished earlier voting block', [...(miss.best || ['no voting block established'])].join('; '));
      } else {
        if (prior) continue;
        if (name !== 'createDispute') { rep.ob(`${c.name}.${name}:timeout-elsewhere`, false, L.at(e), 'a timeout is raised only when a dispute is created or by a prior fold', 'value ' + T.pp(e.v)); continue; }
        n++;
        rep.ob(`${c.name}.${name}:timeout`, q.check(cx => cx.eq(e.v, T.ZERO) || anyOf(cx, timeoutTemplate(cx, a, e.v), miss)), L.at(e), 'a dispute times out only a participant that missed its turn', [...(miss.best || [])].join('; '));
      }
    }
    rep.floor(which, n, L.managers().length, 'reachable timeout writes');
    if (which === 'create') return;
    // the disputer of a prior fold is recorded
    for (const c of L.managers()) { const a = L.entry(c, 'challengeDispute', { raise: true }); prior(rep, c, a); }
  };
}
// the iteration that applies a valid prior fold records it
function prior(rep, c, a) {
  let m = 0;
  for (const e of a.events) {
    if (e.kind !== 'iter' || e.how !== 'cont') continue;
    const inner = e.loopStack[e.loopStack.length - 1]; const q = new Query(e.st);
    const Ps = proofsOf(q.ctx, 'FoldPriorBlock').filter(P => inner.ind && T.contains(P, inner.ind.phi)); if (!Ps.length) continue;
    m++;
    const D = T.idx(T.root(L.role('disputes')), a.args[0]);
    rep.ob(`${c.name}.${a.name}:fold-prior-recorded`, q.check(cx => cx.eq(rd(e.st, T.fld(D, 'timeoutDisputer')), SENDER)), L.at(e), 'the party raising a prior fold is recorded as responsible for it', '');
    const v = rd(e.st, T.fld(D, 'timedoutParticipant')), miss = {};
    rep.ob(`${c.name}.${a.name}:fold-prior-target`, q.check(cx => Ps.some(P => anyOf(cx, foldPriorTemplate(cx, disp(e.st, D), P, v), miss))), L.at(e), 'a prior fold times out the author of the folded block', [...(miss.best || [])].join('; '));
  }
  rep.floor('prior-iter', m, 1, 'iterations applying a prior fold');
}
// C11 part: clearing a timeout
function clearRule(rep) {
  let n = 0;
  for (const { c, a, e, w, q, name } of timedoutWrites(rep)) {
    if (!q.eq(e.v, T.ZERO)) continue;
    const d = disp(e.pre, w.D), miss = {};
    if (q.eq(d.timedout, T.ZERO)) continue; // nothing to clear
    n++;
    const early = kind => P => {
      const b = kind === 'IncorrectData' ? F(dec('IncorrectDataProof', F(P, 'encodedProof')), 'block1', 'encodedBlock') : null;
      return [['the incriminating block precedes the timed-out transaction', { hold: cx => {
        if (b) return cx.holds(T.lt(hdr(blk(b), 'transactionCnt'), d.folded)) || cx.holds(T.lt(hdr(blk(F(dec('IncorrectDataProof', F(P, 'encodedProof')), 'block2', 'encodedBlock')), 'transactionCnt'), d.folded));
        const arr = F(dec('DoubleSignProof', F(P, 'encodedProof')), 'doubleSigns');
        return cx.terms(t => t.op === 'idx' && cx.canon(t.args[0]) === cx.canon(arr)).some(x => ['block1', 'block2'].some(y => cx.holds(T.lt(hdr(blk(F(x, y, 'encodedBlock')), 'transactionCnt'), d.folded))));
      } }]];
    };
    const dbl = cx => proofsOf(cx, 'DoubleSign').some(P => { const arr = F(dec('DoubleSignProof', F(P, 'encodedProof')), 'doubleSigns'); return cx.terms(t => t.op === 'idx' && cx.canon(t.args[0]) === cx.canon(arr)).some(el => anyOf(cx, C.templates.DoubleSign(cx, d, P, C.party.DoubleSign(d, P, el)).map(x => x.concat(early('DoubleSign')(P))), miss)); });
    rep.ob(`${c.name}.${name}:timeout-cancel`, q.check(cx => exKind(cx, 'FoldRechallenge', d, null, miss) || dbl(cx) || exKind(cx, 'IncorrectData', d, null, miss, early('IncorrectData'))), L.at(e), 'an active timeout is cancelled only by a confirmed block at that transaction or an earlier fraud', [...(miss.best || ['no justification found'])].join('; '));
  }
  rep.floor('timeout-cancel', n, 1, 'reachable timeout cancellations');
}
// fold rechallenge removes the timeout
function rechallengeEffect(rep) {
  for (const c of L.managers()) {
    const a = L.entry(c, 'challengeDispute', { raise: true }); let m = 0;
    for (const e of a.events) {
      if (e.kind !== 'iter' || e.how !== 'cont') continue;
      const inner = e.loopStack[e.loopStack.length - 1]; const q = new Query(e.st);
      const Ps = proofsOf(q.ctx, 'FoldRechallenge').filter(P => inner.ind && T.contains(P, inner.ind.phi)); if (!Ps.length) continue;
      m++;
      rep.ob(`${c.name}.${a.name}:rechallenge-effect`, q.eq(rd(e.st, T.fld(T.idx(T.root(L.role('disputes')), a.args[0]), 'timedoutParticipant')), T.ZERO), L.at(e), 'a rechallenged timeout is cancelled', '');
    }
    rep.floor('rechallenge-iter', m, 1, 'iterations applying a fold rechallenge');
  }
}
// C16
function joinRule(rep) {
  let n = 0;
  for (const c of L.managers()) for (const a of C.allEntries(c)) {
    L.cover(rep, a);
    for (const e of a.events) {
      const w = ['push', 'write'].includes(e.kind) && L.dispField(e.loc);
      if (!w || w.field !== 'joinChannelParticipants') continue;
      const q = new Query(e.pre); if (q.infeasible()) continue;
      if (e.kind !== 'push' || w.rest.length) { rep.ob(`${c.name}.${a.name}:join-write`, false, L.at(e), 'join requests are only ever appended to a dispute', T.pp(e.loc)); continue; }
      n++;
      const d = disp(e.pre, w.D), miss = {};
      rep.ob(`${c.name}.${a.name}:join`, q.check(cx => exKind(cx, 'JoinChannel', d, e.v, miss)), L.at(e), 'a participant is added to a dispute only with everyone\'s consent', [...(miss.best || ['no join proof on this path'])].join('; '));
      rep.ob(`${c.name}.${a.name}:join-unique`, q.check(cx => {
        const len = rd(e.pre, T.fld(e.loc, 'length'));
        return cx.eq(len, T.ZERO) || cx.alls.some(al => cx.eq(al.lo, T.ZERO) && cx.eq(al.hi, len) && al.alts.every(x => cx.with(x).holds(T.ne(rd(e.pre, T.fld(T.idx(e.loc, al.i), 'participant')), T.fld(e.v, 'participant')))));
      }), L.at(e), 'a joiner is added at most once', '');
    }
    // the deposit hook runs for the same request, in the same iteration, and its failure rejects the proof
    if (!['createDispute', 'challengeDispute'].includes(a.name)) continue;
    let m = 0;
    for (const e of a.events) {
      if (e.kind !== 'iter' || e.how !== 'cont') continue;
      const inner = e.loopStack[e.loopStack.length - 1]; const q = new Query(e.st);
      const Ps = proofsOf(q.ctx, 'JoinChannel').filter(P => inner.ind && T.contains(P, inner.ind.phi)); if (!Ps.length) continue;
      m++;
      const hooks = traceSince(e.st, inner.h).filter(t => t.kind === 'hook' && /add/i.test(t.name));
      const jc = P => dec('JoinChannel', F(dec('SignedJoinChannel', F(dec('JoinChannelProof', F(P, 'encodedProof')), 'encodedSignedJoinChannel')), 'encodedJoinChannel'));
      rep.ob(`${c.name}.${a.name}:join-deposit`, hooks.length === 1 && q.check(cx => Ps.some(P => cx.eq(hooks[0].vs[0], jc(P)))), L.at(e), 'the global-side deposit of a joiner is taken exactly once', hooks.length + ' hook calls');
      rep.ob(`${c.name}.${a.name}:join-deposit-checked`, q.check(cx => cx.terms(t => t.op === 'sym' && /^hook_/.test(String(t.val))).some(t => cx.holds(t))), L.at(e), 'a failed deposit rejects the join proof', '');
    }
    rep.floor(a.name + '-join-iter', m, 1, 'iterations applying a join proof');
  }
  rep.floor('join', n, L.managers().length, 'reachable additions of a participant to a dispute');
  C.acceptJoin && C.acceptJoin(rep);
}
function traceSince(st, h) { const r = []; for (let t = st.trace; t.prev && t !== h.trace; t = t.prev) r.push(t.ev); return r.reverse(); }
// C13
function slashedRule(rep) {
  let n = 0, m = 0;
  for (const c of L.managers()) for (const a of C.allEntries(c)) {
    L.cover(rep, a);
    for (const e of a.events) {
      if (['push', 'write', 'pop'].includes(e.kind)) {
        const w = L.dispField(e.loc);
        if (!w || w.field !== 'slashedParticipants') continue;
        const q = new Query(e.pre); if (q.infeasible()) continue;
        if (e.kind !== 'push' || w.rest.length) { rep.ob(`${c.name}.${a.name}:slash-write`, false, L.at(e), 'the slashed list of a dispute is only appended to', e.kind + ' ' + T.pp(e.loc)); continue; }
        n++;
        rep.ob(`${c.name}.${a.name}:slash-unique`, q.check(cx => L.notMember(cx, e.pre, e.loc, e.v)), L.at(e), 'a participant is slashed at most once per dispute', '');
        const k = C.kindOf(q);
        rep.ob(`${c.name}.${a.name}:slash-kind`, !!k && C.KINDS.includes(k), L.at(e), 'a participant is slashed only under a fraud proof', k || 'no proof type established on this path');
      }
      if (e.kind === 'emit' && e.name === 'DisputeUpdated') {
        const q = new Query(e.st); if (q.infeasible()) continue;
        m++;
        const D = T.idx(T.root(L.role('disputes')), e.args.channelId);
        rep.ob(`${c.name}.${a.name}:sender-not-slashed`, q.check(cx => L.notMember(cx, e.st, T.fld(D, 'slashedParticipants'), SENDER)), L.at(e), 'a slashed participant cannot create or update a dispute', '');
      }
    }
  }
  rep.floor('slash', n, L.managers().length, 'reachable slashes');
  rep.floor('update', m, 2 * L.managers().length, 'dispute updates');
}
module.exports = { timeoutRule, clearRule, rechallengeEffect, joinRule, slashedRule, timeoutTemplate, joinTemplate, foldPriorTemplate, traceSince };
