'use strict';
// Channel lifecycle: opening, forks, dispute creation / challenge, membership by agreement, calldata, privileges.
const L = require('./clib'); const { T, S, Query, F, dec, blk, hdr, keccak, ST, now, SENDER, SELF, rd, par, memberOf } = L;
const C = require('./C_proofs'), D2 = require('./C_disp2'); const { member, nonMember, tsignedBy, assume, all } = C;
const D0 = c => T.idx(T.root(L.role('disputes')), c);
const trusted = ['solc 0.8.26 type-checked AST', 'tool/core (path-partitioned must-fact dataflow, loop summaries, congruence closure, linear entailment)', 'keccak256 treated as injective, ECDSA.recover as a function of hash and signature', 'application hooks and the state machine as uninterpreted effects'];
// ---- helpers
// facts that hold for every index in [0,len): f(i) -> term
function forAll(cx, len, f) {
  if (cx.eq(len, T.ZERO)) return true;
  if (T.isNum(len) && len.val <= 4n) { for (let i = 0n; i < len.val; i++) if (!cx.holds(f(T.num(i)))) return false; return true; }
  return cx.alls.some(q => cx.eq(q.lo, T.ZERO) && cx.eq(q.hi, len) && q.alts.every(a => { const c2 = cx.with(a); return c2.contradictory() || c2.holds(f(q.i)); }));
}
// check named conditions on all paths; each is {hold} or a term
function checkAll(rep, key, q, conds, where, extra) {
  for (const [n, t] of conds) {
    const ok = q.check(cx => t.hold ? t.hold(cx) : cx.holds(t));
    rep.ob(`${key}:${n}`, ok, where, n, ok ? '' : 'not established on every path' + (extra || ''));
  }
}
const emits = (a, name) => a.events.filter(e => e.kind === 'emit' && e.name === name && !new Query(e.st).infeasible());
const storeChain = function* (st, until) { for (let w = st.store; w.prev && w !== until; w = w.prev) yield w; };
const noDispute = c => ({ hold: cx => cx.holds(T.eq(F(D0(c), 'channelId'), T.ZERO)) || cx.holds(T.lt(F(D0(c), 'deadlineTimestamp'), now)), as: [[T.eq(F(D0(c), 'channelId'), T.ZERO)], [T.lt(F(D0(c), 'deadlineTimestamp'), now)]] });
const partsOf = (c, f) => T.app('participants', ST.enc(c, f));
// no revert is reachable when every condition of the template holds (hooks and state machine cooperating)
function accepts(rep, key, a, conds, what, filter) {
  let n = 0;
  for (const e of a.events) {
    if (e.kind !== 'raise' || (filter && !filter(e))) continue;
    const q = new Query(e.st); if (q.infeasible()) continue;
    n++;
    const hooks = q.ctx.terms(t => t.op === 'sym' && /^hook_/.test(String(t.val)));
    const items = q.ctx.items.concat(hooks.flatMap(h => L.lits(h)));
    const qs = assume(items, conds);
    rep.ob(`${key}:accept`, qs.every(x => x.infeasible()), L.at(e), what, 'a valid request reaches this revert');
  }
  return n;
}
// ---- C02 fork numbering
function C02(rep) {
  let n = 0, m = 0;
  const roots = new Set([L.role('latestFork'), L.role('encodedStates'), L.role('genesisTimestamps')]);
  for (const c of L.managers()) for (const a of C.allEntries(c)) {
    L.cover(rep, a);
    const k = `${c.name}.${a.name}`;
    for (const e of emits(a, 'SetState')) {
      n++;
      const q = new Query(e.st), ch = e.args.channelId, f = e.args.forkCnt, w = L.at(e);
      const old = ST.fork(ch), cur = rd(e.st, ST.fork(ch));
      const genesis = q.eq(f, T.ZERO);
      if (genesis) checkAll(rep, k, q, [['a genesis state is announced only for a channel that was not open', { hold: cx => cx.eq(rd(e.st, F(ST.enc(ch, T.ZERO), 'length')), T.ZERO) || cx.eq(F(ST.enc(ch, T.ZERO), 'length'), T.ZERO) }]], w);
      else {
        rep.ob(`${k}:next`, q.check(cx => cx.eq(f, cur)), w, 'the announced fork is the current fork of the channel', `announces ${T.pp(f)}, stored ${T.pp(cur)}`);
        rep.ob(`${k}:step`, q.check(cx => cx.eq(cur, T.add(old, T.ONE))), w, 'the fork counter grows by exactly one', `new value ${T.pp(cur)}`);
      }
      rep.ob(`${k}:state`, q.check(cx => cx.eq(S.load(e.st.store, ST.enc(ch, f)), e.args.encodedState)), w, 'the announced state is the stored state of that fork', '');
      rep.ob(`${k}:time`, q.check(cx => cx.eq(rd(e.st, ST.gts(ch, f)), now) && cx.eq(e.args.timestamp, now)), w, 'a fork starts at the current block time', '');
    }
    // every write is announced
    for (const r of a.rs) {
      const q = new Query(r.st); if (q.infeasible()) continue;
      const ann = S.traceList(r.st.trace).filter(t => t.kind === 'emit' && t.name === 'SetState');
      m++;
      for (const w of storeChain(r.st)) {
        const p = L.where(w.loc); if (!roots.has(p.root)) continue;
        const kind = w.kind !== 'w' ? 'written in a loop' : '';
        let ok = w.kind === 'w';
        const ch = p.steps[0] && p.steps[0].args[1], fk = p.steps[1] && p.steps[1].op === 'idx' ? p.steps[1].args[1] : null;
        if (ok) ok = ann.some(x => q.eq(x.vs[0], ch) && (p.root === L.role('latestFork') || (fk && q.eq(x.vs[2], fk))));
        rep.ob(`${k}:announced:${p.root}`, ok, a.fd && L.prog().loc(a.fd.src), 'every new fork is announced and nothing else changes fork records', `${T.pp(w.loc)} ${kind}`);
      }
      rep.ob(`${k}:one-per-call`, new Set(ann.map(x => x.key)).size === ann.length && ann.length <= 1, L.prog().loc(a.fd.src), 'one call creates at most one fork', `${ann.length} forks`);
    }
  }
  rep.floor('setstate', n, 4, 'reachable fork announcements');
  // initial fork counter of an unopened channel is never changed except through an announcement (covered above)
}
// ---- C04 / C05
function evidence(st, participants, c, fork, votesSt) {
  return { hold: cx => {
    const ps = cx.terms(t => t.op === 'fld' && t.val === 'proofType').map(t => t.args[0]).filter(t => t.op === 'idx');
    for (const P of ps) {
      for (const kind of Object.keys(C.templates)) {
        if (!cx.eq(F(P, 'proofType'), T.num(L.enumVal('ProofType', kind)))) continue;
        return true;
      }
    }
    return false;
  } };
}
const validWitness = (cx, e, D, Ps) => {
  for (const kind of Object.keys(C.templates)) for (const P of C.proofsOf(cx, kind)) {
    if (!Ps(P, cx)) continue;
    // facts that do not depend on how far the dispute has been updated
    const d = C.disp(S.EMPTY && e.st, D);
    const vs = kind === 'DoubleSign' ? doubleSigns(cx, P).map(el => C.party.DoubleSign(d, P, el)) : [kind === 'JoinChannel' ? dec('JoinChannel', F(dec('SignedJoinChannel', F(dec('JoinChannelProof', F(P, 'encodedProof')), 'encodedSignedJoinChannel')), 'encodedJoinChannel')) : C.party[kind] ? C.party[kind](d, P) : T.sym('?')];
    for (const v of vs) for (const cand of C.templates[kind](cx, d, P, v)) {
      const m = new Set(); all(cx, cand, m);
      const soft = new Set(['slashed party posted the disputed state', 'slashed party confirmed the newer block', 'the block is strictly newer than the posted state', 'the block is at the timed-out transaction', 'slashed party raised the timeout', 'the submitter is the next to write', 'the joiner is not a participant', 'a voting block of the dispute has that transaction count', 'the folded party is the author of that block', 'the author did not publish the block on chain before the dispute', 'the voting block is in range', 'the block is prior to the disputed timeout']);
      if (![...m].some(x => !soft.has(x))) return true;
    }
  }
  return false;
};
const doubleSigns = (cx, P) => { const arr = F(dec('DoubleSignProof', F(P, 'encodedProof')), 'doubleSigns'); return cx.terms(t => t.op === 'idx' && cx.canon(t.args[0]) === cx.canon(arr)); };
const elems = arr => (P, cx) => P.op === 'idx' && cx.canon(P.args[0]) === cx.canon(arr) && cx.holds(T.lt(P.args[1], T.fld(arr, 'length')));
function copied(st, D, V) { // the stored voting blocks are exactly the given ones
  const votes = F(D, 'virtualVotingBlocks'); const k = T.sym('anyVote');
  return { hold: cx => cx.eq(rd(st, F(votes, 'length')), F(V, 'length')) && (cx.eq(F(V, 'length'), T.ZERO) || (cx.eq(rd(st, F(T.idx(votes, k), 'encodedBlock')), F(T.idx(V, k), 'encodedBlock')) && cx.eq(rd(st, F(T.idx(votes, k), 'signatures')), F(T.idx(V, k), 'signatures')))) };
}
function C04(rep) {
  let n = 0;
  for (const c of L.managers()) {
    const a = L.entry(c, 'createDispute', { raise: true }); L.cover(rep, a);
    const [ch, f, fin, enc, V, X, fold, proofs] = a.args; const D = D0(ch), P = partsOf(ch, f);
    const k = `${c.name}.createDispute`;
    for (const e of emits(a, 'DisputeUpdated')) {
      n++; const q = new Query(e.st), r = x => rd(e.st, F(D, x));
      checkAll(rep, k, q, [
        ['no dispute is in progress', noDispute(ch)],
        ['the dispute is about the current fork', T.eq(f, ST.fork(ch))],
        ['the disputer is a participant of the fork', { hold: cx => memberOf(cx, SENDER, [P]) }],
        ['there is a timeout or a valid proof', { hold: cx => cx.holds(T.ne(r('timedoutParticipant'), T.ZERO)) || validWitness(cx, e, D, elems(proofs)) || cx.holds(T.ne(X, T.ZERO)) }],
        ['the record names the channel, fork and participants', { hold: cx => cx.eq(r('channelId'), ch) && cx.eq(r('forkCnt'), f) && (cx.eq(r('participants'), P)) }],
        ['a new dispute has no challenges', T.eq(r('challengeCnt'), T.ZERO)],
        ['the record keeps the posted finalized state', T.eq(r('encodedLatestFinalizedState'), fin)],
        ['the record keeps the posted voting blocks', copied(e.st, D, V)],
        ['the record keeps the timeout position', T.eq(r('foldedTransactionCnt'), fold)],
        ['the disputer is recorded as the poster of the state', T.eq(r('postedStateDisputer'), SENDER)],
        ['the creation time is the block time', T.eq(r('creationTimestamp'), now)],
        ['a full challenge period follows', T.eq(r('deadlineTimestamp'), T.add(now, ST.time('challengeTime')))],
        ['the announced dispute is the stored one', { hold: cx => cx.eq(e.args.channelId, ch) }],
        ['nothing of an earlier dispute is left', { hold: cx => noResidue(e.st, D) }],
      ], L.at(e));
    }
  }
  rep.floor('create', n, L.managers().length, 'reachable dispute creations');
  for (const c of L.managers()) responsible(rep, c, 'createDispute');
}
// whenever a timeout is recorded while a dispute is created, the disputer is recorded as responsible for it:
// holds where the proof loop starts and is preserved by every iteration of it
function responsible(rep, c, name) {
  const a = L.entry(c, name, { raise: true }); const D = D0(a.args[0]), t = F(D, 'timedoutParticipant'), d = F(D, 'timeoutDisputer'); const k = `${c.name}.${name}:responsible`;
  const inv = (cx, st) => cx.eq(rd(st, t), T.ZERO) || cx.eq(rd(st, d), SENDER);
  const touches = i => [...i.phis.values()].some(m => m.kind === 'loc' && (m.loc === t || m.loc === d));
  let n = 0;
  const seen = new Set();
  for (const e of a.events) {
    if (e.kind !== 'iter' || e.loopStack.length !== 1 || !touches(e.info)) continue;
    const i = e.info;
    if (!seen.has(i)) { seen.add(i); n++; rep.ob(k + ':start', new Query(i.base).check(cx => inv(cx, i.base)), L.prog().loc(i.node.src), 'the disputer is recorded as responsible for the timeout', ''); }
    for (const h of [T.eq(rd(i.h, t), T.ZERO), T.eq(rd(i.h, d), SENDER)]) rep.ob(k + ':step', new Query(e.st).given(h).check(cx => inv(cx, e.st)), L.at(e), 'a proof never leaves a timeout without its disputer', '');
  }
  if (!n) for (const e of emits(a, 'DisputeUpdated')) rep.ob(k + ':end', new Query(e.st).check(cx => inv(cx, e.st)), L.at(e), 'the disputer is recorded as responsible for the timeout', '');
}
// every list of the record was reset in this call before anything was added
function noResidue(st, D) {
  for (const l of ['joinChannelParticipants', 'leaveChannelParticipants', 'slashedParticipants', 'processExits']) {
    let reset = false;
    for (const w of storeChain(st)) { const r = S.relation(w.loc, F(D, l, 'length')); if (w.kind === 'w' && (r === 'same' || r === 'above') && (w.val === T.ZERO || (w.val.op === 'struct') || (w.val.op === 'arr' && !w.val.args.length))) reset = true; }
    if (!reset) return false;
  }
  return true;
}
function C05(rep) {
  let n = 0;
  for (const c of L.managers()) {
    const a = L.entry(c, 'challengeDispute', { raise: true }); L.cover(rep, a);
    const [ch, f, cc, proofs, V, fin] = a.args; const D = D0(ch), n0 = F(D, 'virtualVotingBlocks', 'length');
    const k = `${c.name}.challengeDispute`;
    const oldFirst = hdr(blk(F(T.idx(F(D, 'virtualVotingBlocks'), T.ZERO), 'encodedBlock')), 'transactionCnt'), newFirst = hdr(blk(F(T.idx(V, T.ZERO), 'encodedBlock')), 'transactionCnt');
    for (const e of emits(a, 'DisputeUpdated')) {
      n++; const q = new Query(e.st), r = x => rd(e.st, F(D, x));
      const kept = x => [`the ${x} of the dispute is unchanged`, T.eq(r(x), F(D, x))];
      checkAll(rep, k, q, [
        ['the dispute exists', T.ne(F(D, 'channelId'), T.ZERO)],
        ['the challenge names the disputed fork', T.eq(F(D, 'forkCnt'), f)],
        ['the challenge targets the current revision', T.eq(F(D, 'challengeCnt'), cc)],
        ['the challenge period has not ended', T.lt(now, F(D, 'deadlineTimestamp'))],
        ['the challenger is a dispute participant', { hold: cx => memberOf(cx, SENDER, [F(D, 'participants')]) }],
        ['there is a valid proof', { hold: cx => validWitness(cx, e, D, elems(proofs)) }],
        ['the finalized point does not move back', { hold: cx => cx.eq(n0, T.ZERO) || (cx.holds(T.lt(T.ZERO, F(V, 'length'))) && cx.holds(T.le(oldFirst, newFirst))) }],
        ['the revision counter grows by one', T.eq(r('challengeCnt'), T.add(F(D, 'challengeCnt'), T.ONE))],
        ['a full challenge period follows', T.eq(r('deadlineTimestamp'), T.add(now, ST.time('challengeTime')))],
        ['the challenger is recorded as the poster of the state', T.eq(r('postedStateDisputer'), SENDER)],
        ['the record keeps the posted finalized state', T.eq(r('encodedLatestFinalizedState'), fin)],
        ['the posted voting blocks replace the old ones', copied(e.st, D, V)],
        kept('channelId'), kept('forkCnt'), kept('participants'), kept('creationTimestamp'), kept('foldedTransactionCnt'),
      ], L.at(e));
    }
  }
  rep.floor('challenge', n, L.managers().length, 'reachable challenges');
}
// ---- C14 / C15
function membership(rep, which) {
  let n = 0;
  for (const c of L.managers()) {
    const name = which === 'join' ? 'joinChannelWithAgreement' : 'leaveChannelWithAgreement';
    const a = L.entry(c, name, { raise: true }); L.cover(rep, a);
    const [ag, enc] = a.args; const k = `${c.name}.${name}`;
    let conds, ch, result, hook;
    if (which === 'join') {
      const e = F(ag, 'encodedJoinChannelAgreement'), A = dec('JoinChannelAgreement', e), sj = F(A, 'signedJoinChannel'), jc = dec('JoinChannel', F(sj, 'encodedJoinChannel'));
      ch = F(jc, 'channelId'); const f = F(A, 'forkCnt'), P = partsOf(ch, f);
      conds = [['no dispute is in progress', noDispute(ch)], ['the agreement is for the current fork', T.eq(ST.fork(ch), f)], ['the agreement is about the given state', T.eq(keccak(enc), F(A, 'previousStateHash'))],
        ['the joiner is not a participant', nonMember(F(jc, 'participant'), [P])], ['the submitter is a participant', member(F(A, 'submitter'), [P])], ['only the named submitter may submit', T.eq(SENDER, F(A, 'submitter'))],
        ['every participant signed the agreement', tsignedBy([P], e, F(ag, 'signatures'))], ['the joiner signed the request', T.eq(T.signer(F(sj, 'encodedJoinChannel'), F(sj, 'signature')), F(jc, 'participant'))],
        ['the deadline has not passed', T.lt(now, F(jc, 'deadlineTimestamp'))], ['the state machine accepts the joiner', T.app('joinOk', enc, jc)]];
      result = T.app('join', enc, jc); hook = { re: /add/i, vs: [jc] };
    } else {
      const e = F(ag, 'encodedLeaveChannel'), A = dec('LeaveChannel', e); ch = F(A, 'channelId'); const f = F(A, 'forkCnt'), P = partsOf(ch, f), x = F(A, 'participant');
      conds = [['no dispute is in progress', noDispute(ch)], ['the agreement is for the current fork', T.eq(ST.fork(ch), f)], ['the agreement is about the given state', T.eq(keccak(enc), F(A, 'previousStateHash'))],
        ['the leaver is a participant', member(x, [P])], ['every participant signed the agreement', tsignedBy([P], e, F(ag, 'signatures'))], ['the deadline has not passed', T.lt(now, F(A, 'deadlineTimestamp'))],
        ['the state machine removes the leaver', T.app('removeOk', enc, x)]];
      result = T.app('remove', enc, x); hook = { re: /remove/i, vs: [ch, T.app('removeExit', enc, x)] };
    }
    for (const e of emits(a, 'SetState')) {
      n++; const q = new Query(e.st);
      checkAll(rep, k, q, conds.concat([
        ['the fork belongs to the channel of the agreement', T.eq(e.args.channelId, ch)],
        ['the new state is the agreed state with exactly this change', T.eq(e.args.encodedState, result)],
        [which === 'join' ? 'the deposit of the joiner is taken exactly once and checked' : 'the exit of the leaver is paid exactly once and checked', { hold: cx => {
          const hs = S.traceList(e.st.trace).filter(t => t.kind === 'hook' && hook.re.test(t.name));
          return hs.length === 1 && hs[0].vs.length === hook.vs.length && hook.vs.every((v, i) => cx.eq(hs[0].vs[i], v)) && cx.terms(t => t.op === 'sym' && /^hook_/.test(String(t.val))).some(t => cx.holds(t));
        } }],
      ]), L.at(e));
    }
    rep.floor(k, n, 1, 'reachable success path');
    // every normal exit created the fork
    for (const r of a.rs) { if (new Query(r.st).infeasible()) continue; rep.ob(`${k}:effect`, S.traceList(r.st.trace).some(t => t.kind === 'emit' && t.name === 'SetState'), L.prog().loc(a.fd.src), 'the call either creates the new fork or fails', ''); }
    accepts(rep, k, a, conds, 'a fully agreed request is not rejected');
  }
}
// ---- C18
function C18(rep) {
  let n = 0;
  for (const c of L.managers()) {
    for (const a of C.allEntries(c)) { // nobody else writes the posted blocks
      L.cover(rep, a);
      for (const e of a.events) if (['write', 'push', 'pop'].includes(e.kind) && L.where(e.loc).root === L.role('posted') && a.name !== 'postBlockCalldata') rep.ob(`${c.name}.${a.name}:posted-write`, new Query(e.pre || e.st).infeasible(), L.at(e), 'published blocks are only written by publishing', T.pp(e.loc));
    }
    const a = L.entry(c, 'postBlockCalldata', { raise: true }); const sb = a.args[0], e0 = F(sb, 'encodedBlock'), b = blk(e0), k = `${c.name}.postBlockCalldata`;
    const sum = T.add(T.add(ST.time('p2pTime'), ST.time('agreementTime')), ST.time('chainFallbackTime')); const tsx = hdr(b, 'timestamp');
    const slot = F(ST.posted(hdr(b, 'channelId'), hdr(b, 'forkCnt')), 'map', hdr(b, 'transactionCnt'), SENDER), keys = F(ST.posted(hdr(b, 'channelId'), hdr(b, 'forkCnt')), 'keys');
    const conds = [['the publisher signed the block', T.eq(T.signer(e0, F(sb, 'signature')), SENDER)], ['the publisher is the author', T.eq(hdr(b, 'participant'), SENDER)],
      ['the block is not dated in the future', T.le(tsx, now)], ['the block is recent', T.le(now, T.add(tsx, sum))]];
    const es = a.events.filter(e => e.kind === 'emit' && !new Query(e.st).infeasible());
    for (const r of a.rs) {
      const q = new Query(r.st); if (q.infeasible()) continue; n++;
      const where = L.prog().loc(a.fd.src), len0 = F(keys, 'length');
      checkAll(rep, k, q, conds.concat([
        ['the block is stored under its channel, fork, transaction and author', { hold: cx => cx.eq(rd(r.st, F(slot, 'signedBlock', 'encodedBlock')), e0) && cx.eq(rd(r.st, F(slot, 'signedBlock', 'signature')), F(sb, 'signature')) }],
        ['the publication time is the block time', T.eq(rd(r.st, F(slot, 'timestamp')), now)],
        ['the publication is indexed', { hold: cx => cx.eq(rd(r.st, len0), T.add(len0, T.ONE)) && cx.eq(rd(r.st, F(T.idx(keys, len0), 'transactionCnt')), hdr(b, 'transactionCnt')) && cx.eq(rd(r.st, F(T.idx(keys, len0), 'participant')), SENDER) }],
        ['the publication is announced', { hold: cx => { const t = S.traceList(r.st.trace).filter(t => t.kind === 'emit' && t.name === 'BlockCalldataPosted'); return t.length === 1 && cx.eq(t[0].vs[0], hdr(b, 'channelId')) && cx.eq(F(t[0].vs[1], 'encodedBlock'), e0) && cx.eq(F(t[0].vs[1], 'signature'), F(sb, 'signature')) && cx.eq(t[0].vs[2], now); } }],
      ]), where);
    }
    rep.floor(k, n, 1, 'reachable success path');
    accepts(rep, k, a, conds.concat([['', T.le(sum, now)], ['', T.le(ST.time('p2pTime'), now)], ['', T.le(T.add(ST.time('p2pTime'), ST.time('agreementTime')), now)]]), 'a timely block signed by its author is not rejected');
  }
}
// ---- C19 who may trigger deposits, exits and membership changes
function C19(rep) {
  let n = 0, w = 0;
  const governed = { createDispute: 1, challengeDispute: 1, joinChannelWithAgreement: 1, leaveChannelWithAgreement: 1 };
  for (const c of L.managers()) for (const a of C.allEntries(c)) {
    L.cover(rep, a);
    for (const e of a.events) {
      const hook = e.kind === 'hook', sm = e.kind === 'sm' && ['joinChannel', 'slashParticipant', 'removeParticipant'].includes(e.name);
      if (!hook && !sm) continue;
      const q = new Query(e.st); if (q.infeasible()) continue;
      n++;
      if (governed[a.name]) continue; // decided by C14-C16, C23, C24
      w++;
      rep.ob(`${c.name}.${a.name}:${e.name}`, q.eq(SENDER, SELF), L.at(e), 'deposits, exits and membership changes are triggered only by the manager itself or by a governed request', 'reachable by any caller');
    }
  }
  rep.floor('ops', n, 6, 'reachable privileged operations'); rep.floor('wrappers', w, 5, 'privileged operations behind a self-only wrapper');
  // a governed operation never depends on the caller being the manager
  for (const c of L.managers()) for (const name of Object.keys(governed)) {
    const a = L.entry(c, name, { raise: true });
    rep.ob(`${c.name}.${name}:reachable`, a.rs.some(r => !new Query(r.st).given(T.ne(SENDER, SELF)).infeasible()), L.prog().loc(a.fd.src), 'governed requests can succeed for an outside caller', '');
  }
}
// ---- C20 the shared state machine is loaded before use
function C20(rep) {
  let n = 0; const G = T.root('$sm');
  for (const c of L.managers()) {
    for (const fd of L.prog().entries(c)) {
      const a = L.entry(c, fd.name, { raise: true }); L.cover(rep, a);
      for (const e of a.events) {
        if (e.kind !== 'sm' || e.name === 'setState') continue;
        if (new Query(e.st).infeasible()) continue; n++;
        rep.ob(`${c.name}.${a.name}:${e.name}`, !T.contains(e.sm, G), L.at(e), 'the shared state machine is loaded in the same call before it is used', 'uses whatever state an earlier call left behind');
      }
      for (const r of a.rs) if (T.contains(r.v, G)) rep.ob(`${c.name}.${a.name}:result`, false, L.prog().loc(fd.src), 'no result depends on the state an earlier call left behind', T.pp(r.v).slice(0, 200));
    }
    const ret = (name, want, what, filter) => { const a = L.entry(c, name, { raise: true }); const k = `${c.name}.${name}`; let m = 0; for (const r of a.rs) { const q = new Query(r.st); if (q.infeasible() || (filter && !filter(r))) continue; m++; rep.ob(k, q.check(cx => want(cx, r, a)), L.prog().loc(a.fd.src), what, T.pp(r.v).slice(0, 200)); } rep.floor(k, m, 1, 'reachable exits'); };
    ret('getParticipants', (cx, r, a) => cx.eq(r.v, partsOf(a.args[0], a.args[1])), 'the participants reported are those of the stored state of the fork');
    ret('getNextToWrite', (cx, r, a) => cx.eq(r.v, T.app('nextToWrite', a.args[1])), 'the next writer reported is that of the given state');
    ret('executeStateTransitionOnState', (cx, r, a) => r.v.op === 'tuple' && (cx.holds(r.v.args[0]) ? cx.eq(r.v.args[1], T.app('trans', a.args[1], a.args[2])) && cx.holds(T.app('transOk', a.args[1], a.args[2])) : cx.holds(T.not(r.v.args[0])) && cx.holds(T.not(T.app('transOk', a.args[1], a.args[2])))), 'a transition is executed on the given state and reported faithfully');
  }
  rep.floor('sm', n, 8, 'state machine uses');
}
// ---- C23 exits are paid once
function C23(rep) {
  let n = 0, pay = 0;
  for (const c of L.managers()) for (const a of C.allEntries(c)) {
    L.cover(rep, a); const k = `${c.name}.${a.name}`;
    const exitsLoc = e => { const v = e.vs[1]; return v && v.op === 'idx' && v.args[0].op === 'fld' && v.args[0].val === 'processExits' && L.where(v.args[0]).root === L.role('disputes') ? v : null; };
    // what is paid
    for (const e of a.events) {
      if (e.kind !== 'hook' || !/remove/i.test(e.name)) continue;
      const q = new Query(e.st); if (q.infeasible() || q.eq(SENDER, SELF)) continue;
      n++;
      const v = exitsLoc(e);
      if (v) {
        const D = v.args[0].args[0];
        pay++;
        rep.ob(`${k}:paid-expired`, q.check(cx => cx.holds(T.lt(F(D, 'deadlineTimestamp'), now)) || cx.eq(F(D, 'channelId'), T.ZERO)), L.at(e), 'exits of a dispute are paid only after its challenge period', '');
        rep.ob(`${k}:paid-channel`, q.check(cx => cx.eq(T.idx(T.root(L.role('disputes')), e.vs[0]), D)), L.at(e), 'an exit is paid for the channel of its dispute', '');
      } else rep.ob(`${k}:paid-agreed`, a.name === 'leaveChannelWithAgreement' && e.vs[1].op === 'app' && e.vs[1].val === 'removeExit', L.at(e), 'an exit is paid only from an expired dispute or an agreed removal', T.pp(e.vs[1]).slice(0, 200));
    }
    // paid completely, then forgotten
    for (const r of a.rs) {
      const q = new Query(r.st); if (q.infeasible()) continue;
      for (const t of S.traceList(r.st.trace)) {
        if (t.kind !== 'loop') continue;
        const info = t.info;
        const hs = info.alts.flatMap(al => D2.traceSince(al.st, info.h)).filter(x => x.kind === 'hook' && /remove/i.test(x.name));
        const h = hs.find(x => exitsLoc(x)); if (!h) continue;
        const list = exitsLoc(h).args[0];
        rep.ob(`${k}:paid-all`, info.ind && info.ind.init === T.ZERO && info.alts.every(al => D2.traceSince(al.st, info.h).filter(x => x.kind === 'hook' && /remove/i.test(x.name) && exitsLoc(x) && exitsLoc(x).args[1] === info.ind.phi).length === 1) && fullRange(q, info, T.fld(list, 'length')), L.prog().loc(info.node.src), 'every exit of the expired dispute is paid exactly once', '');
        let cleared = false;
        for (const w of storeChain(r.st, info.base.store)) if (w.kind === 'w') { const rel = S.relation(w.loc, T.fld(list, 'length')); if ((rel === 'same' || rel === 'above') && (w.val === T.ZERO || w.val.op === 'struct' || (w.val.op === 'arr' && !w.val.args.length))) cleared = true; }
        rep.ob(`${k}:cleared`, cleared, L.prog().loc(info.node.src), 'paid exits are removed from the record before the call ends', '');
      }
      // forgetting exits requires having paid them or the dispute still being open
      const paidLists = S.traceList(r.st.trace).filter(t => t.kind === 'loop').flatMap(t => t.info.alts.flatMap(al => D2.traceSince(al.st, t.info.h)).filter(x => x.kind === 'hook' && exitsLoc(x)).map(x => exitsLoc(x).args[0]));
      for (const w of storeChain(r.st)) {
        if (w.kind !== 'w') continue;
        const D = L.where(w.loc); if (D.root !== L.role('disputes') || !D.steps.length) continue;
        const list = F(D.steps[0], 'processExits'); const rel = S.relation(w.loc, T.fld(list, 'length'));
        if (!(rel === 'same' || rel === 'above') || !(w.val === T.ZERO || w.val.op === 'struct' || (w.val.op === 'arr' && !w.val.args.length))) continue;
        rep.ob(`${k}:no-loss`, paidLists.includes(list) || q.check(cx => cx.holds(T.lt(now, F(D.steps[0], 'deadlineTimestamp'))) || cx.eq(T.fld(list, 'length'), T.ZERO)), L.prog().loc(a.fd.src), 'exits are never dropped unpaid', T.pp(w.loc));
      }
    }
  }
  rep.floor('exits', n, 3, 'reachable exit payments'); rep.floor('paid', pay, 2, 'payments from an expired dispute');
}
// loop info covers 0..len
function fullRange(q, info, len) {
  const st = info.it.exits.concat(info.it.brk); if (info.it.brk.length || !info.ind) return false;
  return info.it.exits.every(s => new Query(s).given(T.le(T.ZERO, info.ind.phi)).holds(T.le(T.sub(len, info.ind.phi), T.ZERO)));
}
module.exports = { forAll, checkAll, emits, storeChain, noDispute, partsOf, accepts, fullRange, D0, trusted, elems, copied };
const r = (run, rule) => ({ run, level: 'proof', trusted, rule });
module.exports.rules = {
  C02: r(C02, 'every write to the fork counter, fork states and fork start times, in every entry point, is matched by one announcement with equal channel, fork and state; the counter term equals its old value plus one'),
  C04: r(C04, 'at every reachable dispute-created event the listed facts hold on every path'),
  C05: r(C05, 'at every reachable challenge event the listed facts hold on every path'),
  C14: r(rep => membership(rep, 'join'), 'at every reachable fork creation the agreement facts hold on every path; no revert is reachable with a fully agreed request'),
  C15: r(rep => membership(rep, 'leave'), 'at every reachable fork creation the agreement facts hold on every path; no revert is reachable with a fully agreed request'),
  C18: r(C18, 'every normal exit of publishing is dominated by signature, authorship and time facts and stores, indexes and announces the block; no other entry writes published blocks'),
  C19: r(C19, 'every deposit, exit or membership operation outside the governed entries is dominated by caller == manager'),
  C20: r(C20, 'the state-machine value at every use is derived from a load in the same call; query results equal the state machine applied to the requested state'),
  C23: r(C23, 'every exit payment is dominated by expiry (or is the agreed removal), pays the whole list once and is followed by clearing; no list is cleared unpaid'),
};
