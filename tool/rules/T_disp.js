'use strict';
// Disputes on the client: fraud proofs and the dispute handler.
const L = require('./tlib'), X = require('./tspec');
const { T, S, Query, F, par, run, fieldOf, ts, AM, op, P } = L;
const { lt, le, not, eq, ne, fork, height, author, table, encBlk, decBlk, keccak, rd, trace } = X;
const U = T.UNDEF, PMG = 'ProofManager', DH = 'DisputeHandler';
const PT = n => L.enumOf('ProofType', n);
const tyOf = X.lazy(() => { const m = {}; for (const n of ['FoldRechallenge', 'DoubleSign', 'IncorrectData', 'NewerState', 'FoldPriorBlock', 'BlockTooFarInFuture']) { const r = run(PMG, 'decodeProof', { args: [PT(n), par('e')] }); const v = r.res.filter(x => !new Query(x.st).infeasible()); m[n] = v.length === 1 && v[0].v.op === 'app' && v[0].v.val === 'unabi' && v[0].v.args[1] === par('e') ? v[0].v.args[0] : T.sym('?' + n); } return m; });
const fnOf = n => { const d = P.fns.get(n); return d; };
const dec = (n, e) => T.app('unabi', tyOf()[n], e);
const D = par('d');
const lastOf = d => { const v = F(d, 'virtualVotingBlocks'); return height(decBlk(F(T.idx(v, T.sub(X.len(v), T.ONE)), 'encodedBlock'))); };
const noVotes = d => eq(X.len(F(d, 'virtualVotingBlocks')), T.ZERO);
const slashed = (d, a) => T.app('includes', F(d, 'slashedParticipants'), a);
const groups = {};
// ---- usefulness of a proof against a dispute: alternatives (conjunctions) for "useful" and for "useless"
const USE = {
  FoldRechallenge: (p, d) => { const b = decBlk(F(dec('FoldRechallenge', p), 'encodedBlock')); const c = [eq(height(b), F(d, 'foldedTransactionCnt')), eq(author(b), F(d, 'timedoutParticipant'))]; return { yes: [c], no: c.map(t => [not(t)]) }; },
  DoubleSign: (p, d) => { const l = F(dec('DoubleSign', p), 'doubleSigns'); const ex = (cx, neg) => cx.terms(t => t.op === 'app' && t.val === 'exists' && cx.eq(t.args[0], X.len(l))).some(t => { const [, v, body] = t.args; return eqv(cx, body, not(slashed(d, author(decBlk(F(T.idx(l, v), 'block1', 'encodedBlock')))))) && cx.holds(neg ? not(t) : t); }); return { yes: [cx => ex(cx, false)], no: [cx => ex(cx, true)] }; },
  IncorrectData: (p, d) => { const s = slashed(d, author(decBlk(F(dec('IncorrectData', p), 'block2', 'encodedBlock')))); return { yes: [[not(s)]], no: [[s]] }; },
  NewerState: (p, d) => { const x = dec('NewerState', p), b = decBlk(F(x, 'encodedBlock')), who = T.app('recover', keccak(encBlk(b)), F(x, 'confirmationSignature')), newer = lt(lastOf(d), height(b)); const A = [eq(who, F(d, 'postedStateDisputer')), cx => cx.holds(not(slashed(d, who))) || cx.holds(not(slashed(d, F(d, 'postedStateDisputer'))))]; return { yes: [[...A, noVotes(d)], [...A, newer]], no: [[not(A[0])], [slashed(d, who)], [slashed(d, F(d, 'postedStateDisputer'))], [not(noVotes(d)), not(newer)]] }; },
  FoldPriorBlock: (p, d) => { const c = [lt(F(dec('FoldPriorBlock', p), 'transactionCnt'), F(d, 'foldedTransactionCnt')), ne(F(d, 'timedoutParticipant'), L.ZERO_ADDR)]; return { yes: [c], no: c.map(t => [not(t)]) }; },
  BlockTooFarInFuture: (p, d) => { const b = decBlk(F(dec('BlockTooFarInFuture', p), 'block1', 'encodedBlock')), c = [lt(T.sym('now'), X.hdr(b, 'timestamp')), not(slashed(d, author(b)))]; return { yes: [c], no: c.map(t => [not(t)]) }; },
};
const eqv = (cx, a, b) => a === b || cx.eq(a, b) || T.canon && T.canon(a) === T.canon(b);
groups.filter = rep => {
  const pf = par('pf');
  const r = run(PMG, 'filterValidProofs', { args: [D, pf], front: { opaque: L.abs('AgreementManager') } });
  L.cover(rep, r);
  const w = L.where(r.decl);
  const k = {}; let n = 0;
  for (const x of r.res) {
    const q = new Query(x.st); if (q.infeasible()) continue;
    const v = S.snapshot(x.st.store, x.v);
    if (v.op === 'arr' && v.args.length === 0) { rep.ob('filter:none', q.check(cx => cx.eq(pf, U) || cx.holds(eq(X.len(pf), T.ZERO))), w, 'no proofs are used only if there are none', L.facts(x.st)); continue; }
    const okShape = v.op === 'app' && v.val === 'filter' && q.check(cx => cx.eq(v.args[0], pf));
    rep.ob('filter:shape', okShape, w, 'the proofs to use are a selection, in order, of the recorded proofs', T.pp(v).slice(0, 200));
    if (!okShape) continue;
    n++;
    const el = T.idx(pf, v.args[1]), body = v.args[2], enc = F(el, 'encodedProof');
    for (const name of Object.keys(USE)) {
      const spec = USE[name](enc, D);
      let hitY = 0, hitN = 0;
      for (const s0 of x.st.assume(eq(F(el, 'proofType'), PT(name)))) {
        for (const s of s0.assume(body)) { const qq = new Query(s); if (qq.infeasible()) continue; hitY++; const ok = qq.check(cx => X.anyOf(cx, spec.yes, s)); rep.ob(`filter:${name}:kept`, ok, w, 'a recorded proof is used against a dispute only if it is useful there (' + name + ')', ok ? '' : L.facts(s).slice(-300)); }
        for (const s of s0.assume(not(body))) { const qq = new Query(s); if (qq.infeasible()) continue; hitN++; const ok = qq.check(cx => X.anyOf(cx, spec.no, s)); rep.ob(`filter:${name}:dropped`, ok, w, 'a recorded proof is left out only if it is useless against the dispute (' + name + ')', ok ? '' : L.facts(s).slice(-300)); }
      }
      rep.ob(`filter:${name}:both`, hitY > 0 && hitN > 0, w, 'both decisions are possible for this kind of proof', `${hitY}/${hitN}`);
    }
  }
  rep.floor('filter', n, 1, 'selections of proofs');
};
// ---- creation of proofs
const isProof = (st, v, name, chk) => cx => { if (!cx.eq(fieldOf(st, v, 'proofType'), PT(name))) return false; const e = S.snapshot(st.store, fieldOf(st, v, 'encodedProof')); return e.op === 'app' && e.val === 'abi' && cx.eq(e.args[0], tyOf()[name]) && chk(cx, n => sel(st, e.args[1], n)); };
const sel = (st, o, n) => { const x = st.simp(S.select(st.store, o, n, null)); return x; };
const prow = (n, name, when, chk) => ({ n, when, ret: (cx, st, v) => isProof(st, v, name, chk)(cx) });
const run1 = (m, args, o) => run(PMG, m, Object.assign({ args, front: { opaque: L.abs('AgreementManager') } }, o || {}));
groups.create = rep => {
  const f = par('f'), h = par('h'), a = par('a'), sb = par('sb'), sbs = par('sbs');
  const gb = AM('getBlock', f, h);
  table(rep, 'proof:timeoutAnswered', run1('createFoldRechallengeProof', [f, h]), { rows: [
    { n: 'no proof', ret: U, when: [[eq(gb, U)], [not(AM('didEveryoneSignBlock', gb))]] },
    prow('proof', 'FoldRechallenge', [[ne(gb, U), AM('didEveryoneSignBlock', gb)]], (cx, g) => cx.eq(g('encodedBlock'), encBlk(gb)) && cx.eq(g('signatures'), AM('getSigantures', gb))),
  ], thr: undefined, rule: 'a timeout is answered exactly with a stored block at that position which everybody signed, and all its signatures' });
  const ls = AM('getLatestSignedBlockByParticipant', f, a), lh = height(F(ls, 'block'));
  table(rep, 'proof:newer', run1('createNewerStateProof', [f, a, h]), { rows: [
    { n: 'no proof', ret: U, when: [[eq(ls, U)], [ne(ls, U), le(lh, h)]] },
    prow('proof', 'NewerState', [[ne(ls, U), lt(h, lh)]], (cx, g) => cx.eq(g('encodedBlock'), encBlk(F(ls, 'block'))) && cx.eq(g('confirmationSignature'), F(ls, 'signature'))),
  ], thr: undefined, rule: 'a withheld newer block is claimed exactly when the latest stored block the poster signed is newer than the posted one, and the proof carries that block and signature' });
  const ds = x => AM('getDoubleSignedBlock', x);
  table(rep, 'proof:doubleSign', run1('createDoubleSignProof', [sbs]), { rows: [prow('proof', 'DoubleSign', [() => true], (cx, g) => pairs(cx, g('doubleSigns'), sbs, ds))], thr: undefined, rule: 'a double-sign proof pairs each given block that has a stored counterpart with that counterpart' });
  const b = decBlk(F(sb, 'encodedBlock')), hb = height(b), pb = AM('getBlock', fork(b), T.sub(hb, T.ONE)), gen = AM('getForkGenesisStateEncoded', fork(b)), pst = AM('getEncodedState', fork(b), T.sub(hb, T.ONE)), ps = AM('getOriginalSignature', pb);
  table(rep, 'proof:incorrect', run1('createIncorrectDataProof', [sb]), { rows: [
    prow('first block', 'IncorrectData', [le(hb, T.ZERO)], (cx, g) => cx.eq(g('block1'), sb) && cx.eq(g('block2'), sb) && (cx.eq(g('encodedState'), gen) || (cx.eq(gen, U) && T.isStr(g('encodedState'))))),
    { n: 'later block', when: [[lt(T.ZERO, hb), ne(pb, U)]], ret: (cx, st, v) => isProof(st, v, 'IncorrectData', (c, g) => c.eq(g('block2'), sb) && c.eq(g('encodedState'), pst) && c.eq(sel(st, g('block1'), 'encodedBlock'), encBlk(pb)) && c.eq(sel(st, g('block1'), 'signature'), ps))(cx) },
  ], thr: (cx, st, x) => x.v.op === 'sym' || (cx.holds(lt(T.ZERO, hb)) && (cx.eq(pb, U) || cx.eq(ps, U) || cx.eq(pst, U) || [pb, ps, pst].some(t => cx.terms(z => z === t).length > 0))), rule: 'an incorrect block is accused with the block it builds on, the signature of that block and the state it led to (the fork\'s first state for the first block)' });
  table(rep, 'proof:future', run1('createBlockTooFarInFutureProof', [sb]), { rows: [prow('proof', 'BlockTooFarInFuture', [() => true], (cx, g) => cx.eq(g('block1'), sb))], thr: undefined, rule: 'a far-future proof carries the accused block' });
  table(rep, 'proof:prior', run1('createFoldPriorBlockProof', [h]), { rows: [prow('proof', 'FoldPriorBlock', [() => true], (cx, g) => cx.eq(g('transactionCnt'), h))], thr: undefined, rule: 'a prior-block proof carries the position' });
};
// the sequence of pairs (given block, stored counterpart), for those that have one
function pairs(cx, v, src, ds) {
  if (v.op === 'flatmap' || (v.op === 'app' && v.val === 'flatmap')) {
    const [a, lam, body] = v.args; const el = T.idx(src, lam), c = ds(el);
    if (!cx.eq(a, src)) return false;
    const has = new Query(cx.items.concat([S.lit(ne(c, U))])), no = new Query(cx.items.concat([S.lit(eq(c, U))]));
    const isPair = t => t.op === 'arr' && t.args.length === 1 && pairOf(t.args[0], el, c, cx);
    const pick = (q, t) => t.op === 'ite' ? (q.check(z => z.holds(t.args[0])) ? pick(q, t.args[1]) : q.check(z => z.holds(not(t.args[0]))) ? pick(q, t.args[2]) : null) : t;
    const y = pick(has, body), n = pick(no, body);
    return !!y && isPair(y) && !!n && n.op === 'arr' && n.args.length === 0;
  }
  return false;
}
const pairOf = (t, a, b, cx) => t.op === 'struct' && fld(t, 'block1') && cx.eq(fld(t, 'block1'), a) && cx.eq(fld(t, 'block2'), b);
const fld = (t, n) => { const i = (t.names || []).indexOf(n); return i >= 0 ? t.args[i] : (T.fld(t, n).op !== 'fld' ? T.fld(t, n) : null); };
// ---- the dispute handler
const DF = re => T.fld(T.root(DH), X.fieldByType(DH, re));
const disputes = () => DF(/^Map<.*DisputeStruct>$/), proofsOf = () => DF(/^Map<.*ProofStruct\[\]>$/), marked = () => DF(/^Map<.*boolean>$/);
const sgn = () => T.fld(T.root(DH), 'signerAddress'), chan = () => T.fld(T.root(DH), 'channelId');
const OPQ = () => L.abs('AgreementManager', 'ProofManager');
const go = (m, args, o) => run(DH, m, Object.assign({ args, front: { opaque: OPQ(), trace: new Set(['chain', 'retry', 'hook']) } }, o || {}));
const PM = (m, ...a) => op(PMG, m, ...a);
const rdm = (st, map, k) => { const v = st.simp(S.select(st.store, map, null, k)); return v.op === 'dflt' ? U : v; };
const isMarked = (cx, st, f) => cx.eq(rdm(st, marked(), f), T.TRUE);
const votes = (f) => AM('getFinalizedAndLatestWithVotes', f, sgn());
const is0 = (cx, st, m, k, v) => cx.eq(rdm(st, m, k), v);
// the application is told once before each transaction about a dispute
const told = (cx, st) => { const t = trace(st), n = t.filter(e => e.kind === 'hook' && e.name === 'onInitiatingDispute').length, m = t.filter(e => e.kind === 'chain' && /^(create|challenge)Dispute$/.test(e.m)).length;
  return n === m + 1 || cx.terms(z => z.op === 'fld' && z.val === 'onInitiatingDispute').some(z => cx.eq(z, U)); };
// every challenge sent, wherever: about the recorded dispute, its revision, with its useful proofs and our best state
function challenges(rep, r, key) {
  const es = L.evs(r, 'chain', e => e.m === 'challengeDispute');
  rep.floor(key + ':challenges', es.length, 1, 'challenges sent');
  for (const e of es) {
    const q = new Query(e.st); if (q.infeasible()) continue;
    const [c, f, rev, pf, vb, fin, cor] = e.args, a = votes(f);
    const ok = q.check(cx => { const d = rdm(e.st, disputes(), f); const list = S.snapshot(e.st.store, rdm(e.st, proofsOf(), f)); const sel = PM('filterValidProofs', d, list);
      return cx.eq(c, chan()) && cx.eq(f, F(d, 'forkCnt')) && cx.eq(rev, F(d, 'challengeCnt')) && cx.eq(pf, sel) && cx.holds(ne(X.len(sel), T.ZERO)) && cx.eq(vb, F(a, 'virtualVotingBlocks')) && cx.eq(fin, F(a, 'encodedLatestFinalizedState')) && cx.eq(cor, F(a, 'encodedLatestCorrectState')); });
    rep.ob(`${key}:told`, q.check(cx => told(cx, e.st)), L.at(e), 'the application is told once before each challenge', trace(e.st).map(t => t.kind + ':' + (t.m || t.name || '')).join(' '));
    rep.ob(`${key}:challenge`, ok, L.at(e), 'a challenge names the recorded dispute and its revision and carries exactly the useful proofs (at least one), our votes and our states', ok ? '' : e.args.map(t => T.pp(t).slice(0, 80)).join(', '));
  }
  for (const e of L.evs(r, 'mapset', e => e.map === disputes())) {
    const q = new Query(e.pre); if (q.infeasible()) continue;
    const old = rdm(e.pre, disputes(), e.key);
    rep.ob(`${key}:newer`, q.check(cx => cx.eq(e.key, F(e.v, 'forkCnt')) && (cx.eq(old, U) || cx.holds(lt(F(old, 'challengeCnt'), F(e.v, 'challengeCnt'))))), L.at(e), 'the recorded dispute of a fork is only replaced by a later revision of it', L.facts(e.pre).slice(-200));
  }
  for (const e of L.evs(r, 'mapdel', e => [disputes(), marked(), proofsOf()].includes(e.map)).concat(L.evs(r, 'mapclear', e => [disputes(), marked(), proofsOf()].includes(e.map)))) rep.ob(`${key}:kept`, false, L.at(e), 'recorded disputes, proofs and disputed forks are never dropped', '');
  for (const e of L.evs(r, 'mapset', e => e.map === marked())) rep.ob(`${key}:mark`, e.v === T.TRUE, L.at(e), 'a disputed fork never becomes undisputed', T.pp(e.v));
}
// expected additions to the recorded proofs of the fork when dispute d becomes known
function additions(cx, d) {
  const f = F(d, 'forkCnt'), out = [];
  const zero = eq(F(d, 'timedoutParticipant'), L.ZERO_ADDR), fp = PM('createFoldRechallengeProof', f, F(d, 'foldedTransactionCnt'));
  if (cx.holds(not(zero)) && cx.holds(ne(fp, U))) out.push(fp); else if (!(cx.holds(zero) || cx.eq(fp, U))) return null;
  const last = cx.holds(noVotes(d)) ? T.num(-1) : cx.holds(not(noVotes(d))) ? lastOf(d) : null; if (!last) return null;
  const np = PM('createNewerStateProof', f, F(d, 'postedStateDisputer'), last);
  if (cx.holds(ne(np, U))) out.push(np); else if (!cx.eq(np, U)) return null;
  return out;
}
function listIs(cx, st, f, add) {
  const v = rdm(st, proofsOf(), f), old = T.idx(proofsOf(), f);
  if (cx.eq(old, U)) { if (!add.length) return cx.eq(v, U) || cx.eq(X.rd(st, T.fld(v, 'length')), T.ZERO); return cx.eq(st.simp(S.select(st.store, v, 'length', null)), T.num(add.length)) && add.every((a, i) => cx.eq(st.simp(S.select(st.store, v, null, T.num(i))), a)); }
  if (!cx.holds(ne(old, U))) return !add.length && cx.eq(v, old) ;
  const n0 = T.fld(old, 'length');
  return cx.eq(st.simp(S.select(st.store, v, 'length', null)), T.add(n0, T.num(add.length))) && add.every((a, i) => cx.eq(st.simp(S.select(st.store, v, null, T.add(n0, T.num(i)))), a));
}
groups.dispute = rep => {
  const f = F(D, 'forkCnt'), old = T.idx(disputes(), f);
  const r = go('onDispute', [D]);
  const chainE = st => trace(st).filter(e => e.kind === 'chain');
  const newer = cx => cx.eq(old, U) || cx.holds(lt(F(old, 'challengeCnt'), F(D, 'challengeCnt')));
  const upd = (cx, st) => isMarked(cx, st, f);
  const known = (cx, st) => { const a = additions(cx, D); return a && listIs(cx, st, f, a) && is0(cx, st, disputes(), f, D); };
  const useful = (cx, st) => PM('filterValidProofs', D, S.snapshot(st.store, rdm(st, proofsOf(), f)));
  const asked = (cx, st) => { const c = chainE(st); const i = c.findIndex(e => e.m === 'getDispute'); return i >= 0 && i <= 1 && (i === 0 || c[0].m === 'challengeDispute') && cx.eq(c[i].args[0], F(D, 'channelId')) && c.length === i + 1; };
  table(rep, 'onDispute', r, { rows: [
    { n: 'already known', when: [[ne(old, U), le(F(D, 'challengeCnt'), F(old, 'challengeCnt'))]], fx: (cx, st) => upd(cx, st) && chainE(st).length === 0 && is0(cx, st, disputes(), f, old) },
    { n: 'nothing to object', when: [(cx, st) => newer(cx) && cx.holds(eq(X.len(useful(cx, st)), T.ZERO))], fx: (cx, st) => upd(cx, st) && known(cx, st) && chainE(st).length === 0 },
    { n: 'challenged', when: [(cx, st) => newer(cx) && cx.holds(ne(X.len(useful(cx, st)), T.ZERO))], fx: (cx, st) => upd(cx, st) && known(cx, st) && asked(cx, st) },
  ], thr: (cx, st) => upd(cx, st), rule: 'a dispute seen on chain marks its fork disputed; a new revision is recorded and, if a recorded or newly found proof is useful, challenged; older revisions are ignored' });
  const attempts = L.evs(r, 'chain', e => e.m === 'challengeDispute').length;
  challenges(rep, r, 'onDispute');
  // after a challenge the chain is asked again and the next revision is examined, unless nothing moved
  const rec = L.evs(r, 'recurse');
  rep.floor('onDispute:again', rec.length, 1, 'examinations of the next revision');
  for (const e of rec) { const q = new Query(e.st); if (q.infeasible()) continue; const d2 = e.raw[0]; rep.ob('onDispute:next', q.check(cx => e.raw.length >= 1 && d2.op === 'sym' && /getDispute/.test(String(d2.val)) && cx.holds(ne(F(d2, 'challengeCnt'), F(D, 'challengeCnt')))), L.at(e), 'the dispute examined next is the one the chain reports, and it is another revision', T.pp(d2).slice(0, 80)); }
};
groups.create2 = rep => {
  const [fk, p, n, pf] = ['fk', 'who', 'pos', 'pf'].map(par);
  const r = go('createDispute', [fk, p, n, pf]);
  L.cover(rep, r);
  const old = T.idx(disputes(), fk), w = L.where(r.decl), ch = st => trace(st).filter(e => e.kind === 'chain'), a = votes(fk);
  for (const e of L.evs(r, 'chain', e => e.m === 'createDispute')) {
    const q = new Query(e.st); if (q.infeasible()) continue;
    const ok = q.check(cx => cx.eq(old, U) && isMarked(cx, e.st, fk) && [chan(), fk, F(a, 'encodedLatestFinalizedState'), F(a, 'encodedLatestCorrectState'), F(a, 'virtualVotingBlocks'), p, n, pf].every((t, i) => cx.eq(e.args[i], t)));
    rep.ob('createDispute:told', q.check(cx => told(cx, e.st)), L.at(e), 'the application is told once before a dispute is opened', '');
    rep.ob('createDispute:sent', ok, L.at(e), 'a new dispute is sent only if none is known for the fork, after marking it, and carries our finalized and latest state, our votes, the timed-out party and position and the given proofs', ok ? '' : e.args.map(t => T.pp(t).slice(0, 60)).join(', '));
  }
  let k = 0;
  for (const x of r.res.concat(r.thr)) {
    const q = new Query(x.st); if (q.infeasible()) continue;
    k++;
    const thrown = r.thr.includes(x);
    const ok = q.check(cx => { const c = ch(x.st), made = c.some(e => e.m === 'createDispute'), at = c.findIndex(e => e.m === 'getDispute');
      if (!isMarked(cx, x.st, fk)) return thrown && c.length === 0 && x.v.op === 'sym' && false;
      if (thrown) return !made || cx.eq(old, U);
      return (made ? cx.eq(old, U) : cx.holds(ne(old, U))) && at >= 0 && cx.eq(c[at].args[0], chan()) && cx.holds(ne(F(c[at].ret || retSym(cx), 'channelId'), T.str('0x' + '0'.repeat(64)))); });
    rep.ob('createDispute:outcome' + (ok ? '' : ':' + X.label(x)), ok, w, 'the fork is marked disputed whatever happens; a dispute is sent exactly if none was known; it succeeds only if the chain then reports a dispute', ok ? '' : L.facts(x.st).slice(0, 300) + ' :: ' + ch(x.st).map(e => e.m));
  }
  rep.floor('createDispute:outcomes', k, 2, 'outcomes');
  // the given proofs are recorded
  const its = L.evs(r, 'iter', e => [...e.info.phis.keys()].some(ph => T.some ? true : true));
  let rec = 0;
  for (const e of its) { if (e.how !== 'cont') continue; const q = new Query(e.st); if (q.infeasible()) continue; const ph = [...e.info.phis.keys()]; const list = rdm(e.st, proofsOf(), fk);
    const ok = q.check(cx => { const ln = e.st.simp(S.select(e.st.store, list, 'length', null)); return ph.some(i => cx.eq(e.st.simp(S.select(e.st.store, list, null, T.sub(ln, T.ONE))), T.idx(pf, i))); });
    if (ok) rec++;
    rep.ob('createDispute:recorded', ok, L.at(e), 'every given proof is recorded for later revisions of the dispute', ''); }
  rep.floor('createDispute:record', rec, 1, 'given proofs recorded');
  for (const x of r.res) { const q = new Query(x.st); if (q.infeasible()) continue; const ok = q.check(cx => cx.alls.some(z => cx.eq(z.lo, T.ZERO) && cx.eq(z.hi, X.len(pf))) || cx.holds(eq(X.len(pf), T.ZERO))); rep.ob('createDispute:all', ok, w, 'all the given proofs are recorded', ''); }
  challenges(rep, r, 'createDispute');
};
const retSym = cx => { const t = cx.terms(z => z.op === 'sym' && /getDispute/.test(String(z.val)))[0]; return t || T.sym('?'); };
groups.accuse = rep => {
  const sb = par('sb'), sbs = par('sbs'), fk = par('fk'), h = par('h');
  const CD = (front, I, st, self, args, cx, src) => { if (!I.stack.length) return null; I.raise(st, T.sym('err:createDispute'), { src }); const a = args.map(v => S.snapshot(st.store, v)); return [{ st: front.tr(I, st, 'call', src, { callee: 'createDispute', args: a, raw: args }), v: T.UNDEF }]; };
  const go2 = (m, args, assume) => run(DH, m, { args, assume: assume && [assume], front: { opaque: Object.assign({}, OPQ(), { 'DisputeHandler.createDispute': CD }), trace: true } });
  const one = t => (cx, v) => v.op === 'arr' && v.args.length === 1 && cx.eq(v.args[0], t);
  const acc = (f, t) => (cx, st) => X.bag(cx, st, [(c, e) => e.kind === 'call' && e.callee === 'createDispute' && c.eq(e.args[0], f) && c.eq(e.args[1], L.ZERO_ADDR) && c.eq(e.args[2], T.ZERO) && one(t)(c, e.args[3])]);
  const rule = 'an accusation opens a dispute of the fork of the accused block, without timing anyone out, with the matching proof';
  const b0 = decBlk(F(T.idx(sbs, T.ZERO), 'encodedBlock')), b = decBlk(F(sb, 'encodedBlock'));
  table(rep, 'accuse:doubleSign', go2('disputeDoubleSign', [sbs], lt(T.ZERO, X.len(sbs))), { rows: [{ n: 'disputed', fx: acc(fork(b0), PM('createDoubleSignProof', sbs)) }], rule });
  table(rep, 'accuse:incorrect', go2('disputeIncorrectData', [sb]), { rows: [{ n: 'disputed', fx: acc(fork(b), PM('createIncorrectDataProof', sb)) }], rule });
  table(rep, 'accuse:future', go2('disputeBlockTooFarInFuture', [sb]), { rows: [{ n: 'disputed', fx: acc(fork(b), PM('createBlockTooFarInFutureProof', sb)) }], rule });
  table(rep, 'accuse:prior', go2('disputeFoldPriorBlock', [fk, h]), { rows: [{ n: 'disputed', fx: acc(fk, PM('createFoldPriorBlockProof', h)) }], rule });
  const p = PM('createFoldRechallengeProof', fk, h);
  table(rep, 'accuse:rechallenge', go2(named(['disputeFoldRechallenge', 'disputeFoldRechallange', 'disputeFoldRechellenge']), [fk, h]), { rows: [{ n: 'disputed', when: [ne(p, U)], fx: acc(fk, p) }, { n: 'nothing to prove', when: [eq(p, U)], fx: (cx, st) => X.bag(cx, st, []) }], rule });
};
const named = l => L.methodsOf(DH).map(d => d.name.getText()).find(n => l.includes(n) || /^disputeFoldRe/.test(n));
groups.marks = rep => {
  const f = par('f');
  const r = run(DH, 'isForkDisputed', { args: [f] }); const v = T.idx(marked(), f);
  table(rep, 'isForkDisputed', r, { bool: true, rows: [{ n: 'yes', ret: T.TRUE, when: [[ne(v, U), v], [v]] }, { n: 'no', ret: T.FALSE, when: [[eq(v, U)], [not(v)]] }], thr: [], rule: 'a fork is reported disputed exactly if it was marked' });
};
module.exports = { groups, tyOf, USE, dec, rules: {} };
