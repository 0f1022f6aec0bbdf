'use strict';
// Client bookkeeping: forks, agreements, signatures, queues, chain records, finality.
const L = require('./tlib'), X = require('./tspec');
const { T, S, Query, F, par, run, fieldOf, ts, P } = L;
const { FORKS, LEN, FK, AGR, AG, CB, len, lt, le, not, eq, ne, has, hasNot, hasFork, noFork, same, fork, height, author, recover, signers, sigs, forall, table, encBlk, decBlk } = X;
const b = par('block'), f = par('forkCnt'), h = par('transactionCnt'), sg = par('signature'), pt = par('participant');
const A = 'AgreementManager';
const inChain = b => [...has(fork(b), height(b)), same(fork(b), height(b), b)];
const notInChain = b => [...hasNot(fork(b), height(b)), [ne(F(AG(fork(b), height(b)), 'block'), b)]];
const U = T.UNDEF;
const frame = (cx, st) => true;
const noWrite = r => (cx, st) => X.unchanged(st, r.front.base, [FORKS(), X.BLOCKQ(), X.CONFQ()]);
const go = (m, args) => run(A, m, { args });
const optAddr = v => v; 

const groups = {};
// ---- what is stored, and where
groups.store = rep => {
  { const r = go('newFork', [par('g'), par('ps'), f, par('ts')]);
    const nf = (st, n) => fieldOf(st, X.rd(st, T.idx(FORKS(), LEN())), n);
    table(rep, 'newFork', r, { rows: [
      { n: 'appended', when: [[eq(f, LEN())]], fx: (cx, st) => cx.eq(X.rd(st, LEN()), T.add(LEN(), T.ONE)) && cx.eq(nf(st, 'forkGenesisStateEncoded'), par('g')) && cx.eq(nf(st, 'addressesInThreshold'), par('ps')) && cx.eq(nf(st, 'genesisTimestamp'), par('ts')) && isEmpty(st, nf(st, 'chainBlocks')) && isEmpty(st, nf(st, 'agreements')) },
      { n: 'ignored', when: [[ne(f, LEN())]], fx: noWrite(r) } ], thr: [], rule: 'a fork is appended exactly when it carries the next number, with the given genesis state, participants and timestamp and an empty history' }); }
  { const r = go('addBlock', [b, sg, par('enc')]);
    const arr = AGR(fork(b)), el = (st, n) => fieldOf(st, X.rd(st, T.idx(arr, len(arr))), n);
    table(rep, 'addBlock', r, { rows: [
      { n: 'appended', when: hasNot(fork(b), height(b)).slice(1).map(a => [lt(fork(b), LEN()), ...a]), fx: (cx, st) => cx.eq(X.rd(st, len(arr)), T.add(len(arr), T.ONE)) && cx.eq(el(st, 'block'), b) && cx.eq(el(st, 'encodedState'), par('enc')) && cx.eq(S.select(st.store, el(st, 'blockSignatures'), 'length', null), T.ONE) && cx.eq(S.select(st.store, el(st, 'blockSignatures'), null, T.ZERO), sg) } ],
      thr: [{ n: 'occupied', when: [...noFork(fork(b)), has(fork(b), height(b))], fx: noWrite(r), optional: true }], rule: 'a block is appended to its own fork, with its author signature and resulting state, unless its place is taken' }); }
  { const r = go('confirmBlock', [b, sg]);
    const l = sigs(fork(b), height(b));
    table(rep, 'confirmBlock', r, { rows: [
      { n: 'added', when: [[...inChain(b), not(T.app('includes', l, sg))]], fx: (cx, st) => cx.eq(X.rd(st, len(l)), T.add(len(l), T.ONE)) && cx.eq(X.rd(st, T.idx(l, len(l))), sg) } ],
      thr: (cx, st) => noWrite(r)(cx, st), rule: 'a confirmation is appended once, to the stored block it confirms' }); }
};
const isEmpty = (st, v) => { const n = S.select(st.store, v, 'length', null); return T.isNum(n) && n.val === 0n; };
// nothing else writes the fork history: every mutation found in the class bodies is one of the appends above
groups.frame = rep => {
  const ALLOWED = { newFork: 'forks', addBlock: 'agreements', confirmBlock: 'signatures', collectOnChainBlock: 'chain' };
  let n = 0;
  for (const c of ['AgreementManager', 'ForkService', 'BlockValidator', 'OnChainTracker', 'QueueService', 'SignatureService']) for (const d of L.methodsOf(c)) {
    if (d.asteriskToken) continue;
    const nm = d.name.getText(); let r;
    r = run(c, d); L.cover(rep, r); n++;
    for (const e of r.events) {
      if (e.kind !== 'write' && e.kind !== 'mapset' && e.kind !== 'mapdel' && e.kind !== 'mapclear' && e.kind !== 'take') continue;
      const loc = e.loc || e.map; if (!loc) continue;
      const rel = S.relation(loc, FORKS()); if (rel === 'disjoint') continue;
      const ok = e.kind === 'write' && appendOnly(loc) && (e.push || extended(e, loc));
      rep.ob(`frame:${c}.${nm}:${e.kind}${ok ? '' : ':' + L.at(e)}`, ok, L.at(e), 'the fork history only ever grows by appends to its lists', ok ? '' : T.pp(loc).slice(0, 200));
    }
  }
  rep.floor('frame', n, 30, 'methods searched for writes to the fork history');
  // the rest of the client reaches the history through objects handed out by these classes
  const fields = new Set(['forkGenesisStateEncoded', 'addressesInThreshold', 'genesisTimestamp', 'chainBlocks', 'agreements', 'blockSignatures', 'encodedState']);
  let seen = 0;
  for (const sf of P.files) (function v(nd) {
    const t = mutatedTarget(nd);
    if (t) {
      let x = t; while (ts.isElementAccessExpression(x) || ts.isNonNullExpression(x) || ts.isParenthesizedExpression(x)) x = x.expression;
      if (ts.isPropertyAccessExpression(x) && fields.has(x.name.text) && declaredIn(x, /agreementManager\/types\.ts$/)) {
        seen++;
        const longer = r => ts.isArrayLiteralExpression(r) && r.elements.length > 1 && ts.isSpreadElement(r.elements[0]) && r.elements[0].expression.getText() === t.getText() || ts.isCallExpression(r) && ts.isPropertyAccessExpression(r.expression) && r.expression.name.text === 'concat' && r.expression.expression.getText() === t.getText();
        const ok = ts.isCallExpression(nd) && nd.expression.name && nd.expression.name.text === 'push' || ts.isBinaryExpression(nd) && nd.operatorToken.kind === L.K.EqualsToken && longer(nd.right);
        rep.ob(`mut:${L.where(nd).replace(/:\d+$/, '')}:${x.name.text}${ok ? '' : ':' + nd.getText().slice(0, 40)}`, ok, L.where(nd), 'records of the fork history are only appended to', nd.getText().slice(0, 120));
      }
    }
    ts.forEachChild(nd, v);
  })(sf);
  rep.floor('mutations', seen, 2, 'mutations of fork records found');
};
const appendOnly = loc => { const d = S.decompose(loc); const last = d.steps[d.steps.length - 1]; return last && last.op === 'fld' && (loc === FORKS() || ['agreements', 'chainBlocks', 'blockSignatures'].includes(last.val)); };
// the list is replaced by a longer one that starts with everything it held
const extended = (e, loc) => {
  if (!e.v || !e.pre || e.v.op !== 'ref') return false;
  const n0 = X.rd(e.pre, T.fld(loc, 'length')), old = S.snapshot(e.pre.store, loc);
  for (let w = e.st.store; w.prev; w = w.prev) {
    if (S.relation(w.loc, e.v) === 'disjoint' || w.loc === T.fld(e.v, 'length')) continue;
    if (w.loc === e.v) return w.kind === 'w' && (w.val === old || w.val === loc);
    const d = w.loc.op === 'idx' && w.loc.args[0] === e.v ? T.sub(w.loc.args[1], n0) : null;
    if (w.kind !== 'w' || !d || !T.isNum(d) || d.val < 0n) return false;
  }
  return false;
};
function declaredIn(x, re) { const s = P.ck.getSymbolAtLocation(x.name); return !!s && (s.declarations || []).some(d => re.test(d.getSourceFile().fileName)); }
const MUT = new Set(['push', 'pop', 'shift', 'unshift', 'splice', 'sort', 'reverse', 'fill', 'copyWithin']);
function mutatedTarget(n) {
  if (ts.isBinaryExpression(n) && n.operatorToken.kind >= L.K.FirstAssignment && n.operatorToken.kind <= L.K.LastAssignment) return n.left;
  if ((ts.isPrefixUnaryExpression(n) || ts.isPostfixUnaryExpression(n)) && (n.operator === L.K.PlusPlusToken || n.operator === L.K.MinusMinusToken)) return n.operand;
  if (ts.isDeleteExpression(n)) return n.expression;
  if (ts.isCallExpression(n) && ts.isPropertyAccessExpression(n.expression) && MUT.has(n.expression.name.text)) return n.expression.expression;
  return null;
}
// ---- lookups
groups.lookup = rep => {
  const q = (m, args, rows, o) => { const r = go(m, args); table(rep, m, r, Object.assign({ rows: rows.map(x => Object.assign({ fx: noWrite(r) }, x)), thr: undefined, bool: true }, o || {})); return r; };
  q('hasFork', [], [{ n: 'yes', ret: T.TRUE, when: [[lt(T.ZERO, LEN())]] }, { n: 'no', ret: T.FALSE, when: [[eq(LEN(), T.ZERO)]] }]);
  q('isNextFork', [f], [{ n: 'yes', ret: T.TRUE, when: [[eq(LEN(), f)]] }, { n: 'no', ret: T.FALSE, when: [[ne(LEN(), f)]] }]);
  q('getLatestForkCnt', [], [{ n: 'last', ret: T.sub(LEN(), T.ONE), when: [[le(T.ONE, LEN())]] }, { n: 'none', ret: T.ZERO, when: [[le(LEN(), T.ONE)]] }], { bool: false });
  const last = T.sub(LEN(), T.ONE);
  q('getNextBlockHeight', [], [{ n: 'length', ret: len(AGR(last)), when: [[le(T.ONE, LEN())]] }, { n: 'none', ret: T.ZERO, when: [[eq(LEN(), T.ZERO)], [eq(FK(last), U)], [eq(len(AGR(last)), U)]] }], { bool: false });
  q('isParticipantInLatestFork', [pt], [
    { n: 'yes', ret: T.TRUE, when: [[lt(T.ZERO, LEN()), T.app('includes', F(FK(last), 'addressesInThreshold'), pt)]] },
    { n: 'no', ret: T.FALSE, when: [[eq(LEN(), T.ZERO)], [eq(FK(last), U)], [not(T.app('includes', F(FK(last), 'addressesInThreshold'), pt))]] }]);
  const part = (m, fld) => q(m, [f, h], [{ n: 'found', ret: F(AG(f, h), fld), when: [has(f, h)] }, { n: 'absent', ret: U, when: hasNot(f, h) }], { bool: false });
  part('getBlock', 'block'); part('getEncodedState', 'encodedState');
  // before the first position (computed by subtraction) there is nothing
  const hd = T.sub(par('p'), par('q'));
  for (const [m, fld] of [['getBlock', 'block'], ['getEncodedState', 'encodedState']]) { const r = go(m, [f, hd]); table(rep, m + ':before', r, { rows: [{ n: 'found', ret: F(AG(f, hd), fld), when: [[le(T.ZERO, hd), ...has(f, hd)]], fx: noWrite(r) }, { n: 'absent', ret: U, when: [...hasNot(f, hd), [lt(hd, T.ZERO)]], fx: noWrite(r) }], thr: undefined, rule: 'before the first position nothing is found' }); }
  q('getForkGenesisStateEncoded', [f], [{ n: 'found', ret: F(FK(f), 'forkGenesisStateEncoded'), when: [hasFork(f)] }, { n: 'absent', ret: U, when: noFork(f) }], { bool: false });
  q('isBlockInChain', [b], [{ n: 'yes', ret: T.TRUE, when: [inChain(b)] }, { n: 'no', ret: T.FALSE, when: notInChain(b) }]);
  q('getSigantures', [b], [
    { n: 'found', ret: sigs(fork(b), height(b)), when: [has(fork(b), height(b))] },
    { n: 'absent', ret: (cx, st, v) => cx.eq(S.select(st.store, v, 'length', null), T.ZERO), when: [...hasNot(fork(b), height(b)), [eq(sigs(fork(b), height(b)), U)]] }], { bool: false });
  q('doesSignatureExist', [b, sg], [
    { n: 'yes', ret: T.TRUE, when: [[...inChain(b), T.app('includes', sigs(fork(b), height(b)), sg)]] },
    { n: 'no', ret: T.FALSE, when: [...hasNot(fork(b), height(b)), [...inChain(b), not(T.app('includes', sigs(fork(b), height(b)), sg))]] }], { refuse: cx => cx.holds(has(fork(b), height(b))[0]) && X.anyOf(cx, notInChain(b)) });
  const sl = sigs(fork(b), height(b)), stored = F(AG(fork(b), height(b)), 'block');
  const signedBy = (who, v) => (cx, st) => { const x = typeof v === 'function' ? v(st) : v; return elemOf(cx, x, sl) && cx.eq(T.app('recover', X.keccak(encBlk(stored)), x), who); };
  const noneBy = who => cx => forall(cx, len(sl), k => ne(T.app('recover', X.keccak(encBlk(stored)), T.idx(sl, k)), who)) || cx.eq(len(sl), T.ZERO);
  const dps = { yes: (cx, st, v) => cx.holds(fieldOf(st, v, 'didSign')) && signedBy(pt, fieldOf(st, v, 'signature'))(cx, st), no: (cx, st, v) => cx.eq(fieldOf(st, v, 'didSign'), T.FALSE) };
  q('didParticipantSign', [b, pt], [
    { n: 'signed', ret: dps.yes, when: [inChain(b)] },
    { n: 'not', ret: dps.no, when: [...notInChain(b), (cx, st) => X.holdsAll(cx, inChain(b)) && noneBy(pt)(cx)] }], { bool: false });
  q('getOriginalSignature', [b], [
    { n: 'found', ret: (cx, st, v) => signedBy(author(b), v)(cx, st), when: [has(fork(b), height(b))] },
    { n: 'absent', ret: U, when: [...hasNot(fork(b), height(b)), cx => noneBy(author(b))(cx)] }], { bool: false });
  const thr = F(FK(fork(b)), 'addressesInThreshold');
  const lam = T.sym('λ1');
  q('getParticipantsWhoHaventSignedBlock', [b], [
    { n: 'rest', ret: (cx, st, v) => missing(cx, S.snapshot(st.store, v), thr, signersOf(stored, sl)), when: [has(fork(b), height(b))] },
    { n: 'absent', ret: (cx, st, v) => cx.eq(S.select(st.store, v, 'length', null), T.ZERO), when: [...hasNot(fork(b), height(b))] }], { bool: false });
  // the evidence of a double signature: the block stored at that place, by the same author, with that author's signature
  const nb = decBlk(F(par('sb'), 'encodedBlock')), st0 = F(AG(fork(nb), height(nb)), 'block'), s0 = sigs(fork(nb), height(nb));
  q('getDoubleSignedBlock', [par('sb')], [
    { n: 'evidence', ret: (cx, st, v) => cx.eq(fieldOf(st, v, 'encodedBlock'), encBlk(st0)) && elemOf(cx, fieldOf(st, v, 'signature'), s0) && cx.eq(T.app('recover', X.keccak(encBlk(st0)), fieldOf(st, v, 'signature')), author(nb)), when: [[...has(fork(nb), height(nb)), ne(st0, nb), eq(author(st0), author(nb))]] },
    { n: 'none', ret: U, when: [...hasNot(fork(nb), height(nb)), [eq(st0, nb)], [ne(author(st0), author(nb))], cx => forall(cx, len(s0), k => ne(T.app('recover', X.keccak(encBlk(st0)), T.idx(s0, k)), author(nb)))] }], { bool: false });
};
const signersOf = (blk, sl) => T.mk('maparr', [len(sl), T.sym('λ1'), T.app('recover', X.keccak(encBlk(blk)), T.idx(sl, T.sym('λ1')))]);
// v is an element of list l
function elemOf(cx, v, l) { const c = cx.canon(v); for (const x of [v, c]) if (x.op === 'idx' && (x.args[0] === l || cx.eq(x.args[0], l)) && cx.holds(lt(x.args[1], len(l)))) return true; return cx.holds(T.app('includes', l, v)); }
// v = the elements of `all` that are not in `some`
function missing(cx, v, all, some) {
  if (v.op === 'app' && v.val === 'filter') {
    const [l, k, body] = v.args;
    const el = T.idx(l, k);
    return cx.eq(l, all) && (body === not(T.app('includes', T.substMany(some, new Map()), el)) || cx.eq(body, not(T.app('includes', some, el))));
  }
  if (v.op === 'app' && (v.val === 'setdiff' || v.val === 'elems')) { const d = v.val === 'elems' ? v.args[0] : v; return d.op === 'app' && d.val === 'setdiff' && cx.eq(d.args[0], T.app('set', all)) && cx.eq(d.args[1], T.app('set', some)); }
  return false;
}
// ---- the latest block a participant signed: walk back from the newest, stop at the first hit
groups.latestSigned = rep => {
  const r = go('getLatestSignedBlockByParticipant', [f, pt]);
  const walk = walkBack(rep, 'latestSigned', r, AGR(f));
  const rec = (k, s) => T.app('recover', X.keccak(encBlk(F(AG(f, k), 'block'))), s);
  table(rep, 'latestSigned', r, { rows: [
    { n: 'found', ret: (cx, st, v) => { const bl = fieldOf(st, v, 'block'), s = fieldOf(st, v, 'signature'); const k = idxOf(cx, bl, f); return !!k && elemOf(cx, s, sigs(f, k)) && cx.eq(rec(k, s), pt); }, when: [[lt(f, LEN())]] },
    { n: 'none', ret: U, when: [] , fx: () => true } ].map(x => x.when.length ? x : Object.assign(x, { when: undefined })), thr: undefined });
  for (const e of walk.cont) rep.ob(`latestSigned:skip:${L.at(e)}`, new Query(e.st).check(cx => forall(cx, len(sigs(f, walk.at)), k => ne(rec(walk.at, T.idx(sigs(f, walk.at), k)), pt))), L.at(e), 'an older block is looked at only if the participant did not sign the newer one', L.facts(e.st));
};
const idxOf = (cx, bl, f) => { const t = cx.canon(bl); for (const x of [bl, t]) if (x.op === 'fld' && x.val === 'block' && x.args[0].op === 'idx' && x.args[0].args[0] === AGR(f)) return x.args[0].args[1]; return null; };
// the loop that walks `arr` from its newest element to its oldest, one by one
function walkBack(rep, key, r, arr) {
  let found = null;
  for (const [phi, info] of r.I.loopByPhi) {
    const p = info.phis.get(phi); if (!p || !p.init) continue;
    const off = T.sub(p.init, T.sub(len(arr), T.ONE)); if (!T.isNum(off)) continue;
    const at = T.sub(phi, off); // the position visited in this round
    const steps = info.alts.every(a => a.next && a.next(phi) === T.sub(phi, T.ONE)), ends = info.it.exits.every(e => new Query(e).holds(lt(at, T.ZERO)));
    if (steps && ends) found = { phi, at, info };
  }
  rep.ob(`${key}:walk`, !!found, L.where(r.decl), 'the history of the fork is walked from the newest block to the oldest without skipping', '');
  return found ? { phi: found.phi, at: found.at, info: found.info, cont: r.events.filter(e => e.kind === 'iter' && e.info === found.info && e.how === 'cont') } : { phi: T.sym('none'), at: T.sym('none'), cont: [] };
}

// ---- finality
const thrOf = f => F(FK(f), 'addressesInThreshold');
groups.everyone = rep => {
  const r = go('didEveryoneSignBlock', [b]);
  const cond = T.app('subset', T.app('set', thrOf(fork(b))), T.app('set', signersOf(b, sigs(fork(b), height(b)))));
  table(rep, 'everyone', r, { bool: true, rows: [
    { n: 'yes', ret: T.TRUE, when: [[...inChain(b), cond]] },
    { n: 'no', ret: T.FALSE, when: [...notInChain(b), ...noFork(fork(b)), [...inChain(b), not(cond)]] } ], thr: undefined, rule: 'a block counts as signed by everyone exactly when it is the stored block and the recovered signers of its signatures cover every participant of its fork' });
};
groups.votes = rep => {
  const s = par('signer');
  const r = run(A, 'getFinalizedAndLatestWithVotes', { args: [f, s] });
  const w = L.where(r.decl);
  const walk = walkBack(rep, 'votes', r, AGR(f));
  if (!walk.info) return;
  const K = walk.at, info = walk.info;
  const role = { }; const setThr = T.app('set', thrOf(f));
  for (const [p, m] of info.phis) { if (p === walk.phi) continue; if (m.init === setThr) role.R = p; else if (m.kind === 'loc' && m.init && m.init.op === 'ref') role.V = p; else if (m.init === U) role.C = p; }
  rep.ob('votes:accumulators', role.R && role.V && role.C, w, 'the walk accumulates the latest state the signer signed, the participants still missing, and the virtual votes', [...info.phis].map(([p, m]) => T.pp(p) + '=' + (m.init ? T.pp(m.init).slice(0, 60) : '?')).join('; '));
  if (!(role.R && role.V && role.C)) return;
  const a = AG(f, K), sl = sigs(f, K), sg = signersOf(F(a, 'block'), sl), enc = F(a, 'encodedState');
  const signed = T.app('includes', sg, s);
  const falsy = v => [[eq(v, U)], [eq(v, T.str(''))], [eq(v, T.NULL)]], truthy = v => [[ne(v, U), ne(v, T.str(''))]];
  const R2 = T.app("setdiff", role.R, T.app("set", sg)), R2n = F(R2, "size");
  const isVote = (cx, v, st) => v.op === 'app' && v.val === 'prepend' && cx.eq(fieldOf(st, v.args[0], 'encodedBlock'), encBlk(F(a, 'block'))) && cx.eq(fieldOf(st, v.args[0], 'signatures'), sl) && (v.args[1] === role.V || (v.args[1].op === 'snap'));
  const C2 = (cx, c) => (X.anyOf(cx, truthy(role.C)) && cx.eq(c, role.C)) || (X.anyOf(cx, falsy(role.C)) && (cx.holds(signed) ? cx.eq(c, enc) : cx.holds(not(signed)) && cx.eq(c, role.C)));
  let n = 0;
  info.alts.forEach((al, i) => {
    const q = new Query(al.items); if (q.infeasible()) return; n++;
    const c = al.next(role.C), R = al.next(role.R), v = al.next(role.V);
    const st = al.st || walk.cont[0].st;
    const ok = q.check(cx => C2(cx, c) && (
      (X.anyOf(cx, falsy(c)) && cx.eq(R, role.R) && cx.eq(v, role.V)) ||
      (X.anyOf(cx, truthy(c)) && cx.eq(R, R2) && isVote(cx, v, st) && cx.holds(ne(R2n, T.ZERO)))));
    rep.ob(`votes:step${ok ? '' : ':' + i}`, ok, w, 'each older block either precedes the latest one the signer signed, or is prepended to the votes with all its signatures and its recovered signers removed from the missing participants; the walk stops as soon as none is missing', ok ? '' : al.items.filter(x => x.k === 'lit').map(x => T.pp(x.t).slice(0, 100)).join(' & '));
  });
  rep.floor('votes:step', n, 2, 'iteration cases of the walk');
  const gen = F(FK(f), 'forkGenesisStateEncoded');
  const orGen = (cx, v, x) => (X.anyOf(cx, [[ne(x, U)]]) && cx.eq(v, x)) || (cx.eq(x, U) && cx.eq(v, gen));
  table(rep, 'votes', r, { rows: [
    { n: 'final', fx: (cx, st, x) => { const fin = fieldOf(st, x.v, 'encodedLatestFinalizedState'), cor = fieldOf(st, x.v, 'encodedLatestCorrectState'); return cx.eq(R2n, T.ZERO) && orGen(cx, fin, enc) && (orGen(cx, cor, enc) || orGen(cx, cor, role.C)); } },
    { n: 'open', fx: (cx, st, x) => { const fin = fieldOf(st, x.v, 'encodedLatestFinalizedState'), cor = fieldOf(st, x.v, 'encodedLatestCorrectState'); return !cx.holds(eq(R2n, T.ZERO)) && !cx.holds(le(T.ZERO, K)) /* left through the loop's own end, which walkBack shows lies before the oldest block, not from inside a round */ && cx.eq(fin, gen) && (cx.eq(cor, gen) || okSigned(cx, cor, f, s)); } },
  ].map(x => Object.assign(x, { optional: x.n === 'open' })), thr: undefined, refuse: cx => X.anyOf(cx, noFork(f)), rule: 'the finalized state is that of the newest block whose signature chain covers every participant, and otherwise the genesis state of the fork' });
};
const okSigned = (cx, v, f, s) => { const t = cx.canon(v); for (const x of [v, t]) if (x.op === 'fld' && x.val === 'encodedState' && x.args[0].op === 'idx' && x.args[0].args[0] === AGR(f)) { const k = x.args[0].args[1]; return cx.holds(T.app('includes', signersOf(F(AG(f, k), 'block'), sigs(f, k)), s)); } return false; };

// ---- queues
const sel = (st, m, ...ks) => ks.reduce((o, k) => st.simp(S.select(st.store, o, null, k)), m);
const Q = X.BLOCKQ, CQ = X.CONFQ;
const at3 = (q, b) => T.idx(T.idx(T.idx(q, fork(b)), height(b)), author(b));
const queued = b => [ne(T.idx(Q(), fork(b)), U), ne(T.idx(T.idx(Q(), fork(b)), height(b)), U), ne(at3(Q(), b), U), eq(F(at3(Q(), b), 'encodedBlock'), encBlk(b))];
const notQueued = b => [[eq(T.idx(Q(), fork(b)), U)], [eq(T.idx(T.idx(Q(), fork(b)), height(b)), U)], [eq(at3(Q(), b), U)], [ne(F(at3(Q(), b), 'encodedBlock'), encBlk(b))]];
const undecodable = x => x.v.op === 'sym' && ['badabi', 'badsig'].includes(x.v.val);
groups.queue = rep => {
  const sb = par('sb'), nb = decBlk(F(sb, 'encodedBlock'));
  { const r = go('queueBlock', [sb]);
    table(rep, 'queueBlock', r, { rows: [{ n: 'queued', fx: (cx, st) => cx.eq(sel(st, Q(), fork(nb), height(nb), author(nb)), sb) && onlyUnder(r, st, Q()) }], thr: (cx, st, x) => undecodable(x) && X.unchanged(st, r.front.base, [Q(), CQ(), FORKS()]), rule: 'a block set aside is kept under its fork, height and author' }); overwrites(rep, 'queueBlock', r, Q()); }
  { const c = par('bc'), cb = decBlk(F(c, 'originalSignedBlock', 'encodedBlock'));
    const who = T.app('recover', X.keccak(encBlk(cb)), F(c, 'confirmationSignature'));
    const r = go('queueConfirmation', [c]);
    table(rep, 'queueConfirmation', r, { rows: [{ n: 'queued', fx: (cx, st) => cx.eq(sel(st, CQ(), fork(cb), height(cb), who), c) && onlyUnder(r, st, CQ()) }], thr: (cx, st, x) => undecodable(x) && X.unchanged(st, r.front.base, [Q(), CQ(), FORKS()]), rule: 'a confirmation set aside is kept under its fork, height and confirmer' }); overwrites(rep, 'queueConfirmation', r, CQ()); }
  for (const [m, q] of [['tryDequeueBlocks', Q()], ['tryDequeueConfirmations', CQ()]]) {
    const r = go(m, [f, h]);
    const slot = T.idx(T.idx(q, f), h);
    table(rep, m, r, { rows: [
      { n: 'taken', ret: (cx, st, v) => cx.eq(S.snapshot(st.store, v), T.app('mapvals', slot)), when: [[ne(T.idx(q, f), U), ne(slot, U)]], fx: (cx, st) => cx.eq(sel(st, q, f, h), U) && onlyUnder(r, st, q) },
      { n: 'none', ret: (cx, st, v) => cx.eq(S.select(st.store, v, 'length', null), T.ZERO), when: [[eq(T.idx(q, f), U)], [eq(slot, U)]], fx: (cx, st) => !writesBelow(r, st, q) } ], thr: [], rule: 'what was set aside for a fork and height is handed out once and all of it' });
    for (const e of r.events) if (['mapdel', 'mapclear'].includes(e.kind)) { const loc = e.kind === 'mapdel' ? T.idx(e.map, e.key) : e.map; rep.ob(`${m}:only:${L.at(e)}`, loc === slot || new Query(e.st).eq(loc, slot), L.at(e), 'only the entries handed out are removed', T.pp(loc).slice(0, 120)); }
  }
};
const writesBelow = (r, st, q) => { for (let e = st.store; e && e.prev && e !== r.front.base.store; e = e.prev) if (S.relation(e.loc, q) !== 'disjoint') return true; return false; };
// the path wrote nothing outside queue q (fresh objects aside)
const onlyUnder = (r, st, q) => { for (let e = st.store; e && e.prev && e !== r.front.base.store; e = e.prev) { const d = S.decompose(e.loc); if (d.base.op === 'ref') continue; if (S.relation(e.loc, q) === 'disjoint') return false; } return true; };
// an inner map is created only where none exists yet, so nothing already set aside is lost
function overwrites(rep, key, r, q) {
  let n = 0;
  for (const e of r.events) if (e.kind === 'mapset') {
    const loc = T.idx(e.map, e.key); n++;
    if (e.v.op === 'ref') rep.ob(`${key}:fresh:${L.at(e)}`, new Query(e.pre).check(cx => cx.eq(e.pre.simp(S.select(e.pre.store, e.map, null, e.key)), U)), L.at(e), 'a new inner table is installed only where there is none, so nothing set aside earlier is lost', L.facts(e.pre));
    if (e.map === q || S.relation(e.map, q) !== 'disjoint') continue;
  }
  rep.floor(key, n, 1, 'insertions');
}
// ---- the verdict on a block against the stored history
const flag = n => L.enumOf('AgreementFlag', n);
groups.verdict = rep => {
  const sb = par('sb'), nb = decBlk(F(sb, 'encodedBlock'));
  const ok = eq(T.app('recover', X.keccak(encBlk(nb)), F(sb, 'signature')), author(nb));
  const fk = fork(nb), ht = height(nb), prev = T.sub(ht, T.ONE), st = F(AG(fk, ht), 'block');
  const ndup = cx => X.anyOf(cx, notInChain(nb)) && X.anyOf(cx, notQueued(nb));
  const absent = cx => X.anyOf(cx, [...hasNot(fk, ht), [eq(st, U)]]) && cx.holds(lt(fk, LEN()));
  const genH = T.app('keccak', F(FK(fk), 'forkGenesisStateEncoded')), psh = F(nb, 'previousStateHash'), pH = F(AG(fk, prev), 'block', 'stateHash');
  for (const m of ['checkBlock']) {
    const r = run(A, m, { args: [sb] });
    table(rep, m, r, { rows: [
      { n: 'bad signature', ret: flag('INVALID_SIGNATURE'), when: [[not(ok)]] },
      { n: 'duplicate', ret: flag('DUPLICATE'), when: [[ok, ...inChain(nb)], [ok, ...queued(nb)]] },
      { n: 'unknown fork', ret: flag('NOT_READY'), when: [[ok, le(LEN(), fk), ndup], cx => cx.holds(ok) && ndup(cx) && absent(cx) && cx.holds(ne(ht, T.ZERO)) && X.anyOf(cx, [...hasNot(fk, prev), [eq(F(AG(fk, prev), 'block'), U)]])] },
      { n: 'double sign', ret: flag('DOUBLE_SIGN'), when: [[ok, ndup, ...has(fk, ht), ne(st, nb), eq(author(st), author(nb))]] },
      { n: 'conflict', ret: flag('INCORRECT_DATA'), when: [[ok, ndup, ...has(fk, ht), ne(st, nb), ne(author(st), author(nb))], [ok, ndup, absent, eq(ht, T.ZERO), ne(psh, genH)], [ok, ndup, absent, ne(ht, T.ZERO), ...has(fk, prev), ne(psh, pH)]] },
      { n: 'fits', ret: flag('READY'), when: [[ok, ndup, absent, eq(ht, T.ZERO), eq(psh, genH)], [ok, ndup, absent, ne(ht, T.ZERO), ...has(fk, prev), eq(psh, pH)]] },
    ], thr: undefined, rule: 'the verdict on a block depends on its signature, on what is stored or set aside at its place, and on the state it builds on, exactly as specified' });
  }
  { const r = go('isBlockDuplicate', [b]);
    table(rep, 'isBlockDuplicate', r, { bool: true, rows: [{ n: 'yes', ret: T.TRUE, when: [inChain(b), queued(b)] }, { n: 'no', ret: T.FALSE, when: [cx => X.anyOf(cx, notInChain(b)) && X.anyOf(cx, notQueued(b))] }], thr: undefined }); }
};
// ---- records of blocks published on the chain
groups.chainRec = rep => {
  const sb = par('sb'), nb = decBlk(F(sb, 'encodedBlock')), ts0 = par('timestamp');
  const posted = (f, h, who) => { const l = CB(f), k = T.sym('λ1'); return T.app('exists', len(l), k, T.and(eq(h, F(T.idx(l, k), 'transactionCnt')), eq(who, F(T.idx(l, k), 'participantAdr')))); };
  { const r = go('didParticipantPostOnChain', [f, h, pt]);
    table(rep, 'posted', r, { bool: true, rows: [{ n: 'yes', ret: T.TRUE, when: [[...hasFork(f), posted(f, h, pt)]] }, { n: 'no', ret: T.FALSE, when: [...noFork(f), [...hasFork(f), not(posted(f, h, pt))]] }], thr: undefined, rule: 'a participant counts as having published a height exactly when a record with that height and address exists' }); }
  { // the verdict on the block is an operation here; its own rule is separate
    const chk = (front, I, st, self, args, cx, src) => [{ st, v: T.app('verdict', ...args) }];
    const r = run(A, 'collectOnChainBlock', { args: [sb, ts0], front: { opaque: { 'BlockValidator.check': chk } } });
    const v = T.app('verdict', sb), fk = fork(nb), p = posted(fk, height(nb), author(nb)), l = CB(fk);
    const bad = [flag('INVALID_SIGNATURE'), flag('INCORRECT_DATA'), flag('DOUBLE_SIGN')], q = [flag('READY'), flag('NOT_READY')];
    const el = (st, n) => fieldOf(st, X.rd(st, T.idx(l, len(l))), n);
    const recorded = (cx, st) => cx.eq(X.rd(st, len(l)), T.add(len(l), T.ONE)) && cx.eq(el(st, 'transactionCnt'), height(nb)) && cx.eq(el(st, 'participantAdr'), author(nb)) && cx.eq(el(st, 'timestamp'), ts0);
    const unrec = (cx, st) => X.unchanged(st, r.front.base, [FORKS()]);
    const isQ = (cx, st) => cx.eq(sel(st, Q(), fk, height(nb), author(nb)), sb), unQ = (cx, st) => X.unchanged(st, r.front.base, [Q(), CQ()]);
    const rest = cx => [...bad, ...q].every(x => cx.holds(ne(v, x)));
    table(rep, 'collect', r, { rows: [
      { n: 'evidence', ret: v, when: bad.map(x => [eq(v, x)]), fx: (cx, st) => unrec(cx, st) && unQ(cx, st) },
      { n: 'queued, recorded', ret: v, when: q.map(x => [eq(v, x), ...hasFork(fk), not(p)]), fx: (cx, st) => isQ(cx, st) && recorded(cx, st) },
      { n: 'queued, already recorded', ret: v, when: q.map(x => [eq(v, x), p]).concat(q.flatMap(x => noFork(fk).map(a => [eq(v, x), ...a]))), fx: (cx, st) => isQ(cx, st) && unrec(cx, st) },
      { n: 'known, recorded', ret: v, when: [[rest, ...hasFork(fk), not(p)]], fx: (cx, st) => unQ(cx, st) && recorded(cx, st) },
      { n: 'known, already recorded', ret: v, when: [[rest, p], ...noFork(fk).map(a => [rest, ...a])], fx: (cx, st) => unQ(cx, st) && unrec(cx, st) },
    ], thr: undefined, rule: 'a published block is evidence, or is recorded once with its publication time and set aside for execution if not known yet; the verdict is passed on' }); }
};
// ---- timestamps
groups.times = rep => {
  const mx = par('maxTx');
  const r = run(A, 'getChainLatestBlockTimestamp', { args: [f, mx] });
  runningMax(rep, 'chainLatest', r, f, mx);
  const last = T.idx(AGR(f), T.sub(len(AGR(f)), T.ONE)), lts = F(last, 'block', 'transaction', 'header', 'timestamp'), gen = F(FK(f), 'genesisTimestamp');
  const noLast = [[eq(len(AGR(f)), T.ZERO)], [eq(last, U)], [eq(lts, U)], [eq(F(last, 'block'), U)]];
  const any = (cx, l) => X.anyOf(cx, l);
  const r2 = go('getLatestBlockTimestamp', [f]);
  table(rep, 'latestBlock', r2, { rows: [
    { n: 'genesis', ret: gen, when: [[le(lts, gen)], ...noLast] }, { n: 'block', ret: lts, when: [[le(gen, lts), ne(last, U)]] }, { n: 'zero', optional: true, ret: T.ZERO, when: [[lt(gen, T.ZERO)]] }],
    thr: undefined, refuse: cx => X.anyOf(cx, noFork(f)), rule: 'the latest block time of a fork is the larger of its genesis time and the time of its newest block' });
  // the latest relevant time is the larger of the two
  const ab = { 'BlockValidator.latestBlockTimestamp': 'pure', 'OnChainTracker.latestTimestamp': 'pure' };
  const r3 = run(A, 'getLatestTimestamp', { args: [f, mx], front: { opaque: ab } });
  const x1 = L.op('BlockValidator', 'latestBlockTimestamp', f), x2 = L.op('OnChainTracker', 'latestTimestamp', f, mx);
  table(rep, 'latest', r3, { rows: [{ n: 'block', ret: x1, when: [[le(x2, x1)]] }, { n: 'chain', ret: x2, when: [[le(x1, x2)]] }], thr: undefined, rule: 'the latest relevant time is the larger of the newest block time and the newest publication time' });
};
// the value is the maximum of the timestamps of the records up to the given height, 0 if none
function runningMax(rep, key, r, f, mx) {
  const l = CB(f), w = L.where(r.decl);
  const rel = k => le(F(T.idx(l, k), 'transactionCnt'), mx), tsOf = k => F(T.idx(l, k), 'timestamp');
  const infos = [...new Set(r.I.loopByPhi.values())];
  let done = false;
  for (const info of infos) {
    const accs = [...info.phis].filter(([p, m]) => m.kind === 'var' && m.init === T.ZERO);
    const idx = accs.find(([p]) => info.alts.length && info.alts.every(a => a.next(p) === T.add(p, T.ONE)));
    const acc = accs.find(([p]) => !idx || p !== idx[0]);
    if (!idx || !acc) continue;
    done = true;
    const k = idx[0], m = acc[0];
    let n = 0;
    for (const al of info.alts) {
      const q = new Query(al.items); if (q.infeasible()) continue; n++;
      const nx = al.next(m);
      const ok = q.check(cx => (cx.eq(nx, tsOf(k)) && cx.holds(rel(k)) && cx.holds(le(m, tsOf(k)))) || (cx.eq(nx, m) && (cx.holds(not(rel(k))) || cx.holds(le(tsOf(k), m)))));
      rep.ob(`${key}:step`, ok, w, 'the running value after each record is the larger of itself and the record, records above the height limit being left out', al.items.filter(i => i.k === 'lit').map(i => T.pp(i.t).slice(0, 120)).join(' & '));
    }
    rep.floor(`${key}:step`, n, 2, 'iteration cases');
    rep.ob(`${key}:all`, info.alts.every(a => new Query(a.items).holds(lt(k, len(l)))) && r.events.every(e => !(e.kind === 'iter' && e.info === info && e.how === 'brk')), w, 'every record of the fork is visited', '');
  }
  if (!done) { // a closed form: max over the filtered list
    rep.ob(`${key}:all`, r.res.length > 0 && r.res.every(x => isMaxForm(x, l, mx)), w, 'the value is the maximum over the records up to the height limit', r.res.map(X.label).join(' | '));
  }
}
const isMaxForm = () => false;
module.exports = { queued, notQueued, flag, groups, inChain, notInChain, walkBack, elemOf, signersOf, idxOf, missing, rules: {} };
