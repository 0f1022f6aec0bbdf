'use strict';
// Acceptance of blocks and confirmations (ValidationService).
const L = require('./tlib'), X = require('./tspec');
const { T, S, Query, F, par, run, fieldOf, ts, AM, op } = L;
const { lt, le, not, eq, ne, fork, height, author, table, encBlk, decBlk, keccak } = X;
const U = T.UNDEF, VS = 'ValidationService';
const EX = n => L.enumOf('ExecutionFlags', n), AF = n => L.enumOf('AgreementFlag', n);
const SMst = T.fld(L.SM, 'state');
const ctorField = (c, re) => { const d = L.cls(c).members.find(ts.isConstructorDeclaration); for (const p of d.parameters) if (p.type && re.test(p.type.getText().replace(/\s/g, ''))) return T.fld(T.root(c), p.name.getText()); throw new Error(`${c}: no constructor field of type ${re}`); };
const ctorFieldOf = ctorField;
const chanId = () => T.fld(T.root('StateManager'), 'channelId');
const OPAQUE = () => L.abs('AgreementManager', 'DisputeHandler', 'ProofManager');
const me = () => ctorField(VS, /^AddressLike$/), p2p = () => F(ctorField(VS, /^TimeConfig$/), 'p2pTime');
const fl = (st, v, n) => fieldOf(st, v, n);
const res = (flag, succ, af) => (cx, st, v) => cx.eq(fl(st, v, 'flag'), flag) && cx.eq(fl(st, v, 'success'), succ ? T.TRUE : T.FALSE) && (af === undefined || (typeof af === 'function' ? af(cx, fl(st, v, 'agreementFlag')) : cx.eq(fl(st, v, 'agreementFlag'), af)));
const groups = {};
const conds = (sb, b) => {
  const sig = F(sb, 'signature'), enc = F(sb, 'encodedBlock');
  const auth = [eq(chanId(), X.hdr(b, 'channelId')), eq(encBlk(b), enc), eq(sig, T.app('canonsig', sig)), eq(T.app('recover', keccak(encBlk(b)), sig), author(b))];
  const unauth = auth.map(t => [not(t)]);
  return { auth, unauth };
};
const canonNot = (cx, l) => X.anyOf(cx, l);
function sbTable(rep, key, given) {
  const sb = par('sb'), b = given ? par('blk') : decBlk(F(sb, 'encodedBlock'));
  const r = run(VS, 'validateSignedBlock', { args: [sb, given ? b : U], front: { opaque: OPAQUE(), trace: true }, assume: given ? [ne(b, U)] : [] });
  const { auth } = conds(sb, b);
  const fk = fork(b), ht = height(b), tsb = X.hdr(b, 'timestamp'), tx = F(b, 'transaction');
  const open = AM('hasFork'), latest = AM('getLatestForkCnt'), next = AM('getNextBlockHeight'), disputed = op('DisputeHandler', 'isForkDisputed', fk), dup = AM('isBlockDuplicate', b), isPart = AM('isParticipantInLatestFork', author(b));
  const A = cx => authHolds(cx, sb, b);
  const notA = cx => authFails(cx, sb, b);
  const live = cx => A(cx) && cx.holds(open) && cx.holds(le(latest, fk)) && cx.holds(not(disputed));
  const cur = cx => live(cx) && cx.holds(not(dup)) && cx.holds(le(fk, latest)) && cx.holds(le(ht, next)) && cx.holds(isPart);
  const nxt = cx => cur(cx) && cx.holds(le(next, ht));
  const ver = AM('checkBlock', sb);
  const lastTs = AM('getLatestBlockTimestamp', fk), ref = AM('getLatestTimestamp', fk, ht);
  const chainTs = cx => cx.terms(t => t.op === 'sym' && /getChainLatestBlockTimestamp/.test(String(t.val)));
  const goodTs = cx => cx.holds(le(lastTs, tsb)) && (cx.holds(le(tsb, T.add(ref, p2p()))) || chainTs(cx).some(c => cx.holds(le(tsb, T.add(c, p2p())))));
  const badTs = cx => cx.holds(lt(tsb, lastTs)) || (cx.holds(lt(T.add(ref, p2p()), tsb)) && chainTs(cx).some(c => cx.holds(lt(T.add(c, p2p()), tsb))));
  const cursm = SMst, mine = eq(T.app('nextToWrite', cursm), me()), now = T.sym('now');
  const inTime = cx => cx.holds(not(mine)) || (cx.holds(mine) && cx.holds(le(T.sub(now, tsb), T.num(5))) && cx.holds(le(T.num(-10), T.sub(now, tsb))));
  const turn = eq(T.app('nextToWrite', cursm), author(b));
  const post = T.app('post', cursm, tx), okT = T.app('transOk', cursm, tx);
  const hOk = [eq(keccak(post), F(b, 'stateHash')), eq(keccak(cursm), F(b, 'previousStateHash'))];
  const same = (cx, st) => cx.eq(X.rd(st, SMst), SMst);
  const quiet = (cx, st) => same(cx, st) && X.effects(st, 'call').length === 0 && X.effects(st, 'schedule').length === 0 && X.effects(st, 'detached').length === 0;
  const added = (cx, st) => { const c = X.effects(st, 'call'); return c.length === 1 && c[0].callee === 'AgreementManager.addBlock' && cx.eq(c[0].args[0], b) && cx.eq(c[0].args[1], F(sb, 'signature')) && cx.eq(c[0].args[2], post); };
  const announced = (cx, st) => { const s = X.effects(st, 'schedule'); return s.length === 1 && s[0].evs.filter(e => e.kind === 'successCallback' && cx.eq(e.tx, tx)).length === 1; };
  const accused = (cx, st) => { const d = X.effects(st, 'detached'); if (d.length !== 1) return false; const c = d[0].evs.filter(e => e.kind === 'icall' && e.callee === 'DisputeHandler.createDispute'); return c.length === 1 && cx.eq(c[0].args[0], latest) && cx.eq(c[0].args[1], L.ZERO_ADDR) && cx.eq(c[0].args[2], T.ZERO) && c[0].args[3].op === 'arr' && c[0].args[3].args.length === 1 && cx.eq(c[0].args[3].args[0], op('ProofManager', 'createBlockTooFarInFutureProof', sb)); };
  const bad = (when, fx, af) => ({ ret: res(EX('DISPUTE'), false, af), when, fx: fx || quiet });
  table(rep, key, r, { rows: [
    { n: 'not authentic', ret: res(EX('DISCONNECT'), false), when: [notA], fx: quiet },
    { n: 'not a participant', ret: res(EX('DISCONNECT'), false), when: [cx => live(cx) && cx.holds(not(dup)) && cx.holds(not(isPart)) && cx.holds(le(fk, latest)) && cx.holds(le(ht, next))], fx: quiet },
    { n: 'channel not open', ret: res(EX('NOT_READY'), false), when: [cx => A(cx) && cx.holds(not(open))], fx: quiet },
    { n: 'past or disputed fork', ret: res(EX('PAST_FORK'), false), when: [cx => A(cx) && cx.holds(open) && (cx.holds(lt(fk, latest)) || cx.holds(disputed))], fx: quiet },
    { n: 'duplicate', ret: res(EX('DUPLICATE'), false), when: [cx => live(cx) && cx.holds(dup)], fx: quiet },
    { n: 'ahead', ret: res(EX('NOT_READY'), false), when: [cx => live(cx) && cx.holds(not(dup)) && (cx.holds(lt(latest, fk)) || cx.holds(lt(next, ht)))], fx: quiet },
    Object.assign({ n: 'conflicts with a stored block' }, bad([cx => cur(cx) && cx.holds(lt(ht, next)) && [AF('DOUBLE_SIGN'), AF('INCORRECT_DATA')].some(x => cx.eq(ver, x))], quiet, (cx, v) => cx.eq(v, ver))),
    Object.assign({ n: 'bad timestamp' }, bad([cx => nxt(cx) && badTs(cx)], quiet, AF('INCORRECT_DATA'))),
    { n: 'too old to answer', ret: res(EX('NOT_ENOUGH_TIME'), false), when: [cx => nxt(cx) && goodTs(cx) && cx.holds(mine) && cx.holds(lt(T.num(5), T.sub(now, tsb)))], fx: quiet },
    Object.assign({ n: 'too far in the future' }, bad([cx => nxt(cx) && goodTs(cx) && cx.holds(mine) && cx.holds(lt(T.sub(now, tsb), T.num(-10)))], (cx, st) => same(cx, st) && accused(cx, st) && X.effects(st, 'call').length === 0, U)),
    Object.assign({ n: 'out of turn' }, bad([cx => nxt(cx) && goodTs(cx) && inTime(cx) && cx.holds(not(turn))], quiet, AF('INCORRECT_DATA'))),
    Object.assign({ n: 'wrong state' }, bad([cx => nxt(cx) && goodTs(cx) && inTime(cx) && cx.holds(turn) && (cx.holds(not(okT)) || hOk.some(h => cx.holds(not(h))))], quiet, AF('INCORRECT_DATA'))),
    { n: 'accepted', ret: res(EX('SUCCESS'), true), when: [cx => nxt(cx) && goodTs(cx) && inTime(cx) && cx.holds(turn) && cx.holds(okT) && hOk.every(h => cx.holds(h))], fx: (cx, st) => cx.eq(X.rd(st, SMst), post) && added(cx, st) && announced(cx, st) && X.effects(st, 'detached').length === 0 },
  ], thr: (cx, st, x) => x.v.op !== 'app' || same(cx, st), rule: 'a received block is accepted, executed and stored exactly under the specified conditions, and every other outcome leaves state and history untouched' });
  for (const e of r.events) if (e.kind === 'chain') rep.ob(`${key}:chain:${L.at(e)}`, new Query(e.st).check(cx => e.m === 'getChainLatestBlockTimestamp' && cx.eq(e.args[0], chanId()) && cx.eq(e.args[1], fk) && cx.eq(e.args[2], ht)), L.at(e), 'the chain is asked for the reference time of this channel, fork and height', '');
  return r;
}
// authenticity through facts as the code establishes them (signature over the received bytes or over the re-encoded block)
function authHolds(cx, sb, b) {
  const sig = F(sb, 'signature'), enc = F(sb, 'encodedBlock');
  return cx.eq(chanId(), X.hdr(b, 'channelId')) && cx.eq(encBlk(b), enc) && cx.eq(sig, T.app('canonsig', sig)) && (cx.eq(T.app('recover', keccak(enc), sig), author(b)) || cx.eq(T.app('recover', keccak(encBlk(b)), sig), author(b)));
}
function authFails(cx, sb, b) {
  const sig = F(sb, 'signature'), enc = F(sb, 'encodedBlock');
  return cx.holds(ne(chanId(), X.hdr(b, 'channelId'))) || cx.holds(ne(encBlk(b), enc)) || cx.holds(ne(sig, T.app('canonsig', sig))) || cx.holds(ne(T.app('recover', keccak(enc), sig), author(b))) || cx.holds(ne(T.app('recover', keccak(encBlk(b)), sig), author(b)));
}
groups.block = rep => { sbTable(rep, 'block', true); sbTable(rep, 'bytes', false); };
groups.confirmation = rep => {
  for (const given of [true, false]) {
    const sb = par('sb'), cs = par('confSig'), b = given ? par('blk') : decBlk(F(sb, 'encodedBlock'));
    const key = given ? 'block' : 'bytes';
    const flagV = T.sym('r:onSignedBlock');
    const osb = (front, I, st, self, args, cx, src) => { I.emit('icall', st, { src }, { callee: 'onSignedBlock', args: args.map(v => S.snapshot(st.store, v)), raw: args }); I.raise(st, T.sym('err:onSignedBlock'), { src }); return [{ st: front.tr(I, st, 'call', src, { callee: 'onSignedBlock', args: args.map(v => S.snapshot(st.store, v)) }).withX('ver', (st.x.ver || 0) + 1), v: flagV }]; };
    const r = run(VS, 'validateBlockConfirmation', { args: [sb, cs, given ? b : U], front: { opaque: Object.assign({}, OPAQUE(), { 'StateManager.onSignedBlock': osb }), trace: true }, assume: given ? [ne(b, U)] : [] });
    const fk = fork(b);
    const ver = (st, t) => { const n = st.x.ver || 0; return n ? T.app(t.val, ...t.args, T.sym('v' + n)) : t; };
    const open = AM('hasFork'), latest = AM('getLatestForkCnt'), inch = AM('isBlockInChain', b);
    const inchV = T.app('AgreementManager.isBlockInChain', b, T.sym('v1'));
    const who = T.app('recover', keccak(encBlk(b)), cs);
    const pre = cx => authHolds(cx, sb, b) && cx.holds(open) && cx.holds(le(latest, fk));
    const calls = st => X.effects(st, 'call');
    const noCalls = (cx, st) => calls(st).length === 0;
    const stored = (cx, st) => calls(st).length === 0 ? cx.holds(inch) : calls(st).length === 1 && calls(st)[0].callee === 'onSignedBlock' && cx.eq(calls(st)[0].args[0], sb) && cx.eq(calls(st)[0].args[1], b) && cx.holds(not(inch)) && (cx.eq(flagV, EX('SUCCESS')) || (cx.eq(flagV, EX('DUPLICATE')) && cx.holds(inchV)));
    const canon = eq(cs, T.app('canonsig', cs));
    const part = st => ver(st, AM('isParticipantInLatestFork', who)), dup = st => ver(st, AM('doesSignatureExist', b, cs));
    table(rep, 'confirmation:' + key, r, { rows: [
      { n: 'not authentic', ret: res(EX('DISCONNECT'), false), when: [cx => authFails(cx, sb, b)], fx: noCalls },
      { n: 'channel not open', ret: res(EX('NOT_READY'), false), when: [cx => authHolds(cx, sb, b) && cx.holds(not(open))], fx: noCalls },
      { n: 'past fork', ret: res(EX('PAST_FORK'), false), when: [cx => authHolds(cx, sb, b) && cx.holds(open) && cx.holds(lt(fk, latest))], fx: noCalls },
      { n: 'block set aside', ret: res(EX('NOT_READY'), false), when: [(cx, st) => pre(cx) && calls(st).length === 1 && cx.holds(not(inch)) && cx.eq(flagV, EX('DUPLICATE')) && cx.holds(not(inchV))] },
      { n: 'block refused', ret: (cx, st, v) => cx.eq(fl(st, v, 'flag'), flagV) && cx.eq(fl(st, v, 'success'), T.FALSE), when: [(cx, st) => pre(cx) && calls(st).length === 1 && cx.holds(not(inch)) && cx.holds(ne(flagV, EX('SUCCESS'))) && cx.holds(ne(flagV, EX('DUPLICATE')))] },
      { n: 'unusable or foreign signature', ret: res(EX('DISCONNECT'), false), when: [(cx, st) => pre(cx) && stored(cx, st) && (cx.holds(not(canon)) || (cx.holds(canon) && cx.holds(not(part(st)))))] },
      { n: 'duplicate signature', ret: res(EX('DUPLICATE'), false), when: [(cx, st) => pre(cx) && stored(cx, st) && cx.holds(canon) && cx.holds(part(st)) && cx.holds(dup(st))] },
      { n: 'accepted', ret: res(EX('SUCCESS'), true), when: [(cx, st) => pre(cx) && stored(cx, st) && cx.holds(canon) && cx.holds(part(st)) && cx.holds(not(dup(st)))] },
    ], thr: undefined, rule: 'a confirmation is accepted exactly when its block is authentic and stored, and the signature is a canonical, new one by a participant' });
  }
};
module.exports = { groups, ctorFieldOf, authHolds, authFails, ctorField, chanId, OPAQUE, EX, AF, SMst, res, rules: {} };
