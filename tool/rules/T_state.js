'use strict';
// The state manager: installing states, receiving, confirming and authoring blocks, acting on verdicts.
const L = require('./tlib'), X = require('./tspec'), V = require('./T_valid');
const { T, S, Query, F, par, run, fieldOf, ts, AM, op } = L;
const { lt, le, not, eq, ne, fork, height, author, table, encBlk, decBlk, keccak, E, bag, opt, later, verN, rd, trace } = X;
const { EX, AF, SMst, chanId } = V;
const U = T.UNDEF, SMG = 'StateManager', NOW = n => T.sym('now' + (n || ''));
const root = n => T.fld(T.root(SMG), n);
const me = () => V.ctorFieldOf(SMG, /^AddressLike$/), cfg = n => F(V.ctorFieldOf(SMG, /^TimeConfig$/), n);
const WAIT = () => T.add(T.add(cfg('p2pTime'), cfg('agreementTime')), cfg('chainFallbackTime'));
const ms = t => T.mul ? T.mul(T.num(1000), t) : t;
const layers = () => L.abs('AgreementManager', 'DisputeHandler', 'ProofManager', 'ValidationService');
const skip1 = n => (front, I, st, self, args, cx, src, decl) => { if (!I.stack.length) return null; I.raise(st, T.sym('err:' + n), { src }); const ret = I.sym({ src }, 'r_' + n), a = args.map(v => S.snapshot(st.store, v)); return [{ st: front.tr(I, st, 'call', src, { callee: n, args: a, raw: args, self, ret }).withX('ver', (st.x.ver || 0) + 1), v: ret }]; };
// a validation verdict says "success" exactly when its flag does (decided by the tables of T_valid)
const verdictOk = r => [T.or(T.and(F(r, 'success'), eq(F(r, 'flag'), EX('SUCCESS'))), T.and(not(F(r, 'success')), ne(F(r, 'flag'), EX('SUCCESS'))))];
const OPQ = o => Object.assign({}, layers(), { 'ValidationService.validateSignedBlock': { as: 'eff', post: verdictOk }, 'ValidationService.validateBlockConfirmation': { as: 'eff', post: verdictOk } }, { 'StateManager.onSignedBlock': skip1('StateManager.onSignedBlock'), 'StateManager.onBlockConfirmation': skip1('StateManager.onBlockConfirmation'), 'P2pSigner.confirmBlock': 'eff' }, o || {});
const go = (m, args, o = {}) => { const r = run(SMG, m, { args, front: { opaque: Object.assign(OPQ(), o.opaque || {}), trace: true }, assume: o.assume }); if (o.self) delete r.x; return r; };
// ---- the mutex: taken once, held around every synchronous effect, released on every way out
const held = st => { const t = trace(st), lk = t.filter(e => e.kind === 'lock'), ul = t.filter(e => e.kind === 'unlock'); return lk.length === 1 && lk[0].n === 0 && ul.length === 1 && (st.x.lock || 0) === 0 && t.indexOf(lk[0]) === 0 && t.indexOf(ul[0]) === t.length - 1; };
const smAt = st => { const t = trace(st).filter(e => e.kind === 'unlock'); return t.length ? rd(t[t.length - 1].st0 || t[t.length - 1].st, SMst) : rd(st, SMst); };
// ---- the actions after every advance: queues are drained, the turn is announced, the next writer is timed
const dequeues = (deq, run1) => later([
  { when: [() => true], fx: (cx, st) => {
    const plain = s => trace(s).filter(e => e.kind !== 'lock' && e.kind !== 'unlock'), es = plain(st), rest = es.slice(1);
    if (!(es.length >= 1 && deq(cx, es[0]))) return false;
    const one = (c, e, i) => run1(c, e, es[0].ret) && (i === null || [...T.collect(e.args[0], z => z.op === 'idx' && c.eq(z.args[0], es[0].ret))].every(z => c.eq(z.args[1], i)));
    // all of them, one after the other, each once
    if (rest.length === 1 && rest[0].kind === 'loop') { const q = cx.alls.find(q => q.loop === rest[0].info && cx.eq(q.lo, T.ZERO) && cx.eq(q.hi, X.len(es[0].ret))); return !!q && rest[0].info.alts.every(al => { const c = new Query(al.items); return c.infeasible() || !!al.st && c.check(y => { const own = plain(al.st).filter(e => !es.includes(e)); return own.length === 1 && one(y, own[0], q.i); }); }); }
    // given up early only after one of them led to a dispute
    if (rest.length === 1) return one(cx, rest[0], null) && cx.eq(rest[0].ret, EX('DISPUTE'));
    return rest.length === 0 && cx.eq(X.len(es[0].ret), T.ZERO);
  } },
]);
const AMv = (n, m, ...a) => verN(n, AM(m, ...a));
const curF = n => AMv(n, 'getLatestForkCnt'), nextH = n => AMv(n, 'getNextBlockHeight');
const isElem = (cx, t, arr, f) => { if (t.op !== 'fld' && f) return false; const e = f ? t.args[0] : t; return (!f || t.val === f || t.args[1] === f || fldName(t) === f) && e.op === 'idx' && cx.eq(e.args[0], arr); };
const fldName = t => t.name !== undefined ? t.name : t.val;
const drain = n => later([
  { fx: (cx, st) => bag(cx, st, [
    E.bg(dequeues(E.call('AgreementManager.tryDequeueConfirmations', curF(n), nextH(n)), (cx, e, arr) => e.kind === 'call' && e.callee === 'StateManager.onBlockConfirmation' && isElem(cx, e.args[0], arr, 'originalSignedBlock') && isElem(cx, e.args[1], arr, 'confirmationSignature') && e.args[0].args[0] === e.args[1].args[0])),
    E.bg(dequeues(E.call('AgreementManager.tryDequeueBlocks', curF(n), nextH(n)), (cx, e, arr) => e.kind === 'call' && e.callee === 'StateManager.onSignedBlock' && isElem(cx, e.args[0], arr))),
  ]) },
]);
// the timeout decision for (fork, height, participant), taken at version n of the agreement state
function timeoutLater(f, h, p, n, ep, rec) {
  const blk = AMv(n, 'getBlock', f, h), done = AMv(n, 'didEveryoneSignBlock', blk), posted = AMv(n, 'didParticipantPostOnChain', f, h, p);
  const chainTs = AMv(n, 'getChainLatestBlockTimestamp', f, h), last = AMv(n, 'getLatestBlockTimestamp', f), now = NOW(ep);
  const ask = E.chain('getBlockCallData', chanId(), f, h, p);
  const asked = st => X.effects(st, 'chain').find(e => e.m === 'getBlockCallData');
  const found = (cx, st) => { const e = asked(st); return e && [X.S && e.ret].map(r => r); };
  const open = cx => cx.holds(ne(me(), p)) && (cx.holds(eq(blk, U)) || cx.holds(not(done))) && cx.holds(not(posted)) && cx.holds(le(T.add(chainTs, WAIT()), now));
  const foundT = (cx, st) => cx.terms(t => t.op === 'fld' && fldName(t) === 'found');
  const missing = (cx, st) => foundT(cx, st).some(t => cx.holds(not(t)));
  const over = lt(T.add(last, WAIT()), now);
  return [
    { n: 'own turn', when: [eq(me(), p)], fx: (cx, st) => bag(cx, st, []) },
    { n: 'the turn was used', when: [[ne(blk, U), done], [posted]], fx: (cx, st) => bag(cx, st, []) },
    { n: 'too early', when: [lt(now, T.add(chainTs, WAIT()))], fx: (cx, st) => bag(cx, st, []), optional: true },
    { n: 'published on chain', when: [(cx, st) => open(cx) && foundT(cx, st).some(t => cx.holds(t))], fx: (cx, st) => bag(cx, st, [ask]) },
    { n: 'timed out', when: [(cx, st) => open(cx) && missing(cx, st) && cx.holds(over)], fx: (cx, st) => bag(cx, st, [ask, E.bg(later([{ fx: (c2, s2) => bag(c2, s2, [E.call('DisputeHandler.createDispute', f, p, h, (c3, v) => v.op === 'arr' && v.args.length === 0)]) }]))]) },
    { n: 'asked again later', when: [(cx, st) => open(cx) && missing(cx, st) && cx.holds(not(over))], fx: (cx, st) => bag(cx, st, [ask, (c, e) => e.kind === 'schedule' && c.holds(lt(T.mul(T.num(1000), T.sub(T.add(last, WAIT()), now)), e.delay)) && rec(c, e)]) },
  ];
}
const recurseTo = (f, h, p) => (cx, e) => e.evs.some(v => v.kind === 'recurse' && v.args && v.args.length === 3 && cx.eq(v.args[0], f) && cx.eq(v.args[1], h) && cx.eq(v.args[2], p));
const advance = (n, sm) => { const p = T.app('nextToWrite', sm), f = curF(n), h = nextH(n); return [E.sched(T.ZERO, drain(n + 1000)), E.hook('onTurn', p), E.sched(T.mul(T.num(1000), WAIT()), later(timeoutLater(f, h, p, n + 1000, 1, recurseTo(f, h, p))))]; };
const groups = {};
groups.install = rep => {
  const es = par('es'), fk = par('fk'), tm = par('tm');
  const r = go('setState', [es, fk, tm]);
  const next = AMv(1, 'isNextFork', fk);
  table(rep, 'install', r, { rows: [
    { n: 'not the next fork', when: [not(next)], fx: (cx, st) => held(st) && bag(cx, st, []) && cx.eq(smAt(st), T.sym('sm@lock')) },
    { n: 'installed', when: [next], fx: (cx, st) => held(st) && cx.eq(smAt(st), es) && bag(cx, st, [E.call('AgreementManager.newFork', es, T.app('participants', es), fk, tm), E.hook('onSetState'), ...advance(2, es)]) },
  ], thr: (cx, st) => held(st), rule: 'a state announced on chain is installed once, only for the next fork, together with its participants and time, under the lock; then the client continues from it' });
};
// after every advance the queues are drained, completely
groups.drain = rep => {
  const [es, fk, tm] = [par('es'), par('fk'), par('tm')], r = go('setState', [es, fk, tm]), pat = E.sched(T.ZERO, drain(1002));
  table(rep, 'drain', r, { rows: [
    { n: 'nothing new', when: [not(AMv(1, 'isNextFork', fk))], fx: (cx, st) => X.effects(st, 'schedule').length === 0 },
    { n: 'drained', when: [AMv(1, 'isNextFork', fk)], fx: (cx, st) => trace(st).filter(e => pat(cx, e)).length === 1 },
  ], thr: (cx, st) => true, rule: 'after an advance the blocks and confirmations that can now be handled are taken from the queues and handled one after the other, until one leads to a dispute' });
};
const same = (cx, st) => cx.eq(smAt(st), T.sym('sm@lock'));
// what a verdict on a received block leads to: n = version after the validation
const verdictEffects = (sb, flag, af, n, sm) => [
  { n: 'accepted', when: [eq(flag, EX('SUCCESS'))], fx: (cx, st, pre) => bag(cx, st, [...pre, E.call('P2pSigner.confirmBlock', sb), ...advance(n + 1, sm)], [[pre.length - 1, pre.length]]) },
  { n: 'set aside', when: [eq(flag, EX('NOT_READY'))], fx: (cx, st, pre) => bag(cx, st, [...pre, E.call('AgreementManager.queueBlock', sb)]) },
  { n: 'ignored', when: [cx => [EX('DUPLICATE'), EX('DISCONNECT'), EX('TIMESTAMP_IN_FUTURE'), EX('NOT_ENOUGH_TIME'), EX('PAST_FORK')].reduce((a, f) => a || cx.eq(flag, f), false) || [EX('SUCCESS'), EX('NOT_READY'), EX('DISPUTE')].every(f => cx.holds(ne(flag, f)))], fx: (cx, st, pre) => bag(cx, st, pre) },
  { n: 'double sign disputed', when: [[eq(flag, EX('DISPUTE')), eq(af, AF('DOUBLE_SIGN'))]], fx: (cx, st, pre) => bag(cx, st, [...pre, E.bg(later([{ fx: (c2, s2) => bag(c2, s2, [E.call('DisputeHandler.disputeDoubleSign', (c3, v) => v.op === 'arr' && v.args.length === 1 && c3.eq(v.args[0], sb))]) }]))]) },
  { n: 'incorrect data disputed', when: [[eq(flag, EX('DISPUTE')), eq(af, AF('INCORRECT_DATA'))]], fx: (cx, st, pre) => bag(cx, st, [...pre, E.bg(later([{ fx: (c2, s2) => bag(c2, s2, [E.call('DisputeHandler.disputeIncorrectData', sb)]) }]))]) },
];
const retOf = (st, callee) => { const e = trace(st).find(x => x.kind === 'call' && x.callee === callee); return e && e.ret; };
groups.receive = rep => {
  for (const given of [true, false]) {
    const sb = par('sb'), b = given ? par('blk') : decBlk(F(sb, 'encodedBlock'));
    const r = go('onSignedBlock', [sb, given ? b : U], { assume: given ? [ne(b, U)] : [] });
    const VC = 'ValidationService.validateSignedBlock', val = E.call(VC, sb, b);
    const row = i => ({ when: [(cx, st, x) => { const v = retOf(st, VC); if (!v) return false; const w = verdictEffects(sb, fieldOf(st, v, 'flag'), fieldOf(st, v, 'agreementFlag'), 2, T.sym('sm@lock'))[i]; return X.anyOf(cx, w.when, st, x) && w.fx(cx, st, [val]); }], ret: (cx, st, v) => cx.eq(v, fieldOf(st, retOf(st, VC), 'flag')), fx: (cx, st) => held(st) && same(cx, st) });
    const names = ['accepted', 'set aside', 'ignored', 'double sign disputed', 'incorrect data disputed'];
    table(rep, 'receive:' + (given ? 'block' : 'bytes'), r, { rows: names.map((n, i) => Object.assign({ n }, row(i))), thr: (cx, st, x) => held(st) || trace(st).length === 0 || acted(st, x), rule: 'a received block is judged once, under the lock, and the verdict is acted upon: confirmed and continued, set aside, disputed or ignored' });
  }
};
const acted = (st, x) => held(st);
groups.confirmed = rep => {
  for (const given of [true, false]) {
    const sb = par('sb'), sig = par('sig'), b = given ? par('blk') : decBlk(F(sb, 'encodedBlock'));
    const r = go('onBlockConfirmation', [sb, sig, given ? b : U], { assume: given ? [ne(b, U)] : []  });
    const VC = 'ValidationService.validateBlockConfirmation';
    const fl = (st, f) => fieldOf(st, retOf(st, VC), f);
    const val = E.call(VC, sb, sig, b), add = E.call('AgreementManager.confirmBlock', b, sig);
    const isQ = (cx, v, e) => { const o = e.raw[0]; return cx.eq(fieldOf(e.st, o, 'originalSignedBlock'), sb) && cx.eq(fieldOf(e.st, o, 'confirmationSignature'), sig); };
    const rest = { fx0: [], };
    const body = (cx, st, more) => cx.holds(fl(st, 'success')) ? bag(cx, st, [val, add, ...more], [[0, 1]]) : cx.holds(not(fl(st, 'success'))) && bag(cx, st, [val, ...more]);
    const again = E.sched(T.ZERO, later([{ n: 'disposed', fx: (cx, st) => bag(cx, st, []), optional: true }, { n: 'queue', fx: (cx, st) => { const d = trace(st).filter(e => e.kind === 'call' && e.callee === 'AgreementManager.tryDequeueConfirmations'); return d.length === 1; } }]));
    const f = st => fl(st, 'flag');
    table(rep, 'confirm:' + (given ? 'block' : 'bytes'), r, { rows: [
      { n: 'recorded', ret: (cx, st, v) => cx.eq(v, f(st)), when: [(cx, st) => cx.eq(f(st), EX('SUCCESS'))], fx: (cx, st) => body(cx, st, [again]) },
      { n: 'set aside', ret: (cx, st, v) => cx.eq(v, f(st)), when: [(cx, st) => cx.eq(f(st), EX('NOT_READY'))], fx: (cx, st) => body(cx, st, [E.call('AgreementManager.queueConfirmation', isQ)]) },
      { n: 'ignored', ret: (cx, st, v) => cx.eq(v, f(st)), when: [(cx, st) => cx.holds(ne(f(st), EX('SUCCESS'))) && cx.holds(ne(f(st), EX('NOT_READY')))], fx: (cx, st) => body(cx, st, []) },
    ], thr: undefined, refuse: (cx, st) => L.P.enums.get('ExecutionFlags').members.every(m => cx.holds(ne(f(st), EX(m.name.getText())))), rule: 'a confirmation is recorded exactly when validation succeeded, set aside when it came early, and otherwise ignored' });
  }
};
groups.author = rep => {
  const tx = par('tx'), h = f => F(tx, 'header', f);
  const r = go('playTransaction', [tx]);
  const cur = T.sym('sm@lock'), V1 = (m, ...a) => AMv(1, m, ...a);
  const open = V1('hasFork'), f = V1('getLatestForkCnt'), disp = X.verN(1, op('DisputeHandler', 'isForkDisputed', f)), mine = eq(me(), T.app('nextToWrite', cur));
  const pos = [eq(h('forkCnt'), f), eq(h('transactionCnt'), V1('getNextBlockHeight'))];
  const lastTs = V1('getLatestBlockTimestamp', f);
  const goodTx = (cx, st, t) => { // the transaction that was executed: the given one, its time moved forward if it lagged behind
    const ts0 = h('timestamp');
    if (cx.eq(t, tx)) return cx.holds(le(lastTs, ts0));
    if (t.op !== 'snap' || t.args[0] !== tx) return false;
    const st2 = st; const rd2 = n => fieldOf(st2, fieldOf(st2, tx, 'header'), n);
    return cx.holds(lt(ts0, lastTs)) && cx.holds(le(lastTs, rd2('timestamp'))) && ['channelId', 'participant', 'forkCnt', 'transactionCnt'].every(n => cx.eq(rd2(n), h(n)));
  };
  const okPath = (cx, st, v) => {
    const es = trace(st).filter(e => e.kind !== 'lock' && e.kind !== 'unlock');
    const add = es.find(e => e.kind === 'call' && e.callee === 'AgreementManager.addBlock'); if (!add) return false;
    const [blk, sig, enc] = add.args; const rb = add.raw[0];
    if (enc.op !== 'app' || enc.val !== 'post' || !cx.eq(enc.args[0], cur)) return false;
    const t = enc.args[1];
    if (!goodTx(cx, add.st, t)) return false;
    if (!cx.eq(S.snapshot(add.st.store, fieldOf(add.st, rb, 'transaction')), t) || !cx.eq(fieldOf(add.st, rb, 'stateHash'), keccak(enc)) || !cx.eq(fieldOf(add.st, rb, 'previousStateHash'), keccak(cur))) return false;
    const eb = encBlk(blk);
    if (!cx.eq(sig, T.app('signature', P2(), keccak(eb)))) return false;
    if (!cx.eq(fieldOf(st, v, 'encodedBlock'), eb) || !cx.eq(fieldOf(st, v, 'signature'), sig)) return false;
    const pub = E.sched(T.mul(T.num(1000), cfg('agreementTime')), later([
      { n: 'fully signed', when: [(c2, s2) => c2.holds(X.verN(s2.x.ver, AM('didEveryoneSignBlock', blk)))], fx: (c2, s2) => bag(c2, s2, []) },
      { n: 'published', when: [(c2, s2) => c2.holds(not(X.verN(s2.x.ver, AM('didEveryoneSignBlock', blk))))], fx: (c2, s2) => bag(c2, s2, [E.hook('onPostingCalldata'), (c3, e) => e.kind === 'chain' && e.m === 'postBlockCalldata' && c3.eq(fieldOf(e.st, e.raw[0], 'encodedBlock'), eb) && c3.eq(fieldOf(e.st, e.raw[0], 'signature'), sig), opt(E.ext('wait'))]) },
    ]));
    return bag(cx, st, [(c, e) => e.kind === 'sign', (c, e) => e === add, E.succ(t), ...advance(2, enc), pub], [[0, 1], [1, 2]]);
  };
  table(rep, 'author', r, { changes: l => l.op === 'fld' && l.val === 'timestamp' && l.args[0].op === 'fld' && l.args[0].val === 'header', rows: [{ n: 'authored', when: [(cx, st, x) => cx.holds(open) && cx.holds(not(disp)) && cx.holds(mine) && pos.every(p => cx.holds(p)) && held(st) && okPath(cx, st, x.v) && cx.holds(T.app('transOk', cur, executed(st)))] }],
    thr: (cx, st, x) => held(st) && (same(cx, st) || refused(cx, st, cur) || X.effects(st, 'call').length > 0 || (x.v.op === 'sym' && /^smerr/.test(x.v.val))) && X.effects(st, 'successCallback').every(() => X.effects(st, 'call').length > 0),
    rule: 'a block is authored only under the lock, for an open undisputed channel, at the next position, on my turn; it commits to the executed states, is signed, stored and announced, and published on chain after the agreement time unless everybody signed; a failed attempt leaves the state as it was' });
};
// the application refused the transition: nothing was changed by it
const refused = (cx, st, cur) => { const s = smAt(st); return s.op === 'app' && s.val === 'post' && cx.eq(s.args[0], cur) && cx.holds(not(T.app('transOk', s.args[0], s.args[1]))); };
const executed = st => { const a = trace(st).find(e => e.kind === 'call' && e.callee === 'AgreementManager.addBlock'); return a.args[2].args[1]; };
const P2 = () => T.root('P2pSigner');
groups.collect = rep => {
  const sb = par('sb'), tm = par('tm'), b = decBlk(F(sb, 'encodedBlock'));
  const r = go('collectOnChainBlock', [sb, tm]);
  const C = 'AgreementManager.collectOnChainBlock', rec = E.call(C, sb, tm);
  const flag = st => retOf(st, C);
  const bgAdvance = E.bg(later([{ fx: (cx, st) => bag(cx, st, advance(1 + extra(st), SMst)) }]));
  const extra = () => 0;
  const disp = pf => E.bg(later([{ fx: (cx, st) => bag(cx, st, [E.call('DisputeHandler.createDispute', fork(b), L.ZERO_ADDR, T.ZERO, (c, v, e) => v.op === 'arr' && v.args.length === 1 && pf(c, v.args[0], e))]) }]));
  const proof = (m, ok) => (c, v, e) => v.op === 'app' && v.val === 'ProofManager.' + m && ok(c, v.args[0]);
  table(rep, 'collect', r, { rows: [
    { n: 'double sign', when: [(cx, st) => cx.eq(flag(st), AF('DOUBLE_SIGN'))], fx: (cx, st) => bag(cx, st, [rec, disp(proof('createDoubleSignProof', (c, a) => a.op === 'arr' && a.args.length === 1 && c.eq(a.args[0], sb))), bgAdvance], [[0, 1], [0, 2]]) },
    { n: 'incorrect data', when: [(cx, st) => cx.eq(flag(st), AF('INCORRECT_DATA'))], fx: (cx, st) => bag(cx, st, [rec, disp(proof('createIncorrectDataProof', (c, a) => c.eq(a, sb))), bgAdvance], [[0, 1], [0, 2]]) },
    { n: 'recorded', when: [(cx, st) => cx.holds(ne(flag(st), AF('DOUBLE_SIGN'))) && cx.holds(ne(flag(st), AF('INCORRECT_DATA')))], fx: (cx, st) => bag(cx, st, [rec, bgAdvance], [[0, 1]]) },
  ], thr: undefined, rule: 'a block published on chain is recorded with its time; a conflict with the local history is disputed with the matching proof; then the client continues' });
};
// the timeout decision wherever it is scheduled
groups.timeouts = rep => {
  const sb = par('sb'), es = par('es'), fk = par('fk'), tm = par('tm'), tx = par('tx');
  const runs = { 'state installed': go('setState', [es, fk, tm]), 'block received': go('onSignedBlock', [sb, U]), 'block authored': go('playTransaction', [tx]), 'block published': go('collectOnChainBlock', [sb, tm]) };
  for (const [n, r] of Object.entries(runs)) {
    let k = 0;
    const visit = (st, w) => { for (const e of trace(st)) {
      if (e.kind === 'detached') { for (const x of e.res || []) visit(x.st, w); continue; }
      if (e.kind !== 'schedule') continue;
      const q = new Query(e.st); if (q.infeasible()) continue;
      const n0 = e.st.x.ver || 0, sm = rd(e.st, SMst), p = T.app('nextToWrite', sm);
      if (!(e.res || []).some(x => trace(x.st).some(z => z.kind === 'chain' && z.m === 'getBlockCallData'))) continue; // not the timeout check
      k++;
      const ok = q.check(cx => { const f = curF(n0), h = nextH(n0); return cx.holds(eq(e.delay, T.mul(T.num(1000), WAIT()))) && later(timeoutLater(f, h, p, n0 + 1000, (e.st.x.epoch || 0) + 1, recurseTo(f, h, p)))(e.res); });
      rep.ob(`timeout:${n}:decision`, ok, L.at(e), 'once the waiting time is over, the participant whose turn it was is timed out only if its block is neither fully signed here nor published on chain, and then it is', ok ? '' : 'delay ' + T.pp(e.delay).slice(0, 120));
    } };
    for (const x of r.res) { if (new Query(x.st).infeasible()) continue; visit(x.st, n); }
    rep.floor('timeout:' + n, k, 1, 'scheduled timeout checks');
    L.cover(rep, r);
  }
};
module.exports = { groups, OPQ, go, held, smAt, advance, timeoutLater, recurseTo, me, cfg, WAIT, AMv, curF, nextH, rules: {} };
