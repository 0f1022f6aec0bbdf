'use strict';
// Messages between peers: dispatch, forwarding, re-broadcast, connections, sending.
const L = require('./tlib'), X = require('./tspec'), V = require('./T_valid');
const { T, S, Query, F, par, run, fieldOf, ts, op } = L;
const { lt, le, not, eq, ne, table, encBlk, decBlk, E, bag, opt, later, trace } = X;
const { EX } = V;
const U = T.UNDEF, NOW = T.sym('now');
const groups = {};
const root = (c, ...f) => F(T.root(c), ...f);
const OPEN = () => root('P2PManager', 'openConnections');
const go = (c, m, args, front = {}, o = {}) => run(c, m, Object.assign({ args, front: Object.assign({ trace: true }, front) }, o));
// a loop over the whole of arr whose every round does exactly `pats(element)`
function eachOf(cx, e, arr, pats) {
  if (e.kind !== 'loop') return false;
  const q = cx.alls.find(q => q.loop === e.info && cx.eq(q.lo, T.ZERO) && cx.eq(q.hi, X.len(arr)));
  if (!q) return false;
  return e.info.alts.every(a => { const c = new Query(a.items); return c.infeasible() || c.check(x => a.st && bag(x, a.st, pats(T.idx(arr, q.i), x))); });
}
const ext = (recv, name, ...as) => (cx, e) => e.kind === 'ext' && e.name === name && cx.eq(e.recv, recv) && as.length === e.args.length && as.every((a, i) => typeof a === 'function' ? a(cx, e.args[i], e) : cx.eq(e.args[i], a));
const never = (rep, key, r) => rep.ob(`${key}:throw`, r.thr.every(x => new Query(x.st).infeasible()), L.where(r.decl), `${r.name} never fails`, r.thr.map(x => L.facts(x.st)).join(' / '));
const methods = c => L.methodsOf(c).map(d => d.name.getText());

// ---- dispatch of an incoming message
const json = s => T.mkApp('unjson', [s]);
groups.dispatch = rep => {
  const s = par('serializedRpc'), m = json(s), name = F(m, 'method'), ps = F(m, 'params'), f = T.idx(T.root('MainRpcService'), name);
  const r = go('P2PManager', 'onRpc', [s]);
  const isFn = eq(T.app('typeof', f), T.str('function')), known = T.app('in', name, T.root('MainRpcService'));
  table(rep, 'dispatch', r, { rows: [
    { n: 'handled', when: [[eq(T.app('typeof', name), T.str('string')), isFn]], fx: (cx, st) => bag(cx, st, [(c, e) => e.kind === 'callback' && c.eq(e.f, f) && e.args.length === 1 && c.eq(e.args[0], ps)]) },
    { n: 'dropped', when: [cx => !cx.terms(t => t === m).length, [eq(m, U)], [eq(m, T.NULL)], [ne(T.app('typeof', name), T.str('string'))], [not(known)], [not(isFn)], [eq(ps, U)], [eq(ps, T.NULL)], [cx => ['', T.ZERO, T.FALSE].some(v => cx.eq(ps, v === '' ? T.str('') : v))], [eq(m, T.str(''))], [eq(m, T.ZERO)], [eq(m, T.FALSE)]], fx: (cx, st) => bag(cx, st, []) },
  ], thr: [], rule: 'an incoming message is handed, with its parameters, to the handler it names, if it is well formed and there is one; anything else is dropped, and nothing a peer sends makes the dispatch fail' });
  never(rep, 'dispatch', r);
};
// ---- every handler hands its parameters to the service that implements it, and waits for it
groups.handlers = rep => {
  const svcs = [...L.P.classes.values()].filter(c => L.P.classes.get(c.name && c.name.text) === c && c.heritageClauses && c.heritageClauses.some(h => /\bARpcService\b/.test(h.getText()))).map(c => c.name.text);
  rep.floor('handlers:services', svcs.length, 5, 'services behind the message handlers');
  const opaque = {}; const own = new Map();
  for (const c of svcs) for (const m of methods(c)) { opaque[c + '.' + m] = 'eff'; if (!own.has(m)) own.set(m, c); }
  let n = 0;
  for (const m of methods('MainRpcService')) {
    n++;
    const r = go('MainRpcService', m, null, { opaque });
    const c = own.get(m);
    table(rep, 'handler:' + m, r, { rows: [{ n: 'forwarded', fx: (cx, st) => c && bag(cx, st, [E.call(c + '.' + m, ...r.args)]) }], thr: (cx, st) => c && bag(cx, st, [opt(E.call(c + '.' + m, ...r.args))]), rule: `the handler of a message hands exactly its parameters to the service behind it, once` });
    rep.ob(`handler:waits:${m}`, awaited(r.decl), L.where(r.decl), 'the handler settles only when the service has finished, so that a failure of the service is the failure of the handler', '');
  }
  rep.floor('handlers', n, 10, 'message handlers');
};
// an async method that awaits (or returns) each promise it creates
function awaited(d) {
  const ck = L.P.ck; let ok = true;
  const visit = n => {
    if (ts.isFunctionLike(n) && n !== d) return;
    if (ts.isCallExpression(n) && /^Promise</.test(ck.typeToString(ck.getTypeAtLocation(n)))) {
      let p = n.parent; while (ts.isParenthesizedExpression(p) || ts.isAsExpression(p) || ts.isConditionalExpression(p)) p = p.parent;
      if (!(ts.isAwaitExpression(p) || ts.isReturnStatement(p) || ts.isArrowFunction(p) || (ts.isPropertyAccessExpression(p)) || (ts.isVariableDeclaration(p)) || (ts.isArrayLiteralExpression(p)) || (ts.isCallExpression(p)))) ok = false;
    }
    ts.forEachChild(n, visit);
  };
  visit(d.body);
  return ok;
}
// ---- what goes over the wire is what the caller said
groups.wire = rep => {
  const raw = { rawRpc: true };
  { const x = par('rpc'), r = go(null, 'serializeRpc', [x]);
    table(rep, 'wire:out', r, { rows: [{ n: 'json', ret: T.mkApp('json', [x]) }], thr: undefined, rule: 'a message is encoded completely' }); }
  { const s = par('s'), m = json(s), r = go(null, 'deserializeRpc', [s]), ps = F(m, 'params'), name = F(m, 'method');
    table(rep, 'wire:in', r, { rows: [
      { n: 'message', ret: m, when: [[eq(T.app('typeof', name), T.str('string')), ne(ps, U)]] },
      { n: 'malformed', ret: U, when: [cx => !cx.terms(t => t === m).length, [eq(m, U)], [eq(m, T.NULL)], [ne(T.app('typeof', name), T.str('string'))], [eq(ps, U)], [eq(ps, T.NULL)], [cx => [T.str(''), T.ZERO, T.FALSE].some(v => cx.eq(ps, v) || cx.eq(m, v))]] },
    ], thr: [], rule: 'a message is decoded to exactly what was encoded, or rejected when it is not a message' });
    never(rep, 'wire:in', r); }
  const rpc = root('RpcHandler', 'rpc'), enc = T.mkApp('json', [rpc]), tr = par('transport'), trs = par('transports');
  { const r = go('RpcHandler', 'broadcast', [], raw);
    table(rep, 'wire:broadcast', r, { rows: [{ n: 'all', fx: (cx, st) => { const es = trace(st); return es.length === 1 && eachOf(cx, es[0], OPEN(), el => [ext(el, 'send', enc)]); } }], thr: undefined, rule: 'a broadcast message is sent once on every open connection' }); }
  { const r = go('RpcHandler', 'sendOne', [tr], raw);
    table(rep, 'wire:one', r, { rows: [{ n: 'one', fx: (cx, st) => bag(cx, st, [ext(tr, 'send', enc)]) }], thr: undefined, rule: 'a message for one peer is sent once, on its connection' }); }
  { const r = go('RpcHandler', 'sendMultiple', [trs], raw);
    table(rep, 'wire:some', r, { rows: [{ n: 'some', fx: (cx, st) => { const es = trace(st); return es.length === 1 && eachOf(cx, es[0], trs, el => [ext(el, 'send', enc)]); } }], thr: undefined, rule: 'a message for some peers is sent once on each of their connections' }); }
  { // the proxy turns a method call into the message of that name with the same parameters
    const r = go('RpcProxy', 'createProxy', [T.root('MainRpcService')], raw), w = L.where(r.decl);
    const made = r.events.filter(e => e.kind === 'new' && e.cls === 'Proxy');
    rep.ob('wire:proxy', made.length === 1 && r.res.length === 1, w, 'one proxy is made per service', '');
    if (made.length === 1 && r.res.length === 1) {
      const h = made[0].raw[1], st0 = made[0].st, get = S.select(st0.store, h, 'get', null);
      const prop = par('prop'), a1 = par('a1'), a2 = par('a2');
      const st = st0.assume(ne(T.app('typeof', prop), T.str('symbol')))[0].assume(not(T.app('Reflect.has', made[0].raw[0], prop)))[0];
      const cx0 = { self: U, frame: { id: ++r.I.frames, parent: null, fn: { name: 'entry' } }, fn: { name: 'entry' }, stack: [], loopStack: [] };
      r.I.thr = [];
      const fs = get.op === 'fn' ? r.front.callFn(r.I, get, [made[0].raw[0], prop, U], st, cx0, w) : [];
      let ok = fs.length === 1;
      for (const x of fs) {
        const n0 = r.I.events.length;
        const hs = x.v.op === 'fn' ? r.front.callFn(r.I, x.v, [a1, a2], x.st, cx0, w) : [];
        ok = ok && hs.length === 1 && hs.every(y => { const rp = fieldOf(y.st, y.v, 'rpc'); const q = new Query(y.st); const ps = S.snapshot(y.st.store, fieldOf(y.st, rp, 'params')); return q.check(cx => cx.eq(fieldOf(y.st, rp, 'method'), prop) && ps.op === 'arr' && ps.args.length === 2 && cx.eq(ps.args[0], a1) && cx.eq(ps.args[1], a2)); });
      }
      rep.ob('wire:proxy:call', ok, w, 'calling a method on the proxy makes the message with that name and those parameters', '');
    }
  }
};
// ---- the connection a message arrived on is recorded before its handler runs
groups.sender = rep => {
  const ts_ = [...L.P.classes.values()].filter(c => c.heritageClauses && c.heritageClauses.some(h => /\bATransport\b/.test(h.getText()))).map(c => c.name.text);
  rep.floor('transports', ts_.length, 3, 'transports');
  for (const c of ts_) {
    const d = par('data'), r = go(c, 'onMessage', [d], { opaque: { 'P2PManager.onRpc': 'eff' } });
    const self = r.self;
    table(rep, 'sender:' + c, r, { rows: [{ n: 'dispatched', fx: (cx, st) => bag(cx, st, [(c2, e) => e.kind === 'call' && e.callee === 'P2PManager.onRpc' && c2.eq(e.args[0], d) && c2.eq(S.read((e.st0 || e.st).store, root('MainRpcService', 'senderTransport')), self)]) }], thr: undefined, rule: 'an arriving message is dispatched once, with this connection recorded as its sender before' });
  }
};
// ---- re-broadcast of what this client verified
groups.relay = rep => {
  const sb = par('sb'), sig = par('sig');
  for (const [m, args] of [['onSignedBlock', [sb]], ['onBlockConfirmation', [sb, sig]]]) {
    const callee = 'StateManager.' + m;
    const r = go('StateTransitionService', m, args, { opaque: { [callee]: 'eff' } });
    const res = st => { const e = trace(st).find(x => x.kind === 'call' && x.callee === callee); return e && e.ret; };
    const call = E.call(callee, ...args);
    table(rep, 'relay:' + m, r, { rows: [
      { n: 'passed on', when: [(cx, st) => res(st) && cx.eq(res(st), EX('SUCCESS'))], fx: (cx, st) => bag(cx, st, [call, E.send('broadcast', m, ...args)], [[0, 1]]) },
      { n: 'kept', when: [(cx, st) => res(st) && cx.holds(ne(res(st), EX('SUCCESS')))], fx: (cx, st) => bag(cx, st, [call]) },
    ], thr: (cx, st) => !X.effects(st, 'send').length || bag(cx, st, [call, E.send('broadcast', m, ...args)], [[0, 1]]), rule: 'what a peer sent is passed on to the others, unchanged and once, exactly if this client itself accepted it' });
  }
};

// ---- composing and sending a transaction of the application
groups.send = rep => {
  const tx = par('tx'), SMn = 'StateManager.playTransaction';
  const r = go('P2pSigner', 'sendTransaction', [tx], { opaque: Object.assign({ [SMn]: 'eff' }, L.abs('AgreementManager')) });
  const want = { channelId: root('StateManager', 'channelId'), participant: root('StateManager', 'signerAddress'), forkCnt: L.AM('getLatestForkCnt'), transactionCnt: L.AM('getNextBlockHeight'), timestamp: NOW };
  want.channelId = V.chanId(); want.participant = V.ctorFieldOf('StateManager', /^AddressLike$/);
  const isTx = (cx, v, e) => { const o = e.raw[0], st = e.st, h = fieldOf(st, o, 'header'), b = fieldOf(st, o, 'body'); return Object.keys(want).every(k => cx.eq(fieldOf(st, h, k), want[k])) && cx.eq(fieldOf(st, b, 'encodedData'), F(tx, 'data')) && cx.eq(fieldOf(st, b, 'data'), F(tx, 'data')) && cx.eq(fieldOf(st, b, 'transactionType'), T.ZERO); };
  const call = E.call(SMn, isTx), ret = st => { const e = trace(st).find(x => x.kind === 'call' && x.callee === SMn); return e && e.ret; };
  table(rep, 'send', r, { rows: [{ n: 'sent', fx: (cx, st) => !!ret(st) && bag(cx, st, [call, E.send('broadcast', 'onSignedBlock', (c, v) => c.eq(v, ret(st)))], [[0, 1]]) }],
    thr: (cx, st) => bag(cx, st, []) || bag(cx, st, [call]), rule: 'a transaction is played at the current fork and next position, by this client, at the current time and with the given data, and only the resulting signed block is announced, once' });
};
groups.countersign = rep => {
  const sb = par('sb'), b = decBlk(F(sb, 'encodedBlock')), msg = X.keccak(encBlk(b));
  const r = go('P2pSigner', 'confirmBlock', [sb], { opaque: L.abs('AgreementManager') });
  const sig = T.app('signature', root('P2pSigner', 'signer'), msg);
  const pats = [E.sign(msg), E.call('AgreementManager.confirmBlock', b, (c, v) => c.eq(v, sig)), E.send('broadcast', 'onBlockConfirmation', sb, (c, v) => c.eq(v, sig))];
  table(rep, 'countersign', r, { rows: [{ n: 'countersigned', fx: (cx, st) => bag(cx, st, pats, [[0, 1], [1, 2]]) }], thr: (cx, st) => !X.effects(st, 'send').length, rule: 'countersigning a block signs exactly that block, records the signature and then announces block and signature once' });
};
groups.connect = rep => {
  const ch = par('channelId');
  const r = go('P2pSigner', 'connectToChannel', [ch], { opaque: { 'StateManager.setChannelId': 'eff', 'P2PManager.tryOpenConnectionToChannel': 'eff' } });
  const pats = [E.call('StateManager.setChannelId', ch), E.call('P2PManager.tryOpenConnectionToChannel', ch)];
  table(rep, 'connect', r, { rows: [{ n: 'connected', fx: (cx, st) => bag(cx, st, pats, [[0, 1]]) }], thr: (cx, st) => bag(cx, st, pats, [[0, 1]]) || bag(cx, st, [pats[0]]) || bag(cx, st, []), rule: 'connecting to a channel first makes it the channel of this client and then looks for its peers' });
};
// ---- a set of signatures per request
groups.collection = rep => {
  const C = 'SignatureCollectionMap', key = par('key'), v = par('value'), ps = par('participants');
  const field = X.fieldByType(C, /^Map<string,SignerAndSignature\[\]>$/), M = root(C, field), slot = T.idx(M, key);
  const A = F(slot), n = X.len(slot), who = F(v, 'signerAddress');
  { const r = go(C, 'tryInsert', [key, v]);
    const at = (st, l, k) => S.select(st.store, l, null, k), sel = st => S.select(st.store, M, null, key);
    table(rep, 'collection:insert', r, { rows: [
      { n: 'first', when: [[eq(slot, U)]], fx: (cx, st) => { const l = sel(st); return cx.eq(S.select(st.store, l, 'length', null), T.ONE) && cx.eq(at(st, l, T.ZERO), v) && rest(st, M, slot); } },
      { n: 'known', when: [cx => cx.holds(ne(slot, U)) && witness(cx, slot, k => eq(F(T.idx(slot, k), 'signerAddress'), who))], fx: (cx, st) => !touched(st, M) },
      { n: 'added', when: [cx => cx.holds(ne(slot, U)) && X.forall(cx, n, k => ne(F(T.idx(slot, k), 'signerAddress'), who))], fx: (cx, st) => { const l = sel(st); return cx.eq(S.select(st.store, l, 'length', null), T.add(n, T.ONE)) && cx.eq(at(st, l, n), v) && rest(st, M, slot); } },
    ], thr: [], rule: 'a signature is added to the ones collected for a request once per signer, and never replaces or removes one' }); }
  { const r = go(C, 'didEveryoneSign', [key, ps]);
    const got = cx => cx.holds(ne(slot, U)) ? slot : T.arr([]);
    const signed = (cx, p) => cx.holds(ne(slot, U)) ? T.app('exists', n, T.sym('λ1'), eq(F(T.idx(slot, T.sym('λ1')), 'signerAddress'), p)) : T.FALSE;
    table(rep, 'collection:everyone', r, { bool: true, rows: [
      { n: 'yes', ret: T.TRUE, when: [cx => X.forall(cx, X.len(ps), k => c => c.holds(signed(c, T.idx(ps, k))))] },
      { n: 'no', ret: T.FALSE, when: [cx => witness(cx, ps, (k, c) => not(signed(c, T.idx(ps, k))))] },
    ], thr: [], rule: 'everyone signed exactly if each participant has a collected signature' }); }
  for (const [m, ret, fx] of [['has', T.app('has', M, key)], ['get', null], ['delete', null]]) {
    const r = go(C, m, [key]);
    if (m === 'has') table(rep, 'collection:has', r, { bool: true, rows: [{ n: 'yes', ret: T.TRUE, when: [[ne(slot, U)]] }, { n: 'no', ret: T.FALSE, when: [[eq(slot, U)]] }], thr: [], rule: 'a request is known exactly if something was collected for it' });
    if (m === 'get') table(rep, 'collection:get', r, { rows: [{ n: 'collected', ret: slot, when: [[ne(slot, U)]] }, { n: 'nothing', ret: (cx, st, x) => cx.eq(S.select(st.store, x, 'length', null), T.ZERO), when: [[eq(slot, U)]] }], thr: [], rule: 'what was collected for a request is returned as it is' });
    if (m === 'delete') rep.ob('collection:delete', r.events.filter(e => e.kind === 'mapdel').every(e => e.map === M && e.key === key) && r.events.some(e => e.kind === 'mapdel'), L.where(r.decl), 'pruning removes exactly the given request', '');
  }
};
const rest = (st, q, key) => { for (let e = st.store; e && e.prev; e = e.prev) if (S.relation(e.loc, q) !== 'disjoint' && !T.contains(e.loc, key)) return false; return true; };
const touched = (st, q) => { for (let e = st.store; e && e.prev; e = e.prev) if (S.relation(e.loc, q) !== 'disjoint') return true; return false; };
const witness = (cx, arr, f) => { const ks = new Set([T.ZERO]); for (const t of cx.lits) T.collect(t, x => x.op === 'sym', ks, new Set()); return [...ks].some(k => cx.holds(lt(k, X.len(arr))) && cx.holds(f(k, cx))); };

// ---- requests of others to join
groups.join = rep => {
  const sj = par('sj'), conf = par('conf'), key = F(sj, 'encodedJoinChannel'), C = 'SignatureCollectionMap', J = 'JoinChannelService';
  const jc = L.run('EvmUtils', 'decodeJoinChannel', { args: [key] }), jcv = S.snapshot(jc.res[0].st.store, jc.res[0].v);
  const msg = X.keccak(L.val('EvmUtils', 'encodeJoinChannel', [jcv])), rec = s => T.app('recover', msg, s);
  const r = go(J, 'onJoinChannelRequest', [sj, conf], { markCatch: true, opaque: L.abs(C) });
  const has = op(C, 'has', key), rem = T.sub(F(jcv, 'deadlineTimestamp'), NOW), signer = rec(F(sj, 'signature')), who = F(jcv, 'participant');
  const members = T.app('participants', F(L.SM, 'state')), isMember = T.app('includes', members, rec(conf));
  const all = n => X.verN(n, op(C, 'didEveryoneSign', key, members)), Q = root(J, X.fieldByType(J, /JoinChanenelConfirmation|JoinChannelConfirmation|confirmationSignatures/));
  const nq = X.len(Q), kept = st => !touched(st, Q);
  const own = T.app('signature', T.root('P2pSigner'), msg), addr = root('P2pSigner', 'signerAddress');
  const pair = (a, s) => (cx, v, e) => cx.eq(fieldOf(e.st, e.raw[1], 'signerAddress'), a) && cx.eq(fieldOf(e.st, e.raw[1], 'signature'), s);
  const P = { sign: E.sign(msg), ins: E.call(C + '.tryInsert', key, pair(addr, own)), send: E.send('broadcast', 'onJoinChannelRequest', sj, (c, v) => c.eq(v, own)), prune: (cx, e) => e.kind === 'timer' && cx.eq(e.delay, T.mul(T.num(1000), rem)) && later([{ fx: (c, st) => bag(c, st, [E.call(C + '.delete', key)]) }])(e.res, e), add: E.call(C + '.tryInsert', key, pair(rec(conf), conf)) };
  const caught = st => X.effects(st, 'caught').length > 0, given = [ne(conf, U)];
  const fresh_ = [not(has), lt(T.ZERO, rem)], known = [has, ...given];
  const genuine = [...fresh_, eq(who, signer)];
  const falsy = [[has, eq(conf, U)], [has, eq(conf, T.NULL)], [has, eq(conf, T.str(''))]];
  const entry = (cx, st) => {
    const x = S.select(st.store, Q, null, nq), g = X.verN(1, op(C, 'get', key)), sg = S.snapshot(st.store, fieldOf(st, x, 'confirmationSignatures'));
    return cx.eq(S.select(st.store, Q, 'length', null), T.add(nq, T.ONE)) && cx.eq(fieldOf(st, x, 'signedJoinChannel'), sj) && sg.op === 'maparr' && cx.eq(sg.args[0], X.len(g)) && cx.eq(sg.args[2], F(T.idx(g, sg.args[1]), 'signature'));
  };
  const quiet = (cx, st) => !caught(st) && bag(cx, st, []) && kept(st);
  table(rep, 'join', r, { rows: [
    { n: 'expired', when: [[not(has), le(rem, T.ZERO)]], fx: quiet },
    { n: 'not signed by the one who wants to join', when: [[...fresh_, ne(who, signer)]], fx: quiet },
    { n: 'answered', when: [genuine], fx: (cx, st) => !caught(st) && bag(cx, st, [P.sign, P.ins, P.send, P.prune], [[0, 1], [0, 2]]) && kept(st) },
    { n: 'nothing to count', when: falsy, fx: quiet },
    { n: 'not a member', when: [[has, not(isMember)]], fx: quiet },
    { n: 'counted', when: [[...known, isMember, not(all(1))]], fx: (cx, st) => !caught(st) && bag(cx, st, [P.add]) && kept(st) },
    { n: 'complete', when: [[...known, isMember, all(1)]], fx: (cx, st) => !caught(st) && bag(cx, st, [P.add]) && entry(cx, st) },
    { n: 'failed', when: [(cx, st) => caught(st)], fx: (cx, st) => kept(st) && (bag(cx, st, []) || (genuine.every(t => cx.holds(t)) && bag(cx, st, [P.sign, opt(P.ins), opt(P.send)])) || (cx.holds(has) && cx.holds(isMember) && bag(cx, st, [P.add]))) },
  ], thr: [], rule: 'a request to join is answered with this client\'s signature once, only before its deadline and only if the one who wants to join signed it; only signatures of current members are counted, and it is complete exactly when all of them signed' });
  never(rep, 'join', r);
};
// ---- who is at the other end of a connection
const SND = () => root('MainRpcService', 'senderTransport');
const chalF = () => root('InitHandshakeService', X.fieldByType('InitHandshakeService', /^WeakMap<ATransport,/));
const message = h => L.val('InitHandshakeService', (L.methodsOf('InitHandshakeService').find(d => d.parameters.length === 1 && /^string$/.test(d.type ? d.type.getText() : '')) || { name: { getText: () => '' } }).name.getText(), [h]);
groups.handshake = rep => {
  const H = 'InitHandshakeService', front = { opaque: Object.assign({}, L.abs('ProfileManager'), { 'P2PManager.removeConnection': 'eff', 'WebRTCSetupService.initiateWebRTC': 'eff' }), awaitHavoc: [SND()] };
  const AT = F(V.ctorFieldOf('StateManager', /^TimeConfig$/), 'agreementTime'), CH = chalF();
  let prefix = null;
  { const h = par('challengeHash'), tm = par('time'), r = go(H, 'onInitHandshakeRequest', [h, tm], front);
    const far = T.app('abs', T.sub(tm, NOW));
    const signs = st => X.effects(st, 'sign')[0];
    const isMsg = m => m && m.op === 'app' && m.val === 'concat' && T.isStr(m.args[0]) && m.args.some(a => a === h || T.contains(a, h));
    table(rep, 'handshake:request', r, { rows: [
      { n: 'clocks differ', when: [[lt(AT, far)]], fx: (cx, st) => bag(cx, st, []) },
      { n: 'answered', when: [[le(far, AT)]], fx: (cx, st) => { const s = signs(st); if (!s || !isMsg(s.msg)) return false; prefix = s.msg; return bag(cx, st, [E.sign(s.msg), E.send('sendOne', 'onInitHandshakeResponse', (c, v) => v.op === 'app' && v.val === 'signature' && c.eq(v.args[1], s.msg), NOW, root('P2PManager', 'preferredTransport'))], [[0, 1]]) && X.effects(st, 'send').every(e => cx.eq(e.to, SND())); } },
    ], thr: (cx, st) => !X.effects(st, 'send').length, rule: 'a challenge is answered, on the connection it came from, with a signature over a message that contains it and cannot be anything else this client signs' });
    rep.ob('handshake:prefix', !!prefix && prefix.args[0].val.length >= 16, L.where(r.decl), 'what is signed for a handshake starts with a fixed text that no block or join request starts with', prefix ? T.pp(prefix) : '');
  }
  { const tr = par('transport'), r = go(H, 'initHandshake', [tr], front);
    const ch = st => S.select(st.store, CH, null, tr);
    table(rep, 'handshake:start', r, { rows: [{ n: 'challenged', fx: (cx, st) => { const c = ch(st), hs = fieldOf(st, c, 'randomChallengeHash'); return T.some(hs, x => x.op === 'sym' && /^random/.test(x.val)) && cx.eq(fieldOf(st, c, 'initTime'), NOW) && bag(cx, st, [(c2, e) => E.send('sendOne', 'onInitHandshakeRequest', hs, NOW)(c2, e) && c2.eq(e.to, tr)]); } }], thr: [], rule: 'a new connection is challenged once with a fresh random value, which is remembered with the time for that connection' });
    const rnd = r.events.filter(e => e.kind === 'random'); rep.ob('handshake:random', rnd.length >= 1 && rnd.every(e => e.n && T.isNum(e.n) && e.n.val >= 16n), L.where(r.decl), 'the challenge is drawn at random, with at least 16 bytes', '');
  }
  { const sig = par('signature'), rt = par('responseTime'), pt = par('preferredTransport'), r = go(H, 'onInitHandshakeResponse', [sig, rt, pt], front);
    const snd = SND(), ch = T.idx(CH, snd), init = F(ch, 'initTime'), rtt = T.sub(NOW, init), off = T.app('abs', T.sub(rt, init));
    const msg = prefix && T.subst(prefix, par('challengeHash'), F(ch, 'randomChallengeHash')), who = msg && T.app('recover', msg, sig);
    const sndr = ne(snd, U), drop = (cx, st) => bag(cx, st, [E.call('P2PManager.removeConnection', snd)]);
    const who2 = cx => { const ts_ = cx.terms(t => t.op === 'app' && t.val === 'recover' && t.args[1] === sig); return ts_; };
    const prof = () => op('ProfileManager', 'getProfileByEvmAddress', who);
    const web = opt(E.call('WebRTCSetupService.initiateWebRTC')), hook = E.hook('onConnection', (c, v) => c.eq(v, who));
    const timely = [sndr, ne(ch, U), le(rtt, AT), le(off, AT)];
    const isProf = (cx, v, e) => cx.eq(fieldOf(e.st, e.raw[0], 'transport'), snd) && cx.eq(fieldOf(e.st, e.raw[0], 'evmAddress'), who);
    table(rep, 'handshake:response', r, { changes: l => l.op === 'fld' && l.args[0] === prof() && L.cls('PeerProfile').members.some(m => ts.isPropertyDeclaration(m) && m.name.getText() === l.val && (m.type ? m.type.getText() : L.P.ck.typeToString(L.P.ck.getTypeAtLocation(m))) === 'boolean'), rows: [
      { n: 'not challenged', when: [[sndr, eq(ch, U)]], fx: drop },
      { n: 'too late', when: [[sndr, ne(ch, U), lt(AT, rtt)], [sndr, ne(ch, U), lt(AT, off)]], fx: drop },
      { n: 'new peer', when: [cx => who && timely.every(t => cx.holds(t)) && cx.holds(eq(prof(), U))], fx: (cx, st) => bag(cx, st, [E.call('ProfileManager.registerProfile', isProf), web, hook], [[0, 2]]) },
      { n: 'known peer', when: [cx => who && timely.every(t => cx.holds(t)) && cx.holds(ne(prof(), U))], fx: (cx, st) => bag(cx, st, [E.call('ProfileManager.updateTransport', (c, v) => c.eq(v, F(prof(), 'evmAddress')) || c.eq(v, who), snd), web, hook], [[0, 2]]) },
    ], thr: (cx, st) => !X.effects(st, 'hook').length, rule: 'a connection counts as that of an address only if it answered, in time, the challenge sent on this very connection with a signature of that address over it' });
  }
};
// ---- answers go back on the connection the question came from, even if others arrive meanwhile
groups.replies = rep => {
  const svcs = [...L.P.classes.values()].filter(c => c.heritageClauses && c.heritageClauses.some(h => /\bARpcService\b/.test(h.getText()))).map(c => c.name.text);
  let n = 0;
  for (const c of svcs) for (const d of L.methodsOf(c)) {
    const m = d.name.getText();
    const r = go(c, m, null, { awaitHavoc: [SND()], opaque: c === 'StateTransitionService' ? { 'StateManager.onSignedBlock': 'eff', 'StateManager.onBlockConfirmation': 'eff' } : L.abs('ProfileManager', 'SignatureCollectionMap') });
    const to = e => e.kind === 'send' && e.how === 'sendOne';
    const chk = (e, k) => { n++; rep.ob(`reply:${c}.${m}:${k}`, r.args.includes(e.to) || e.to === SND(), L.at(e), 'an answer is sent on the connection the message came from, as it was when the message arrived', T.pp(e.to)); };
    for (const e of r.events) if (to(e)) chk(e, e.method);
    // callbacks installed on foreign objects run later, when another message may have arrived
    for (const e of r.events) if (e.kind === 'write' && e.v && e.v.op === 'fn' && e.v.decl) {
      const st = e.st.clone().write(SND(), T.sym('anotherSender')), n0 = r.I.events.length; r.I.thr = [];
      const cx0 = { self: e.v.self || U, frame: { id: ++r.I.frames, parent: null, fn: { name: 'entry' } }, fn: { name: 'entry' }, stack: [], loopStack: [] };
      try { r.front.callFn(r.I, e.v, [par('event')], st, cx0, L.at(e)); } catch (x) { if (!/undefined/.test(String(x))) throw x; }
      for (const f of r.I.events.slice(n0)) if (to(f)) chk(f, f.method);
    }
  }
  rep.floor('replies', n, 3, 'answers');
};

// ---- connections
groups.conns = rep => {
  const tr = par('transport'), PMf = 'P2PManager', open = OPEN();
  const profOf = t => op('ProfileManager', 'getProfileByTransport', t);
  const prof = L.abs('ProfileManager'), shut = { 'ATransport.close': 'eff' };
  const filtered = (cx, v, t) => v.op === 'app' && v.val === 'filter' && cx.eq(v.args[0], open) && cx.eq(v.args[2], ne(T.idx(open, v.args[1]), t));
  { const r = go(PMf, 'addConnection', [tr], { opaque: { 'InitHandshakeService.initHandshake': 'eff' } });
    table(rep, 'conns:add', r, { rows: [{ n: 'added', fx: (cx, st) => cx.eq(S.select(st.store, open, 'length', null), T.add(X.len(open), T.ONE)) && cx.eq(S.select(st.store, open, null, X.len(open)), tr) && bag(cx, st, [E.call('InitHandshakeService.initHandshake', tr)]) }], thr: undefined, rule: 'a new connection is added to the open ones and challenged' }); }
  { const r = go(PMf, 'removeConnection', [tr], { opaque: Object.assign({}, prof, shut) });
    const gone = (cx, st) => filtered(cx, S.snapshot(st.store, S.select(st.store, T.root(PMf), 'openConnections', null)), tr);
    table(rep, 'conns:remove', r, { rows: [
      { n: 'of a peer', when: [[ne(profOf(tr), U)]], fx: (cx, st) => gone(cx, st) && bag(cx, st, [E.call('ProfileManager.removeTransport', tr)]) },
      { n: 'of nobody yet', when: [[eq(profOf(tr), U)]], fx: (cx, st) => gone(cx, st) && bag(cx, st, [(c, e) => e.kind === 'call' && e.callee === 'ATransport.close' && c.eq(e.recv || e.self, tr)]) },
    ], thr: undefined, rule: 'a removed connection is no longer among the open ones, which are otherwise unchanged, and is closed' }); }
  { const r = go(PMf, 'disconnectAll', [], { opaque: { 'P2PManager.removeConnection': 'eff' } });
    table(rep, 'conns:all', r, { rows: [{ n: 'all', fx: (cx, st) => { const es = trace(st); return es.length === 1 && eachOf(cx, es[0], open, el => [E.call('P2PManager.removeConnection', el)]); } }], thr: undefined, rule: 'disconnecting removes every open connection' }); }
  { const r = go(PMf, 'dispose', [], { opaque: { 'Holepunch.dispose': 'eff', 'P2PManager.disconnectAll': 'eff' } });
    table(rep, 'conns:dispose', r, { rows: [{ n: 'disposed', fx: (cx, st) => bag(cx, st, [E.call('Holepunch.dispose'), E.call('P2PManager.disconnectAll')]) }], thr: (cx, st) => true, rule: 'disposing ends the search for peers and every connection' }); }
  { const r = go('ATransport', 'close', []), self = T.root('ATransport'), closed = F(self, 'isClosed');
    table(rep, 'conns:close', r, { rows: [
      { n: 'again', when: [[closed]], fx: (cx, st) => bag(cx, st, []) && cx.holds(S.read(st.store, closed)) },
      { n: 'first', when: [[not(closed)]], fx: (cx, st) => cx.holds(S.read(st.store, closed)) && bag(cx, st, [(c, e) => e.kind === 'ext' && e.name === '_close' && c.holds(S.read((e.st || st).store, closed))]) },
    ], thr: undefined, rule: 'a connection is closed at most once, however often closing is asked for and even while it is being closed' }); }
  // what the profiles remember
  const PRF = 'ProfileManager', byT = root(PRF, X.fieldByType(PRF, /^WeakMap<ATransport,/)), maps = L.cls(PRF).members.filter(m => ts.isPropertyDeclaration(m) && /^Map<string,\s*PeerProfile>$/.test((m.type ? m.type.getText() : '').replace(/\s+/g, ' ').replace('< ', '<').replace(' >', '>'))).map(m => root(PRF, m.name.getText()));
  const look = m => { const a = par('k'), r = go(PRF, m, [a]); const v = r.res.map(x => S.snapshot(x.st.store, x.v)); return { r, v, a }; };
  const byE = (() => { const l = look('getProfileByEvmAddress'); return l.v.length === 1 && l.v[0].op === 'idx' && l.v[0].args[1] === l.a ? l.v[0].args[0] : null; })();
  rep.ob('profiles:by address', !!byE && maps.includes(byE), L.where(L.meth(PRF, 'getProfileByEvmAddress')), 'the profile of an address is the one stored under that address', '');
  { const l = look('getProfileByTransport'); rep.ob('profiles:by connection', l.v.length === 1 && l.v[0] === T.idx(byT, l.a), L.where(l.r.decl), 'the profile of a connection is the one stored for that connection', ''); }
  if (!byE) return;
  const p = par('profile'), pt = F(p, 'transport'), pe = F(p, 'evmAddress'), ph = F(p, 'hpAddress');
  const at = (st, m, k) => st.simp(S.select(st.store, m, null, k));
  { const r = go(PRF, 'registerProfile', [p], {}, { assume: [ne(pt, U), ne(pe, U), ne(pe, T.str(''))] });
    table(rep, 'profiles:register', r, { rows: [{ n: 'registered', fx: (cx, st) => cx.eq(at(st, byT, pt), p) && cx.eq(at(st, byE, pe), p) && bag(cx, st, []) }], thr: [], rule: 'a registered profile is found by its connection and by its address' }); }
  { const r = go(PRF, 'unregisterProfile', [p], {}, { assume: [ne(pt, U), ne(pe, U), ne(pe, T.str(''))] });
    table(rep, 'profiles:unregister', r, { rows: [{ n: 'unregistered', fx: (cx, st) => cx.eq(at(st, byT, pt), U) && cx.eq(at(st, byE, pe), U) }], thr: [], rule: 'an unregistered profile is found no more' }); }
  const known = T.idx(byT, tr);
  { const r = go(PRF, 'removeTransport', [tr], { opaque: shut });
    table(rep, 'profiles:remove', r, { rows: [
      { n: 'unknown', when: [[eq(known, U)]], fx: (cx, st) => bag(cx, st, []) },
      { n: 'removed', when: [[ne(known, U)]], fx: (cx, st) => cx.eq(at(st, byT, tr), U) && bag(cx, st, [(c, e) => e.kind === 'call' && e.callee === 'ATransport.close']) },
    ], thr: undefined, rule: 'a connection of a peer that is given up is forgotten and closed' }); }
  { const a = par('adr'), nt = par('newTransport'), pr = T.idx(byE, a), old = F(pr, 'transport');
    const r = go(PRF, 'updateTransport', [a, nt], { opaque: { 'ProfileManager.removeTransport': 'eff' } });
    const upd = (cx, st) => cx.eq(S.read(st.store, old), nt) && cx.eq(at(st, byT, nt), pr);
    table(rep, 'profiles:update', r, { rows: [
      { n: 'unknown', when: [[eq(pr, U)]], fx: (cx, st) => bag(cx, st, []) },
      { n: 'first', when: [[ne(pr, U), eq(old, U)]], fx: (cx, st) => upd(cx, st) && bag(cx, st, []) },
      { n: 'replaced', when: [[ne(pr, U), ne(old, U)]], fx: (cx, st) => upd(cx, st) && bag(cx, st, [E.call('ProfileManager.removeTransport', old)]) },
    ], thr: undefined, rule: 'a peer that connects anew is known by its new connection, and its old one is given up' }); }
};

// ---- what a connection does when data arrives, when it opens and when it is closed from outside
groups.events = rep => {
  const P2 = 'P2PManager';
  const call = (r, f, args, st) => { r.I.thr = []; const cx0 = { self: r.self, frame: { id: ++r.I.frames, parent: null, fn: { name: 'entry' } }, fn: { name: 'entry' }, stack: [], loopStack: [] }; return r.front.callFn(r.I, f, args, st, cx0, 'event'); };
  for (const c of ['HolepunchTransport', 'WebRTCTransport', 'LocalTransport']) {
    const front = { opaque: { [c + '.onMessage']: 'eff', [P2 + '.addConnection']: 'eff', [P2 + '.removeConnection']: 'eff', 'ATransport.close': 'eff', [c + '.close']: 'eff' } };
    const d = L.cls(c).members.find(x => ts.isConstructorDeclaration(x)), r = go(c, d, null, front), w = L.where(d);
    const hs = new Map();
    for (const e of r.events) if (e.kind === 'ext' && ['on', 'once', 'addListener', 'addEventListener'].includes(e.name) && e.args && T.isStr(e.args[0]) && e.raw[1].op === 'fn') hs.set(String(e.args[0].val), { f: e.raw[1], st: e.st });
    for (const e of r.events) if (e.kind === 'write' && e.v && e.v.op === 'fn' && e.loc.op === 'fld') hs.set(e.loc.val.replace(/^on/, ''), { f: e.v, st: e.st, ev: true });
    const fin = r.res[0] && r.res[0].st;
    for (const p of ts.isConstructorDeclaration(d) ? d.parameters : []) for (const n of ['message', 'open', 'close']) { const v = fin && fin.simp(S.read(fin.store, F(par(p.name.getText()), 'on' + n))); if (v && v.op === 'fn') hs.set(n, { f: v, st: fin, ev: true }); }
    const does = (names, args, pats, rule, key) => {
      const h = names.map(n => hs.get(n)).find(Boolean);
      const ok = !!h && !!fin && (() => { const st = fin.clone(); st.trace = S.TR0; const rs = call(r, h.f, args, st); return rs.length > 0 && rs.every(x => { const q = new Query(x.st); return q.infeasible() || q.check(cx => bag(cx, x.st, pats)); }); })();
      rep.ob(`events:${c}:${key}`, ok, w, rule, '');
    };
    const data = par('data'), self = f => (cx, e) => e.kind === 'call' && e.callee === P2 + f && e.raw && e.raw.length === 1 && e.raw[0] === r.self;
    const on = v => (cx, e) => e.kind === 'call' && e.callee === c + '.onMessage' && cx.eq(e.args[0], v);
    if (hs.has('message') && [...hs.values()].some(h => h.ev)) does(['message'], [par('event')], [on(F(par('event'), 'data'))], 'data arriving on a connection is handled as one message', 'data');
    else does(['data', 'message'], [data], [on(data)], 'data arriving on a connection is handled as one message', 'data');
    if (c === 'LocalTransport') continue;
    const own = r.res.length === 1 && fin ? X.effects(fin, 'call').filter(e => e.callee === P2 + '.addConnection') : [];
    if (hs.has('open')) does(['open'], [], [self('.addConnection')], 'an opened connection is added to the open ones', 'open');
    else rep.ob(`events:${c}:open`, own.length === 1 && new Query(fin).check(cx => self('.addConnection')(cx, own[0])), w, 'an opened connection is added to the open ones', '');
    if (hs.has('close')) { const h = hs.get('close'); const st = fin.clone(); st.trace = S.TR0; const rs = call(r, h.f, [], st); rep.ob(`events:${c}:close`, rs.length > 0 && rs.every(x => new Query(x.st).check(cx => bag(cx, x.st, [self('.removeConnection')]) || bag(cx, x.st, [(c2, e) => e.kind === 'call' && /\.close$/.test(e.callee)]))), w, 'a connection that ended is removed', ''); }
    else rep.ob(`events:${c}:close`, false, w, 'a connection that ended is removed', '');
  }
  // what is sent goes out once, on this connection; what arrives is handed over as text, with this connection as its sender
  for (const [c, m, fld] of [['HolepunchTransport', 'write', null], ['WebRTCTransport', 'send', null]]) {
    const t = par('text'), r = go(c, 'send', [t]), out = (cx, e) => e.kind === 'ext' && e.name === m && e.recv && e.recv.op === 'fld' && e.recv.args[0] === r.self && e.args.length >= 1 && cx.eq(e.args[0], t);
    table(rep, `events:${c}:send`, r, { rows: [{ n: 'sent', fx: (cx, st) => bag(cx, st, [out]) }], thr: undefined, rule: 'what is sent on a connection is handed to its own channel, once and as it is' });
    const d = par('data'), r2 = go(c, 'onMessage', [d], { opaque: { [P2 + '.onRpc']: 'eff' } });
    const text = v => v === d || v.op === 'app' && v.args.length && text(v.args[0]);
    table(rep, `events:${c}:receive`, r2, { rows: [{ n: 'handed over', fx: (cx, st) => bag(cx, st, [(c2, e) => e.kind === 'call' && e.callee === P2 + '.onRpc' && text(e.args[0]) && c2.eq(S.read(e.st.store, F(T.root('MainRpcService'), 'senderTransport')), r2.self)]) }], thr: undefined, rule: 'what arrives is handed over once, unchanged, with this connection recorded as the sender before' });
  }
  // closing the socket of a peer also removes the connection
  { const r = go('HolepunchTransport', '_close', [], { opaque: { 'P2PManager.removeConnection': 'eff' } });
    table(rep, 'events:socket', r, { rows: [{ n: 'ended', fx: (cx, st) => X.effects(st, 'ext').some(e => e.name === 'end') && X.effects(st, 'call').length === 1 && E.call('P2PManager.removeConnection', r.self)(cx, X.effects(st, 'call')[0]) }], thr: undefined, rule: 'closing a connection ends its socket and removes it from the open ones' }); }
  { const r = go('WebRTCTransport', '_close', []);
    table(rep, 'events:channel', r, { rows: [{ n: 'ended', fx: (cx, st) => X.effects(st, 'ext').some(e => e.name === 'close') }], thr: undefined, rule: 'closing a connection ends its channel' }); }
};
// ---- after the handshake exactly one of the two sides offers a direct connection, if one of them prefers it
groups.offers = rep => {
  const sig = par('signature'), pt = par('preferredTransport'), r = go('InitHandshakeService', 'onInitHandshakeResponse', [sig, par('responseTime'), pt], { opaque: { 'WebRTCSetupService.initiateWebRTC': 'eff', 'ProfileManager.registerProfile': 'eff', 'ProfileManager.updateTransport': 'eff', 'ProfileManager.getProfileByEvmAddress': 'pure', 'P2PManager.removeConnection': 'eff' } });
  const W = L.enumOf('TransportType', 'WEBRTC'), own = F(T.root('P2pSigner'), 'signerAddress');
  const who = cx => cx.terms(t => t.op === 'app' && t.val === 'recover' && t.args[1] === sig)[0];
  const wants = T.or(T.eq(pt, W), T.eq(F(T.root('P2PManager'), 'preferredTransport'), W)), direct = T.eq(F(F(T.root('MainRpcService'), 'senderTransport'), 'transportType'), W);
  const n = st => X.effects(st, 'call').filter(e => e.callee === 'WebRTCSetupService.initiateWebRTC').length;
  const low = x => T.app('lower', x), strlt = (a, b) => T.app('strlt', a, b), side = [strlt, T.lt, (a, b) => strlt(low(a), low(b))].flatMap(f => [f, (a, b) => f(b, a)]);
  let seen = 0; const w = L.where(r.decl);
  const fits = side.map(lt => r.res.every(x => {
    if (!X.effects(x.st, 'call').some(e => /^ProfileManager\.(register|update)/.test(e.callee))) return n(x.st) === 0 || new Query(x.st).infeasible();
    const q = new Query(x.st); if (q.infeasible()) return true;
    const k = n(x.st); if (k) seen++;
    return k <= 1 && q.check(cx => { const a = who(cx); return !!a && (k ? cx.holds(wants) && cx.holds(T.not(direct)) && cx.holds(lt(own, a)) : cx.holds(T.not(T.and(wants, T.and(T.not(direct), lt(own, a)))))); });
  }));
  L.cover(rep, r);
  rep.ob('offers', seen > 0 && fits.some(Boolean), w, 'once two peers know each other, the one of them singled out by the order of their addresses, and only it, offers a direct connection if one of them prefers that and the connection is not one already', '');
};
module.exports = { groups, eachOf, ext, never, root, go, OPEN, methods };
