'use strict';
// What surrounds the client: the events of the chain, the wiring of the parts, the local execution of the application.
const L = require('./tlib'), X = require('./tspec'), U0 = require('./T_util');
const { T, S, Query, F, par, run, ts, fieldOf } = L;
const { lt, le, not, eq, ne, len, table, E, bag, trace, effects, rd, later } = X;
const { callv, feasible } = U0;
const U = T.UNDEF;
const groups = {};
// a value, possibly converted to a number on the way
const none = (cx, v) => cx.eq(v, U) || cx.eq(v, T.NULL);
const same = (cx, v, want) => v !== undefined && (cx.eq(v, want) || v.op === 'app' && /^(Number|BigInt|toNumber|num)$/.test(v.val) && v.args.length === 1 && cx.eq(v.args[0], want));
// the call, in the background or waited for (that its failure is handled is asked for separately)
const bgCall = (callee, ...ws) => {
  const it = (c, e) => e.kind === 'call' && e.callee === callee && ws.every((w, i) => same(c, e.args[i], w)) && e.args.slice(ws.length).every(x => x === undefined || c.eq(x, U)), bg = E.bg(later([{ fx: (cx, st) => bag(cx, st, [it]) }]));
  return (cx, e) => it(cx, e) || bg(cx, e);
};
const fresh = st => { const s = st.clone(); s.trace = S.TR0; return s; };
// parameters of an event of the contracts, in order
function eventParams(name) {
  const C = require('./clib'), out = [];
  for (const s of Object.values(C.prog().out.sources)) (function v(n) { if (!n || typeof n !== 'object') return; if (Array.isArray(n)) return n.forEach(v); if (n.nodeType === 'EventDefinition' && n.name === name) out.push(n.parameters.parameters); for (const k of ['nodes']) v(n[k]); })(s.ast);
  return out;
}

// ---- events of the chain reach the client, for the current channel only
const EVS = [
  { ev: 'SetState', uses: ['encodedState', 'forkCnt', 'timestamp'], fx: a => [bgCall('StateManager.setState', a('encodedState'), a('forkCnt'), a('timestamp'))] },
  { ev: 'BlockCalldataPosted', uses: ['signedBlock', 'timestamp'], fx: a => [E.hook('onPostedCalldata'), bgCall('StateManager.collectOnChainBlock', a('signedBlock'), a('timestamp'))] },
  { ev: 'DisputeUpdated', uses: ['dispute'], fx: a => [E.call('StateManager.onDisputeUpdate', a('dispute'))] },
];
const OPQ = { 'StateManager.setState': 'eff', 'StateManager.collectOnChainBlock': 'eff', 'StateManager.onDisputeUpdate': 'eff' };
groups.chainEvents = rep => {
  const c = 'StateChannelEventListener', r = run(c, 'setChannelId', { front: { trace: true, opaque: OPQ } }), id = r.args[0], w = L.where(r.decl);
  const on = (st, ev) => trace(st).filter(e => e.kind === 'chain' && e.m === 'on' && e.args[0] && filterOf(e.args[0]) === ev);
  const filterOf = t => { const m = t.op === 'sym' && /^ext_(\w+)@/.exec(t.val); return m ? m[1] : null; };
  const fields = new Map();
  table(rep, 'chain:subscribe', r, { rows: [{ n: 'subscribed', fx: (cx, st) => {
    const es = trace(st); let n = 0;
    for (const { ev } of EVS) {
      const fs = es.filter(e => e.kind === 'ext' && e.name === ev), ons = on(st, ev);
      if (fs.length !== 1 || ons.length !== 1 || !(fs[0].args.length >= 1 && cx.eq(fs[0].args[0], id)) || ons[0].raw[1].op !== 'fn') return false;
      const f = fieldHolding(r.self, st, ons[0].args[0]);
      if (!f) return false;
      fields.set(ev, f);
      const offs = es.filter(e => e.kind === 'chain' && e.m === 'off' && cx.eq(e.args[0], F(r.self, f)));
      const was = cx.holds(ne(F(r.self, f), U)) && cx.holds(ne(F(r.self, f), T.NULL));
      if (!was && !none(cx, F(r.self, f))) return false;
      if (was ? offs.length !== 1 || es.indexOf(offs[0]) > es.indexOf(ons[0]) : offs.length !== 0) return false;
      n += 2 + offs.length;
    }
    return es.filter(e => e.kind === 'ext' || e.kind === 'chain').length === n;
  } }], thr: undefined, rule: 'entering a channel subscribes once to each of its events and gives up the events of the channel before' });
  rep.ob('chain:fields', new Set(fields.values()).size === EVS.length, w, 'each subscription is remembered by itself', [...fields.values()].join());
  const x = r.res.find(y => feasible(y) && EVS.every(({ ev }) => on(y.st, ev).length === 1));
  for (const { ev, uses, fx } of EVS) {
    const ps = eventParams(ev);
    rep.ob('chain:event:' + ev, ps.length >= 1 && ps.every(p => uses.every(u => p.some(q => q.name === u))), w, 'the contracts emit the event with the values the client reads', '');
    rep.ob('chain:filter:' + ev, ps.length >= 1 && ps.every(p => p.length && p[0].indexed), w, 'the first value of the event is its indexed channel', '');
    if (!x) continue;
    const log = par('log'), a = n => F(log, 'args', n), h = on(x.st, ev)[0].raw[1];
    const { res, thr } = callv(r, h, [log], fresh(x.st)), fe = res.filter(feasible);
    rep.ob('chain:handle:' + ev, fe.length > 0 && fe.every(y => new Query(y.st).check(cx => bag(cx, y.st, fx(a)))), w, 'an event of the chain is passed on once, with exactly its values', '');
    rep.ob('chain:safe:' + ev, thr.filter(feasible).every(t => T.pp(t.v) === 'err:StateManager.onDisputeUpdate'), w, 'no event of the chain makes its handler fail', thr.filter(feasible).map(t => T.pp(t.v)).join());
  }
  { const d = run(c, 'dispose', { front: { trace: true, opaque: OPQ } });
    table(rep, 'chain:dispose', d, { rows: [{ n: 'given up', fx: (cx, st) => [...fields.values()].every(f => { const v = F(d.self, f), offs = trace(st).filter(e => e.kind === 'chain' && e.m === 'off' && cx.eq(e.args[0], v)).length; return none(cx, v) ? offs === 0 : cx.holds(ne(v, U)) && offs === 1; }) && trace(st).filter(e => e.kind === 'chain').every(e => e.m === 'off') }], thr: undefined, rule: 'disposing gives up every subscription' }); }
};
function fieldHolding(self, st, v) {
  for (let e = st.store; e && e.prev; e = e.prev) if (e.loc && e.loc.op === 'fld' && e.loc.args[0] === self && st.simp(S.read(st.store, e.loc)) === v) return e.loc.val;
  return null;
}

// ---- the parts of the client are wired to each other
groups.wiring = rep => {
  const SMc = 'StateManager', eff = { opaque: { 'StateChannelEventListener.setChannelId': 'eff', 'StateChannelEventListener.setP2pEventHooks': 'eff', 'DisputeHandler.setP2pEventHooks': 'eff', 'DisputeHandler.setChannelId': 'eff', 'DisputeHandler.onDispute': 'eff', 'StateChannelEventListener.dispose': 'eff', 'P2PManager.dispose': 'eff', 'StateManager.dispose': 'eff', 'StateManager.setP2pEventHooks': 'eff' }, trace: true };
  const go = (c, m) => run(c, m, { front: eff });
  { const r = go(SMc, 'setChannelId'), id = r.args[0], f = currentField(SMc, 'getChannelId');
    table(rep, 'wire:channel', r, { rows: [{ n: 'set', fx: (cx, st) => f && cx.eq(rd(st, f), id) && bag(cx, st, [E.call('DisputeHandler.setChannelId', id), bgCall('StateChannelEventListener.setChannelId', id)]) }], thr: undefined, rule: 'entering a channel makes it the current one everywhere' }); }
  { const r = run('DisputeHandler', 'setChannelId', { front: { trace: true } });
    table(rep, 'wire:disputes', r, { rows: [{ n: 'set', fx: (cx, st) => writesOnly(st, r.self, 'channelId', r.args[0]) }], thr: [], rule: 'disputes are about the current channel' }); }
  { const r = go(SMc, 'setP2pEventHooks'), h = r.args[0];
    table(rep, 'wire:hooks', r, { rows: [{ n: 'set', fx: (cx, st) => cx.eq(rd(st, F(r.self, 'p2pEventHooks')), h) && bag(cx, st, [E.call('DisputeHandler.setP2pEventHooks', h), E.call('StateChannelEventListener.setP2pEventHooks', h)]) }], thr: undefined, rule: 'new hooks of the application are used everywhere' }); }
  for (const c of ['DisputeHandler', 'StateChannelEventListener']) { const r = run(c, 'setP2pEventHooks', { front: { trace: true } });
    table(rep, 'wire:hooks:' + c, r, { rows: [{ n: 'set', fx: (cx, st) => cx.eq(rd(st, F(r.self, 'p2pEventHooks')), r.args[0]) }], thr: [], rule: 'new hooks of the application are used everywhere' }); }
  { const r = go(SMc, 'onDisputeUpdate'), d = r.args[0];
    table(rep, 'wire:dispute', r, { rows: [{ n: 'handled', fx: (cx, st) => bag(cx, st, [bgCall('DisputeHandler.onDispute', d), E.hook('onDisputeUpdate', d)]) }], thr: [], rule: 'a dispute seen on chain is handled once and announced to the application' }); }
  { const r = go(SMc, 'dispose');
    table(rep, 'wire:dispose', r, { rows: [{ n: 'disposed', fx: (cx, st) => cx.holds(rd(st, F(r.self, 'isDisposed'))) && bag(cx, st, [E.call('StateChannelEventListener.dispose'), E.call('P2PManager.dispose')]) }], thr: undefined, rule: 'disposing the client stops everything it does' }); }
  { const r = go('P2pInstance', 'dispose');
    table(rep, 'wire:instance', r, { rows: [{ n: 'disposed', fx: (cx, st) => effects(st, 'call').length === 1 && E.call('StateManager.dispose')(cx, effects(st, 'call')[0]) && effects(st, 'chain').concat(effects(st, 'ext')).filter(e => /^(removeAllListeners|off)$/.test(e.m || e.name) && cx.eq(e.recv, F(T.root('P2pInstance'), 'p2pContractInstance')) && e.args.length === 0).length === 1 }], thr: undefined, rule: 'disposing the client stops everything it does, and nothing is announced to the application any more' }); }
  { const r = go('P2pInstance', 'setHooks');
    table(rep, 'wire:instanceHooks', r, { rows: [{ n: 'set', fx: (cx, st) => bag(cx, st, [E.call('StateManager.setP2pEventHooks', r.args[0])]) }], thr: undefined, rule: 'new hooks of the application are used everywhere' }); }
  for (const [m, want] of [['getForkCnt', 'AgreementManager.getLatestForkCnt'], ['getNextBlockHeight', 'AgreementManager.getNextBlockHeight']]) {
    const r = run(SMc, m, { front: { trace: true, opaque: { [want]: 'pure' } } });
    table(rep, 'wire:' + m, r, { rows: [{ n: 'value', ret: T.app(want) }], thr: undefined, rule: 'the client\'s view of the channel is that of its stored history' });
  }
};
const currentField = (c, m) => { const r = run(c, m, { front: {} }); return r.res.length === 1 && r.res[0].v.op === 'fld' ? r.res[0].v : null; };
const writesOnly = (st, self, f, v) => st.simp(S.read(st.store, F(self, f))) === v;

// ---- local execution of the application
groups.evm = rep => {
  const c = 'ContractExecuter', evm = F(T.root(c), U0.fieldsOf(c, t => t === 'EVM')[0]), adr = F(T.root(c), U0.fieldsOf(c, t => t === 'Address')[0]);
  for (const [m, onCopy] of [['executeCall', false], ['simulateCall', true]]) {
    const r = run(c, m, { front: { rawEvm: true, trace: true } }), data = r.args[0];
    const ran = (cx, st) => {
      const es = trace(st).filter(e => e.kind === 'ext' && e.name !== 'shallowCopy'), cp = trace(st).filter(e => e.kind === 'ext' && e.name === 'shallowCopy');
      if (es.length !== 1 || es[0].name !== 'runCall' || cp.length !== (onCopy ? 1 : 0) || effects(st, 'call').length) return null;
      const o = es[0].raw[0], g = n => st.simp(S.select((es[0].st || st).store, o, n, null)), ok = v => v === U || v.op === 'dflt';
      const on = onCopy ? cx.eq(cp[0].recv, evm) && /^ext_shallowCopy@/.test(String(es[0].recv.val)) : cx.eq(es[0].recv, evm);
      if (!(on && cx.eq(g('data'), data) && cx.eq(g('to'), adr))) return null;
      return [...T.collect(T.app('x', ...facts(st)), t => t.op === 'fld' && t.val === 'exceptionError')][0] || null;
    };
    const facts = st => st.items.filter(i => i.k === 'lit').map(i => i.t);
    // the reason given by the application: the text after the selector of what it returned
    const reason = v => [...T.collect(v, t => t.op === 'app' && /^unabi/.test(t.val))].some(t => t.args[0] === T.str('string') && (b => b.op === 'app' && (b.val === 'concat' && b.args.length === 2 && b.args[0] === T.str('0x') && b.args[1].op === 'app' && b.args[1].val === 'slice' && b.args[1].args[1] === T.num(10n) && b.args[1].args.length === 2 && ret(b.args[1].args[0]) || /^(dataSlice|sub|bslice|slice)$/.test(b.val) && T.isNum(b.args[1]) && Number(b.args[1].val) === 4 && ret(b.args[0])))(t.args[1]));
    const ret = t => t.op === 'fld' && t.val === 'returnValue';
    table(rep, 'evm:' + m, r, { rows: [{ n: 'executed', fx: (cx, st) => { const ex = ran(cx, st); return ex && cx.eq(ex, U); }, ret: (cx, st, v) => v.op === 'fld' && v.val === 'execResult' && /^ext_runCall@/.test(String(v.args[0].val)) }],
      thr: (cx, st, x) => { const ex = ran(cx, st); return ex && cx.holds(ne(ex, U)) && (x.v.op === 'sym' || reason(x.v)); }, rule: onCopy ? 'a query runs on a copy, so that it neither changes the state nor meets a transaction half way' : 'a transaction runs on the application\'s state', thrRule: 'a call is reported as failed exactly if its execution failed' });
    rep.ob('evm:' + m + ':fails', r.thr.some(feasible), L.where(r.decl), 'a failed execution is reported', '');
  }
  const X0 = 'ContractExecuter.', M = 'EvmStateMachine', opq = { [X0 + 'executeCall']: 'eff', [X0 + 'simulateCall']: 'eff', [M + '.processLogs']: 'eff' };
  const front = { rawEvm: true, trace: true, opaque: opq }, go = (m, args) => run(M, m, Object.assign({ front }, args ? { args } : {}));
  // the only call made is `how` with the encoding of `fn(args)`
  const asked = (cx, st, how, fn, ...as) => {
    const cs = effects(st, 'call'), en = trace(st).filter(e => e.kind === 'ext' && e.name === 'encodeFunctionData');
    if (cs.length !== 1 || cs[0].callee !== X0 + how || en.length !== 1 || !cx.eq(en[0].args[0], T.str(fn)) || !/^ext_encodeFunctionData@/.test(String(cs[0].args[0].val))) return false;
    const l = en[0].raw[1], st0 = en[0].st || st, n = l ? st0.simp(S.select(st0.store, l, 'length', null)) : T.ZERO;
    return cx.eq(n, T.num(BigInt(as.length))) && as.every((a, i) => cx.eq(st0.simp(S.select(st0.store, l, null, T.num(BigInt(i)))), a));
  };
  const back = (v, how) => v.op === 'fld' && v.val === 'returnValue' && String(v.args[0].val).startsWith('r_' + X0 + how + '@');
  const unabi = (v, ty, how) => v.op === 'app' && /^unabi/.test(v.val) && v.args[0] === T.str(ty) && v.args[1] && back(v.args[1], how);
  for (const [m, ty] of [['getParticipants', 'address[]'], ['getNextToWrite', 'address'], ['getState', 'bytes']]) {
    const r = go(m);
    table(rep, 'evm:' + m, r, { rows: [{ n: 'value', fx: (cx, st) => asked(cx, st, 'simulateCall', m), ret: (cx, st, v) => unabi(v, ty, 'simulateCall') || trace(st).some(e => e.kind === 'ext' && e.name === 'toArray' && unabi(e.recv, ty, 'simulateCall')) && /^ext_toArray@/.test(String(v.val)) }],
      thr: (cx, st) => effects(st, 'call').every(e => e.callee === X0 + 'simulateCall'), rule: 'a question about the state of the application is answered by the application, without touching its state' });
  }
  { const r = go('setState');
    table(rep, 'evm:setState', r, { rows: [{ n: 'set', ret: T.TRUE, fx: (cx, st) => asked(cx, st, 'executeCall', 'setState', r.args[0]) }], thr: (cx, st, x) => effects(st, 'call').length <= 1, rule: 'setting the state succeeds only if the application took exactly this state' });
    rep.ob('evm:setState:fails', r.thr.some(feasible), L.where(r.decl), 'a state the application refuses is reported', ''); }
  { const r = go('runView'), tx = r.args[0];
    table(rep, 'evm:view', r, { rows: [{ n: 'value', fx: (cx, st) => { const cs = effects(st, 'call'); return cs.length === 1 && cs[0].callee === X0 + 'simulateCall' && cx.eq(cs[0].args[0], F(tx, 'data')); }, ret: (cx, st, v) => back(v, 'simulateCall') }], thr: (cx, st) => effects(st, 'call').length === 0 || true, rule: 'a view of the application runs exactly the given call and changes nothing' }); }
  { const r = go('stateTransition'), tx = r.args[0];
    const cbOf = (st, v) => fieldOf(st, v, 'successCallback'), okOf = (st, v) => fieldOf(st, v, 'success');
    const runs = (st, f, n) => { if (f.op !== 'fn') return false; const { res, thr } = callv(r, f, [], fresh(st)); return res.some(feasible) && (n || thr.filter(feasible).length === 0) && res.filter(feasible).every(y => new Query(y.st).check(cx => bag(cx, y.st, n ? [(c, e) => e.kind === 'call' && e.callee === M + '.processLogs' && e.args[0].op === 'fld' && e.args[0].val === 'logs' && String(e.args[0].args[0].val).startsWith('r_' + X0 + 'executeCall@')] : []))); };
    table(rep, 'evm:transition', r, { rows: [
      { n: 'done', fx: (cx, st, x) => cx.holds(okOf(st, x.v)) && asked(cx, st, 'executeCall', 'stateTransition', tx) && runs(st, cbOf(st, x.v), true) },
      { n: 'failed', fx: (cx, st, x) => cx.holds(not(okOf(st, x.v))) && (effects(st, 'call').length === 0 || asked(cx, st, 'executeCall', 'stateTransition', tx)) && runs(st, cbOf(st, x.v), false) },
    ], thr: [], rule: 'a transaction succeeds exactly if the application executed it, and only then its events are announced, later' }); }
  { const r = run(M, 'processLogs', { front: { rawEvm: true, trace: true } }), logs = r.args[0];
    // the topics and the data of the record (its second and third part) are what is parsed
    const part = (t, n) => [...T.collect(t, z => z.op === 'idx' && z.args[0].op === 'idx' && z.args[0].args[0] === logs)].every(z => z.args[1] === T.num(n));
    const record = (cx, st, e, es) => {
      const s = e.st || st, g = n => s.simp(S.select(s.store, e.raw[0], n, null)), maps = es.filter(x => x.kind === 'ext' && x.name === 'map');
      const tp = maps.length ? maps.map(x => x.recv) : [g('topics')];
      const same = maps.every(x => { const f = x.raw[0], q = T.sym('topic'), o = f && f.op === 'fn' ? callv(r, f, [q], fresh(st)) : null; return o && o.res.filter(feasible).length && o.res.filter(feasible).every(y => y.v === q); });
      return same && tp.every(t => part(t, 1) && (t.op === 'idx' || maps.length === 0)) && part(g('data'), 2) && (g('data') === U || [...T.collect(g('data'), z => z.op === 'idx')].length > 0);
    };
    const round = (cx, st, el) => {
      const es = trace(st).filter(e => e.kind !== 'caught'), ps = es.filter(e => e.kind === 'ext' && e.name === 'parseLog'), em = es.filter(e => (e.kind === 'chain' || e.kind === 'ext') && (e.m || e.name) === 'emit');
      return ps.length === 1 && em.length <= 1 && es.every(e => ps.includes(e) || em.includes(e) || e.kind === 'ext' && e.name === 'map') && em.every(e => /^ext_parseLog@/.test(T.pp(e.args[0])) && e.args[0].val === 'name' && e.recv && e.recv.op === 'fld' && e.args.length === 2 && T.collect(e.args[1], t => t.op === 'fld' && t.val === 'args' && /^ext_parseLog@/.test(String(t.args[0].val))).size === 1)
        && cx.eq(ps[0].recv, F(T.root(M), U0.fieldsOf(M, t => /Interface$/.test(t))[0])) && record(cx, st, ps[0], es);
    };
    table(rep, 'evm:logs', r, { rows: [
      { n: 'none', when: [[eq(logs, U)], [eq(len(logs), T.ZERO)]], fx: (cx, st) => trace(st).length === 0 },
      { n: 'all', when: [[ne(logs, U)]], fx: (cx, st) => { const es = trace(st); return es.length === 1 && es[0].kind === 'loop' && X.wholeLoop(cx, es[0], len(logs)) && es[0].info.alts.every(al => al.st && new Query(al.items).check(c => new Query(al.items).infeasible() || round(c, al.st))) && es[0].info.alts.some(al => trace(al.st).some(e => (e.m || e.name) === 'emit')); } },
    ], thr: [], rule: 'the events of a transaction are announced once each, and one that cannot be announced does not stop the others' }); }
};
// ---- setting up the client
groups.setup = rep => {
  const M = 'EvmStateMachine', r = run(M, 'p2pSetup', { front: { rawEvm: true, rawProxy: true, trace: true, wires: true, opaque: { 'Clock.init': 'eff', [M + '.createStandalone']: 'eff' } } }), w = L.where(r.decl);
  const C = require('./clib'), names = ['p2pTime', 'agreementTime', 'chainFallbackTime', 'challengeTime'];
  const [signer, , contract] = r.args;
  let n = 0;
  for (const x of r.res) {
    if (!feasible(x)) continue;
    const es = trace(x.st), first = es.filter(e => ['call', 'chain', 'ext'].includes(e.kind))[0];
    rep.ob('setup:clock', first && first.kind === 'call' && first.callee === 'Clock.init' && first.args[0] === F(signer, 'provider'), w, 'the clock is synchronised with the chain before anything else', '');
  }
  const order = timeOrder(C);
  rep.ob('setup:order', !!order && names.every(v => order.includes(v)), w, 'the contracts report the four time constants', String(order));
  if (order) for (const e of r.events.filter(e => e.kind === 'new' && e.cls === 'StateManager')) {
    const tc = e.raw[4]; n++;
    const got = names.map(f => e.st.simp(S.select(e.st.store, tc, f, null)));
    const full = new Query(e.st).check(cx => got.every((v, i) => v === U || v.op === 'idx' && v.args[1] === T.num(BigInt(order.indexOf(names[i]))) && /getAllTimes/.test(T.pp(v.args[0]))));
    rep.ob('setup:times:' + n, full, w, 'each time constant is the one of the contracts with the same meaning', got.map(v => T.pp(v).slice(-6)).join());
  }
  rep.floor('client objects set up', n, 1, 'state managers created');
  { // everything set up is connected with everything else
    const hooks = r.args[4], app = r.args[3], proxied = new Set(r.events.filter(e => e.kind === 'new' && e.cls === 'Proxy').filter(e => e.raw[0] && /^chain_connect@/.test(String(e.raw[0].val))).map(() => 1));
    const conn = t => t && t.op === 'sym' && (/^chain_connect@/.test(String(t.val)) || /^new_Proxy@/.test(String(t.val)) && proxied.size > 0);
    for (const e of r.events.filter(e => e.kind === 'new' && e.cls === 'StateManager')) {
      const q = new Query(e.st); if (q.infeasible()) continue;
      const [sg, ad, ct, sm, , hk] = e.raw, cs = trace(e.st);
      rep.ob('setup:state', q.check(cx => sg === signer && /^ext_getAddress@/.test(String(ad.val)) && cs.some(x => x.kind === 'ext' && x.name === 'getAddress' && x.recv === signer) && conn(ct) && cs.some(x => x.kind === 'chain' && x.m === 'connect' && x.recv === contract && x.args[0] === signer)
        && sm === T.root('StateMachine') && (hk === hooks || hk.op === 'ref' && (cx.eq(hooks, U) || cx.eq(hooks, T.NULL)))), w, 'the client is set up for the given account, with the contract connected to it, the local application and the given hooks', e.raw.map(t => T.pp(t).slice(0, 40)).join());
    }
    const p2p = v => v && /^ext_connect@/.test(String(v.val)), M1 = f => F(T.root('StateMachine'), f), smf = U0.fieldsOf(M, t => /^StateManager( |$)/.test(t))[0], cf = U0.fieldsOf(M, t => /^AStateMachine\w*( |$)/.test(t))[0];
    for (const x of r.res) { if (!feasible(x)) continue;
      rep.ob('setup:connected', smf && cf && trace(x.st).filter(e => e.kind === 'wire' && e.name === smf && e.recv === T.root('StateMachine')).slice(-1).some(e => e.v === T.root('StateManager')) && p2p(rd(x.st, M1(cf))) && trace(x.st).filter(e => e.kind === 'ext' && e.name === 'connect').every(e => e.recv === app && e.args[0] === T.root('P2pSigner')), w, 'what the application announces reaches the application\'s object, whose calls go through the channel', [smf, cf].map(f => f && T.pp(rd(x.st, M1(f))).slice(0, 60)).join()); }
    const pi = r.events.filter(e => e.kind === 'new' && e.cls === 'P2pInstance');
    rep.ob('setup:handed', pi.length > 0 && pi.every(e => e.raw.some(p2p) && e.raw.some(v => v === T.root('P2pSigner'))), w, 'the caller gets the application\'s object and the account of the channel', '');
  }
  const c = run(M, 'createStandalone', { front: { rawEvm: true, trace: true, construct: true } }), tx = c.args[0];
  const made = es => es.filter(e => e.kind === 'ext');
  const fail = st => [...new Set(st.items.filter(i => i.k === 'lit').flatMap(i => [...T.collect(i.t, t => t.op === 'fld' && ['exceptionError', 'createdAddress'].includes(t.val))]))];
  table(rep, 'setup:deploy', c, { rows: [{ n: 'deployed', fx: (cx, st) => {
    const es = made(trace(st)); if (es.length !== 2 || es[0].name !== 'create' || es[1].name !== 'runCall' || !/^ext_create@/.test(String(es[1].recv.val))) return false;
    const g = n => st.simp(S.select(st.store, es[1].raw[0], n, null)), fs = fail(st), ex = fs.find(t => t.val === 'exceptionError'), ad = fs.find(t => t.val === 'createdAddress');
    const A = f => F(T.root('ContractExecuter'), f), evm = U0.fieldsOf('ContractExecuter', t => t === 'EVM')[0], adr = U0.fieldsOf('ContractExecuter', t => t === 'Address')[0];
    return cx.eq(g('data'), F(tx, 'data')) && (g('to') === U || g('to').op === 'dflt') && ex && ad && cx.eq(ex, U) && cx.holds(ne(ad, U)) && cx.eq(rd(st, A(adr)), ad) && cx.eq(rd(st, A(evm)), es[1].recv);
  } }], thr: (cx, st) => fail(st).some(t => t.val === 'exceptionError' ? cx.holds(ne(t, U)) : cx.eq(t, U)), rule: 'the application runs in an environment of its own, at the address where it was deployed', thrRule: 'setting up fails only if the application could not be deployed' });
};
// the order in which the contracts return the time constants
function timeOrder(C) {
  let out = null;
  const ids = n => n && (n.nodeType === 'TupleExpression' ? n.components.map(c => c && c.name) : null);
  for (const s of Object.values(C.prog().out.sources)) (function v(n) { if (!n || typeof n !== 'object') return; if (Array.isArray(n)) return n.forEach(v);
    if (n.nodeType === 'FunctionDefinition' && n.name === 'getAllTimes' && n.body) (function u(m) { if (!m || typeof m !== 'object') return; if (Array.isArray(m)) return m.forEach(u); if (m.nodeType === 'Return') { const l = ids(m.expression); if (l) out = l; return; } for (const k of Object.keys(m)) u(m[k]); })(n.body);
    v(n.nodes); })(s.ast);
  return out;
}
module.exports = { groups, same, bgCall, fresh, eventParams };
