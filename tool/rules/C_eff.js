'use strict';
// C24: effects of a dispute on the state.  C01 opening.  C21 re-entrancy and failures of the state machine.  C22 facet and manager agree.
const L = require('./clib'); const { T, S, Query, Ctx, F, dec, blk, hdr, keccak, ST, now, SENDER, SELF, rd, memberOf } = L;
const C = require('./C_proofs'), H = require('./C_chan'), D2 = require('./C_disp2'); const { emits, D0, trusted, fullRange } = H;
const okOf = { join: 'joinOk', slash: 'slashOk', remove: 'removeOk' }, exOf = { slash: 'slashExit', remove: 'removeExit' };
// every pass of a loop over list[0..len) applies op to the element at hand, to the state carried from pass to pass
function stageLoop(I, cx, X, list, len, op, st) {
  const info = I.loopByPhi.get(X); if (!info || !info.ind) return null;
  const m = info.phis.get(X); if (m.kind !== 'loc' && m.kind !== 'var') return null;
  if (info.ind.init !== T.ZERO || info.it.brk.length || (info.it.ret || []).length || !fullRange(null, info, len)) return null;
  for (const al of info.alts) {
    const q = new Query(al.st); if (q.infeasible()) continue;
    const el = rd(al.st, T.idx(list, info.ind.phi)), el2 = rd(info.h, T.idx(list, info.ind.phi)), el3 = rd(st, T.idx(list, info.ind.phi));
    const nx = al.next(X);
    if (nx.op !== 'app' || nx.val !== op || nx.args[0] !== X || !q.check(cx => [el, el2, el3].some(e => cx.eq(nx.args[1], e)))) return null;
  }
  return { info, init: m.init, X };
}
// counting variable of a loop: +1 exactly when the operation succeeds
function okCount(g, op) {
  const { info, X } = g;
  return [...info.phis].filter(([p, m]) => m.kind === 'var' && m.init === T.ZERO && p !== info.ind.phi && info.alts.every(al => {
    const q = new Query(al.st); if (q.infeasible()) return true; const ok = T.app(okOf[op], X, al.next(X).args[1]);
    return q.check(cx => cx.holds(ok) ? cx.eq(al.next(p), T.add(p, T.ONE)) : cx.holds(T.not(ok)) && cx.eq(al.next(p), p));
  })).map(x => x[0]);
}
function C24(rep) {
  let n = 0, pu = 0;
  for (const c of L.managers()) for (const name of ['createDispute', 'challengeDispute']) {
    const a = L.entry(c, name, { raise: true }); L.cover(rep, a); const k = `${c.name}.${name}`, D = D0(a.args[0]);
    const posted = name === 'createDispute' ? a.args[3] : a.args[6];
    const stages = new Set();
    for (const e of emits(a, 'DisputeUpdated')) {
      n++; const w = L.at(e), st = e.st, q = new Query(st), r = x => rd(st, F(D, x));
      const explain = [];
      const run = cx => {
        let X = r('encodedLatestCorrectState'), total = T.ZERO; explain.length = 0;
        const t = r('timedoutParticipant');
        if (!cx.eq(t, T.ZERO)) {
          if (!cx.holds(T.ne(t, T.ZERO))) return explain.push('unknown whether a timeout is active'), false;
          if (!(X.op === 'app' && X.val === 'remove' && cx.eq(X.args[1], t))) return explain.push('the timed-out participant is not the last one removed'), false;
          const ok = T.app('removeOk', X.args[0], X.args[1]);
          if (cx.holds(ok)) total = T.add(total, T.ONE); else if (!cx.holds(T.not(ok))) return false;
          X = X.args[0];
        }
        for (const [f, op] of [['leaveChannelParticipants', 'remove'], ['slashedParticipants', 'slash'], ['joinChannelParticipants', 'join']]) {
          const list = F(D, f), len = r2(f, 'length');
          if (cx.eq(len, T.ZERO)) continue;
          const g = stageLoop(a.I, cx, X, list, len, op, st);
          if (!g) return explain.push(`${op} is not applied to every entry of ${f}`), false;
          const cnt = okCount(g, op);
          if (op === 'join') { if (!(cnt.some(p => cx.eq(p, len)) || g.info.alts.every(al => new Query(al.st).holds(T.app('joinOk', X, al.next(X).args[1]))))) return explain.push('a failed join is not rejected'), false; }
          else { const p = cnt.find(p => [...T.collect(r2('processExits', 'length'), x => x === p, new Set(), new Set())].length) || cnt[0]; if (!p) return explain.push('successful operations are not counted'), false; total = T.add(total, p); stages.add(g.info); }
          X = g.init;
        }
        if (!cx.eq(X, posted)) return explain.push('the effects are not applied to the posted latest state: ' + T.pp(X).slice(0, 100)), false;
        if (!cx.eq(r2('processExits', 'length'), total)) return explain.push(`recorded exits ${T.pp(r2('processExits', 'length')).slice(0, 80)} for ${T.pp(total).slice(0, 80)} successful removals`), false;
        return true;
        function r2(...x) { return rd(st, F(D, ...x)); }
      };
      rep.ob(`${k}:threaded`, q.check(run), w, 'the resulting state is the posted state with joins, slashes, removals and the timeout applied, and each successful removal recorded', explain.join('; '));
      const ss = S.traceList(st.trace).filter(t => t.kind === 'emit' && t.name === 'SetState');
      rep.ob(`${k}:fork`, ss.length === 1 && q.check(cx => cx.eq(ss[0].vs[1], r('encodedLatestCorrectState'))), w, 'the new fork starts from exactly that state', '');
    }
    // what is recorded as an exit
    for (const e of a.events) {
      const wl = e.kind === 'push' && L.dispField(e.loc); if (!wl || wl.field !== 'processExits') continue;
      const q = new Query(e.pre); if (q.infeasible()) continue; pu++;
      rep.ob(`${k}:exit`, q.check(cx => exitOk(a, cx, e)), L.at(e), 'a recorded exit is the one the state machine returned for a successful removal, in order', T.pp(e.v).slice(0, 200));
    }
    for (const e of a.events) {
      const wl = (e.kind === 'write' || e.kind === 'pop') && L.dispField(e.loc); if (!wl || wl.field !== 'processExits' || !e.pre || new Query(e.pre).infeasible()) continue;
      rep.ob(`${k}:exit-write`, e.kind === 'write' && wl.rest.length <= 1 && (e.v === T.ZERO || e.v.op === 'struct' || (e.v.op === 'arr' && !e.v.args.length)) && !(wl.rest[0] && wl.rest[0].op === 'idx'), L.at(e), 'recorded exits are only appended or cleared', T.pp(e.v || T.ZERO).slice(0, 100));
    }
  }
  rep.floor('disputes', n, 2, 'reachable dispute records'); rep.floor('exits', pu, 3, 'exit records');
}
function exitOk(a, cx, e) {
  const isExit = (v, q) => v.op === 'app' && Object.values(exOf).includes(v.val) && q(T.app(v.val === 'slashExit' ? 'slashOk' : 'removeOk', v.args[0], v.args[1]));
  if (isExit(e.v, t => cx.holds(t))) return true;
  const u = e.v.op === 'at' ? e.v.args[0] : e.v; if (u.op !== 'idx') return false;
  const arr = u.args[0], inner = e.loopStack[e.loopStack.length - 1];
  if (!inner || !inner.ind || u.args[1] !== inner.ind.phi || inner.ind.init !== T.ZERO || inner.it.brk.length) return false;
  // the loop that filled the array
  for (let w = e.pre.store; w.prev; w = w.prev) {
    if (!w.loc || S.decompose(w.loc).base !== arr) continue;
    if (w.kind === 'w') return false;
    const info = loops(a.I).find(i => [...i.phis.values()].some(m => m.kind === 'region' && m.loc === arr && (w.key === 'h' + m.phi.id || w.key === 'h' + m.phi.id + 'e')));
    if (!info) return false;
    const X = [...info.phis.keys()].find(p => info.alts.every(al => { const n = al.next(p); return n && n.op === 'app' && (n.val === 'slash' || n.val === 'remove') && n.args[0] === p; })); if (!X) return false;
    return [...info.phis].some(([p, m]) => m.kind === 'var' && m.init === T.ZERO && p !== info.ind.phi && fullRange(null, inner, p) && info.alts.every(al => {
      const q = new Query(al.st); if (q.infeasible()) return true; const nx = al.next(X), ok = T.app(okOf[nx.val], X, nx.args[1]);
      const atP = H.storeChain(al.st, info.h.store); for (const x of atP) { const d = S.decompose(x.loc); if (d.base === arr && !(x.kind === 'w' && d.steps[0].args[1] === p)) return false; }
      return q.check(cx => cx.holds(ok) ? cx.eq(al.next(p), T.add(p, T.ONE)) && cx.eq(rd(al.st, T.idx(arr, p)), T.app(exOf[nx.val], X, nx.args[1])) : cx.holds(T.not(ok)) && cx.eq(al.next(p), p));
    }));
  }
  return false;
}

// ---- C21
function C21(rep) {
  let n = 0, m = 0;
  const sms = [...L.prog().contracts.values()].filter(c => c.abstract && c.nodes.some(f => f.nodeType === 'FunctionDefinition' && f.name === 'stateTransition' && f.body));
  rep.floor('sm', sms.length, 1, 'abstract state machines');
  for (const c of sms) {
    const flags = c.nodes.filter(v => v.nodeType === 'VariableDeclaration' && v.stateVariable && L.norm(L.ts(v)) === 'bool').map(v => T.root(v.name));
    const fds = c.nodes.filter(f => f.nodeType === 'FunctionDefinition' && f.body && ['public', 'external'].includes(f.visibility) && !['view', 'pure'].includes(f.stateMutability) && f.kind === 'function');
    for (const fd of fds) {
      const a = L.entry(c, fd, { raise: true }); L.cover(rep, a); const k = `${c.name}.${fd.name}`, w = L.prog().loc(fd.src);
      const ops = a.events.filter(e => ['hook', 'lowcall', 'extcall', 'opaque'].includes(e.kind) && !new Query(e.st).infeasible());
      rep.floor(k, ops.length, 1, 'application operation');
      for (const e of ops) {
        n++; const q = new Query(e.st);
        const g = flags.filter(G => q.check(cx => cx.holds(T.not(G))) && q.check(cx => cx.holds(rd(e.st, G)) || cx.eq(rd(e.st, G), T.TRUE)));
        rep.ob(`${k}:guarded`, g.length > 0, L.at(e), 'application code runs only while the re-entrancy flag, clear at entry, is set', '');
      }
      for (const r of a.rs) {
        const q = new Query(r.st); if (q.infeasible()) continue; m++;
        rep.ob(`${k}:released`, flags.some(G => q.check(cx => cx.holds(T.not(G))) && q.check(cx => cx.eq(rd(r.st, G), T.FALSE) || cx.holds(T.not(rd(r.st, G))))), w, 'the flag is clear again after every successful call', '');
        const tr = S.traceList(r.st.trace).filter(t => t.kind === 'hook' || t.kind === 'lowcall');
        rep.ob(`${k}:once`, tr.length === 1, w, 'the application operation runs exactly once', `${tr.length} operations`);
        if (tr.length === 1 && tr[0].kind === 'hook') {
          rep.ob(`${k}:args`, tr[0].vs.length === a.args.length && a.args.every((x, i) => q.eq(tr[0].vs[i], x)), w, 'the operation gets exactly the given argument', tr[0].vs.map(T.pp).join(', ').slice(0, 200));
          const rets = (fd.returnParameters.parameters || []).length;
          if (rets) rep.ob(`${k}:result`, resultOf(r.v, tr[0]), w, 'the result of the operation is returned unchanged', T.pp(r.v).slice(0, 200));
        } else if (tr.length === 1) {
          const t = tr[0], tx = a.args[0];
          rep.ob(`${k}:call`, q.check(cx => cx.eq(t.target, SELF) && cx.eq(t.data, F(tx, 'body', 'data'))), w, 'the transaction is executed by calling the state machine with exactly its data', `${T.pp(t.target)} ${T.pp(t.data).slice(0, 80)}`);
          rep.ob(`${k}:failure`, q.holds(t.ok) && q.holds(r.v), w, 'a failed transaction never completes the transition', T.pp(r.v));
        }
      }
      for (const e of ops.filter(e => e.kind === 'lowcall')) {
        const stored = c.nodes.filter(v => v.nodeType === 'VariableDeclaration' && v.stateVariable && /^Transaction$/.test(L.norm(L.ts(v)))).map(v => T.root(v.name));
        rep.ob(`${k}:context`, stored.some(x => S.load(e.st.store, x) === a.args[0] || new Query(e.st).check(cx => ['header', 'body'].every(f => cx.eq(rd(e.st, F(x, f)), F(a.args[0], f))))), L.at(e), 'the executing transaction is the recorded one', '');
      }
      for (const e of a.events) { if (e.kind !== 'raise') continue; const q = new Query(e.st).given(...flags.map(T.not)); rep.ob(`${k}:accept`, q.infeasible() || q.ctx.terms(t => t.op === 'sym' && /^callOk/.test(String(t.val))).some(t => q.holds(T.not(t))), L.at(e), 'a call outside a running transition is rejected only when the transaction itself fails', ''); }
    }
  }
  rep.floor('ops', n, 5, 'guarded operations'); rep.floor('exits', m, 5, 'normal exits');
}
const resultOf = (v, t) => { const nm = new RegExp('^unimpl_' + t.name + '@'); const syms = new Set(); T.collect(v, x => x.op === 'sym', syms, new Set()); return [...syms].some(x => nm.test(String(x.val))) && [...syms].every(x => nm.test(String(x.val))) && (v.op === 'sym' || v.op === 'tuple' && v.args.every((x, i) => !T.isConst(x) )); };
// ---- C22
function C22(rep) {
  let n = 0;
  const out = L.prog().out.contracts; const layout = name => { for (const f in out) for (const c in out[f]) if (c === name && out[f][c].storageLayout) return out[f][c].storageLayout; return null; };
  const flat = (lay, ty, d = 0) => { const t = lay.types[ty]; if (!t || d > 6) return ty; return t.label + (t.members ? '{' + t.members.map(m => `${m.label}@${m.slot}.${m.offset}:${flat(lay, m.type, d + 1)}`).join(',') + '}' : '') + (t.value ? '=>' + flat(lay, t.value, d + 1) : '') + (t.base ? '[' + flat(lay, t.base, d + 1) + ']' : ''); };
  const row = (lay, s) => `${s.label}@${s.slot}.${s.offset}:${flat(lay, s.type)}`;
  for (const c of L.managers()) {
    // forwarding
    for (const name of ['createDispute', 'challengeDispute']) {
      const a = L.entry(c, name, { raise: true }); L.cover(rep, a); const k = `${c.name}.${name}`, w = L.prog().loc(a.fd.src);
      const ds = a.events.filter(e => e.kind === 'delegate' && !new Query(e.st).infeasible()); rep.floor(k, ds.length, 1, 'delegation');
      const facets = new Set();
      for (const e of ds) {
        n++;
        rep.ob(`${k}:forward`, e.name === name && e.vs.length === a.args.length && a.args.every((x, i) => new Query(e.st).eq(e.vs[i], x)), L.at(e), 'a dispute request reaches the dispute logic unchanged', e.vs.map(T.pp).join(', ').slice(0, 300));
        const v = e.target.op === 'root' ? L.prog().linear(c).flatMap(x => x.nodes).find(x => x.nodeType === 'VariableDeclaration' && x.name === e.target.val) : null;
        if (v) facets.add(L.norm(L.ts(v)));
      }
      for (const r of a.rs) if (!new Query(r.st).infeasible()) rep.ob(`${k}:failure`, S.traceList(r.st.trace).filter(t => t.kind === 'delegatefail').length === 0, w, 'a failed dispute request fails as a whole', '');
      rep.floor(k + ':facet', facets.size, 1, 'dispute logic contract');
      for (const fac of facets) {
        const A = layout(c.name), B = layout(fac); const bs = B.storage.map(s => row(B, s)), as = new Map(A.storage.map(s => [`${s.slot}.${s.offset}`, row(A, s)]));
        for (const [i, b] of bs.entries()) rep.ob(`layout:${fac}:${B.storage[i].label}`, as.get(`${B.storage[i].slot}.${B.storage[i].offset}`) === b, c.file || '', 'manager and dispute logic agree on where every record is stored', `${b.slice(0, 160)} / ${as.get(`${B.storage[i].slot}.${B.storage[i].offset}`)}`.slice(0, 300));
        // a public function of the dispute logic is not reachable under a name the manager does not implement
      }
    }
    const q1 = (name, want, what) => {
      const a = L.entry(c, name, { raise: true }); L.cover(rep, a); const k = `${c.name}.${name}`; n++;
      const rs = a.rs.filter(r => !new Query(r.st).infeasible()); rep.floor(k, rs.length, 1, 'exits');
      for (const r of rs) rep.ob(k, new Query(r.st).check(cx => want(cx, r.v, a)), L.prog().loc(a.fd.src), what, T.pp(r.v).slice(0, 200));
      for (const e of a.events) if (e.kind === 'raise') rep.ob(k + ':total', new Query(e.st).infeasible(), L.at(e), 'the query never fails', '');
    };
    const same = (cx, v, t) => T.isBool(v) ? (v.val ? cx.holds(t) : cx.holds(T.not(t))) : cx.canon(v) === cx.canon(t);
    q1('getForkCnt', (cx, v, a) => cx.eq(v, ST.fork(a.args[0])), 'the fork reported is the current fork of the channel');
    q1('getLatestState', (cx, v, a) => cx.eq(v, ST.enc(a.args[0], ST.fork(a.args[0]))), 'the latest state reported is the stored state of the current fork');
    q1('getGenesisTimestamp', (cx, v, a) => cx.eq(v, ST.gts(a.args[0], a.args[1])), 'the start time reported is the stored one of the fork');
    q1('isGenesisState', (cx, v, a) => same(cx, v, T.eq(a.args[2], ST.enc(a.args[0], a.args[1]))), 'a state is genesis exactly when it is the stored state of the fork');
    q1('isChannelOpen', (cx, v, a) => same(cx, v, T.ne(F(ST.enc(a.args[0], T.ZERO), 'length'), T.ZERO)) || same(cx, v, T.ne(ST.enc(a.args[0], T.ZERO), T.EMPTYBYTES)), 'a channel is open exactly when it has a genesis state');
    q1('isDisputeInProgress', (cx, v, a) => same(cx, v, T.and(T.ne(F(D0(a.args[0]), 'channelId'), T.ZERO), T.le(now, F(D0(a.args[0]), 'deadlineTimestamp')))) || (cx.holds(T.ne(F(D0(a.args[0]), 'channelId'), T.ZERO)) && same(cx, v, T.le(now, F(D0(a.args[0]), 'deadlineTimestamp')))), 'a dispute is in progress exactly until its challenge period ends');
    q1('getDispute', (cx, v, a) => cx.eq(v, D0(a.args[0])), 'the dispute reported is the stored one');
    for (const [f, t] of [['getP2pTime', 'p2pTime'], ['getAgreementTime', 'agreementTime'], ['getChainFallbackTime', 'chainFallbackTime'], ['getChallengeTime', 'challengeTime']]) q1(f, (cx, v) => cx.eq(v, ST.time(t)), 'the reported time parameter is the stored one');
    q1('getAllTimes', (cx, v) => v.op === 'tuple' && ['p2pTime', 'agreementTime', 'chainFallbackTime', 'challengeTime'].every((t, i) => cx.eq(v.args[i], ST.time(t))), 'time parameters are reported in order');
  }
  rep.floor('all', n, 12, 'forwarders and queries');
}
// ---- C01
function C01(rep) {
  let n = 0;
  for (const c of L.managers()) {
    const a = L.entry(c, 'openChannel', { raise: true }); L.cover(rep, a); const k = `${c.name}.openChannel`; const [ch, data, sigs] = a.args, len = F(data, 'length');
    const jc = i => dec('JoinChannel', T.idx(data, i));
    for (const e of emits(a, 'SetState')) {
      n++; const q = new Query(e.st), w = L.at(e);
      const each = (nm, f) => rep.ob(`${k}:${nm}`, q.check(cx => H.forAll(cx, len, i => T.TRUE) && forAllC(cx, len, f)), w, nm, 'not established for every member');
      rep.ob(`${k}:members`, q.holds(T.lt(T.ZERO, len)), w, 'a channel has at least one member', '');
      rep.ob(`${k}:id`, q.holds(T.ne(ch, T.ZERO)), w, 'a channel has an identifier', '');
      rep.ob(`${k}:not-open`, q.check(cx => cx.eq(F(ST.enc(ch, T.ZERO), 'length'), T.ZERO)), w, 'an open channel is not opened again', '');
      rep.ob(`${k}:genesis`, q.eq(e.args.forkCnt, T.ZERO) && q.eq(e.args.channelId, ch) && q.eq(e.args.timestamp, now) && q.check(cx => cx.eq(S.load(e.st.store, ST.enc(ch, T.ZERO)), e.args.encodedState) && cx.eq(rd(e.st, ST.gts(ch, T.ZERO)), now)), w, 'the genesis state is stored and announced as fork 0', '');
      each('every member request names this channel', (cx, i) => cx.eq(F(jc(i), 'channelId'), ch));
      each('every member signed its request', (cx, i) => cx.terms(t => t.op === 'app' && t.val === 'tsigned').some(t => { const A = t.args[0]; const m = A.op === 'arr' ? A.args[0] : null; return m && A.args.length === 1 && cx.eq(m, F(jc(i), 'participant')) && cx.eq(t.args[1], T.idx(data, i)) && (cx.eq(t.args[2], sigs)) && cx.holds(t); }) || cx.terms(t => t.op === 'idx' && cx.eq(t.args[0], sigs)).some(s => cx.eq(T.signer(T.idx(data, i), s), F(jc(i), 'participant'))));
      each('every member deposits something', (cx, i) => cx.holds(T.lt(T.ZERO, F(jc(i), 'amount'))));
      each('no request has expired', (cx, i) => cx.holds(T.lt(now, F(jc(i), 'deadlineTimestamp'))));
    }
  }
  rep.floor('open', n, L.managers().length, 'reachable channel openings');
}
function forAllC(cx, len, f) {
  if (cx.eq(len, T.ZERO)) return true;
  return cx.alls.some(q => cx.eq(q.lo, T.ZERO) && cx.eq(q.hi, len) && q.alts.every(a => new Query(cx.with(a).items).check(c2 => f(c2, q.i))));
}
const loops = I => I.loops.values ? [...I.loops.values()] : I.loops;
const r = (run, rule) => ({ run, level: 'proof', trusted, rule });
module.exports.rules = {
  C24: r(C24, 'the state stored and announced by a dispute is peeled back, loop by loop, to the posted state: each loop covers its whole list and applies exactly its operation; recorded exits are those of the successful operations'),
  C21: r(C21, 'the re-entrancy flag is known clear at entry and set at every point where application code runs, and clear at every normal exit; a transition completes only when its call succeeded'),
  C22: r(C22, 'every delegation passes the arguments unchanged and fails as a whole; storage layouts computed by the compiler coincide slot by slot; every query result equals the stored record it names'),
  C01: r(C01, 'at every reachable genesis announcement the listed facts hold for every member request'),
};
