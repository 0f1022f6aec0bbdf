'use strict';
// Finding peers, what is known about them, and negotiating direct connections with them.
const L = require('./tlib'), X = require('./tspec'), N = require('./T_net'), U0 = require('./T_util');
const { T, S, Query, F, par, ts } = L;
const { not, eq, ne, len, table, E, bag, trace, rd, effects } = X;
const { callv, feasible } = U0;
const { root, go, eachOf, ext } = N;
const U = T.UNDEF, TR = T.TRUE, FA = T.FALSE;
const groups = {};
const ctor = c => L.cls(c).members.find(x => ts.isConstructorDeclaration(x));
const fresh = st => { const s = st.clone(); s.trace = S.TR0; return s; };
const obj = (st, o, n) => st.simp(S.select(st.store, o, n, null));

// ---- what is remembered about one peer, and about the client's own account
groups.profile = rep => {
  const P = 'PeerProfile', [t, a, h] = [par('t'), par('a'), par('h')], r = go(P, ctor(P), [t, a, h]), w = L.where(ctor(P));
  const inits = {};
  for (const m of L.cls(P).members) if (ts.isPropertyDeclaration(m) && m.initializer) inits[m.name.getText()] = m.initializer.kind === ts.SyntaxKind.TrueKeyword ? TR : m.initializer.kind === ts.SyntaxKind.FalseKeyword ? FA : null;
  const self = r.self || T.root(P), fin = r.res.filter(feasible);
  const start = { transport: t, evmAddress: a, hpAddress: h, isLeader: FA, isBlackListed: FA, isHandshakeCompleted: FA };
  rep.ob('profile:made', fin.length === 1, w, 'a profile can always be made', '');
  for (const x of fin) for (const f of Object.keys(start)) {
    const v = rd(x.st, F(self, f)), got = v === F(self, f) && f in inits ? inits[f] : v;
    rep.ob('profile:start:' + f, got === start[f] || got && new Query(x.st).check(cx => cx.eq(got, start[f])), w, 'a new profile holds what is known, and the peer has neither completed the handshake, nor is it refused or in the lead', f + ' = ' + (got && T.pp(got)));
  }
  const get = { getTransport: 'transport', getEvmAddress: 'evmAddress', getHpAddress: 'hpAddress', getIsLeader: 'isLeader', getIsHandshakeCompleted: 'isHandshakeCompleted' };
  for (const [m, f] of Object.entries(get)) { const g = go(P, m, []); table(rep, 'profile:' + m, g, { rows: [{ n: 'read', ret: F(g.self || T.root(P), f), fx: (cx, st) => bag(cx, st, []) }], thr: [], rule: 'what is known about a peer is what was recorded last' }); }
  const v = par('v'), set = { blacklist: ['isBlackListed', TR], unblacklist: ['isBlackListed', FA], removeTransport: ['transport', U], setTransport: ['transport', v, [v]], setIsLeader: ['isLeader', v, [v]], setIsHandshakeCompleted: ['isHandshakeCompleted', v, [v]] };
  for (const [m, [f, val, as]] of Object.entries(set)) { const g = go(P, m, as || []), s = g.self || T.root(P);
    table(rep, 'profile:' + m, g, { rows: [{ n: 'set', fx: (cx, st) => cx.eq(rd(st, F(s, f)), val) && Object.keys(start).every(k => k === f || cx.eq(rd(st, F(s, k)), F(s, k))) && bag(cx, st, []) }], thr: [], rule: 'recording one thing about a peer changes nothing else' }); }
  // found by the address in the network
  const M = 'ProfileManager', p = par('profile'), ph = F(p, 'hpAddress'), k = par('k'), g = go(M, 'getProfileByHpAddress', [k]), lv = g.res.map(x => S.snapshot(x.st.store, x.v)), map = lv.length === 1 && lv[0].op === 'idx' && lv[0].args[1] === k ? lv[0].args[0] : null;
  rep.ob('profile:by network address', !!map && map !== root(M, 'mapEvmAddressToProfile') && map.op === 'fld', L.where(g.decl), 'the profile of a network address is the one stored under that address', '');
  const e = go(M, 'getProfileByEvmAddress', [k]), ev = e.res.map(x => S.snapshot(x.st.store, x.v));
  rep.ob('profile:indexes', !!map && ev.length === 1 && ev[0].op === 'idx' && ev[0].args[0] !== map, L.where(g.decl), 'the two kinds of address are kept apart', '');
  if (!map) return;
  const pick = { assume: [ne(F(p, 'transport'), U), ne(F(p, 'evmAddress'), U), ne(F(p, 'evmAddress'), T.str('')), ne(ph, U), ne(ph, T.str(''))] }, at = st => st.simp(S.select(st.store, map, null, ph));
  table(rep, 'profile:register', go(M, 'registerProfile', [p], {}, pick), { rows: [{ n: 'found', fx: (cx, st) => cx.eq(at(st), p) }], thr: [], rule: 'a registered profile is found by its network address' });
  table(rep, 'profile:unregister', go(M, 'unregisterProfile', [p], {}, pick), { rows: [{ n: 'gone', fx: (cx, st) => cx.eq(at(st), U) }], thr: [], rule: 'an unregistered profile is found no more' });
};

// ---- looking for peers
groups.search = rep => {
  const H = 'Holepunch', P2 = 'P2PManager', swarm = root(H, 'swarm'), topics = root(H, 'topics');
  const joins = (sw, t) => (cx, e) => e.kind === 'ext' && e.name === 'join' && cx.eq(e.recv, sw) && e.args.length === 2 && cx.eq(e.args[0], t) && e.raw.length === 2 && [obj(e.st, e.raw[1], 'server'), obj(e.st, e.raw[1], 'client')].every(v => cx.eq(v, TR));
  const t = par('topic');
  const kept = (cx, st) => cx.eq(rd(st, T.idx(topics, len(topics))), t) && cx.eq(S.select(st.store, topics, 'length', null), T.add(len(topics), T.ONE));
  table(rep, 'search:join', go(H, 'join', [t]), { rows: [{ n: 'joined', fx: (cx, st) => kept(cx, st) && bag(cx, st, [joins(swarm, t)]) }], thr: [], rule: 'a topic that is joined is remembered, and peers are looked for under it, both as the one who is found and as the one who finds' });
  { const r = go(H, 'dispose', []);
    table(rep, 'search:dispose', r, { rows: [{ n: 'left', fx: (cx, st) => { const es = trace(st); return es.length === 1 && eachOf(cx, es[0], topics, el => [ext(swarm, 'leave', el)]) && cx.eq(rd(st, len(rd(st, topics))), T.ZERO); } }], thr: [], rule: 'disposing leaves every topic, and none is rejoined later' }); }
  { const ch = par('channelId'), r = go(P2, 'tryOpenConnectionToChannel', [ch], { opaque: { 'LocalDiscoveryServer.tryStart': 'eff', 'LocalDiscoveryServer.connectToPeers': 'eff', 'Holepunch.join': 'eff' } }), env = L.F(T.sym('$process'), 'env', 'DEBUG_LOCAL_TRANSPORT');
    const local = (cx, st) => effects(st, 'call').some(e => /^LocalDiscoveryServer\./.test(e.callee));
    const topic = (cx, v, es) => {
      const f = es.find(e => e.kind === 'ext' && e.name === 'fill'), a = t => t && T.pp(t).startsWith('Buffer.alloc(32');
      if (!f) return a(v) && [...T.collect(v, z => z === ch)].length === 1 && /^Buffer\.alloc\(32, [^,]*\)$/.test(T.pp(v));
      return T.pp(f.recv) === 'Buffer.alloc(32)' && f.args.length === 1 && cx.eq(f.args[0], ch) && (v === f.recv || /^ext_fill@/.test(String(v.val)));
    };
    table(rep, 'search:open', r, { rows: [
      { n: 'local', optional: true, when: [[(cx, st) => local(cx, st)]] },
      { n: 'network', when: [[(cx, st) => !local(cx, st)]], fx: (cx, st) => { const es = trace(st), cs = es.filter(e => e.kind === 'call'); return cs.length === 1 && cs[0].callee === 'Holepunch.join' && topic(cx, cs[0].args[0], es) && es.every(e => e === cs[0] || e.kind === 'ext' && e.name === 'fill'); } },
    ], thr: (cx, st) => true, rule: 'to connect to a channel, peers are looked for once, under the 32 bytes filled with the channel\'s id' });
    rep.ob('search:default', !!r.res.filter(feasible).find(x => !local(null, x.st)), L.where(r.decl), 'peers are looked for in the network unless the environment asks for local ones', ''); }
  // setting up the search, in a browser and elsewhere
  const r = go(H, ctor(H), [T.root(P2)], { opaque: { 'HolepunchRelay.init': 'eff', 'HolepunchRelay.getInstance': 'nothrow', 'HolepunchRelay.getSwarm': 'nothrow' } }), w = L.where(ctor(H));
  rep.fn(H + ' constructor');
  const browser = st => st.items.some(i => i.k === 'lit' && T.collect(i.t, z => z.op === 'app' && z.val === 'typeof').size) && new Query(st).check(cx => cx.holds(ne(T.str('undefined'), T.app('typeof', T.sym('$window')))));
  const ready = (cx, st, key) => {
    const es = trace(st).filter(e => ['ext', 'loop', 'call', 'callback', 'send', 'chain'].includes(e.kind)), on = es.filter(e => e.kind === 'ext' && ['on', 'addListener'].includes(e.name)), off = es.filter(e => e.kind === 'ext' && e.name === 'removeAllListeners'), lp = es.filter(e => e.kind === 'loop');
    if (on.length !== 1 || off.length !== 1 || lp.length !== 1 || es.length !== 3) return false;
    const sw = rd(st, root(H, 'swarm'));
    const named = off[0].raw.length === 0 || /^\[?"connection"\]?$/.test(T.pp(off[0].args[0]));
    if (!(cx.eq(on[0].recv, sw) && cx.eq(off[0].recv, sw) && named && es.indexOf(off[0]) < es.indexOf(on[0]) && T.isStr(on[0].args[0]) && on[0].args[0].val === 'connection' && on[0].raw[1] && on[0].raw[1].op === 'fn')) return false;
    const before0 = es.slice(0, es.indexOf(lp[0])), rounds = lp[0].info.alts, q = cx.alls.find(q => q.loop === lp[0].info && cx.eq(q.lo, T.ZERO) && cx.eq(q.hi, len(topics)));
    if (!q || !rounds.every(a => { const c = new Query(a.items); return c.infeasible() || c.check(y => { const own = trace(a.st).filter(e => !before0.includes(e)); return own.length === 1 && joins(sw, T.idx(topics, q.i))(y, own[0]); }); })) return false;
    // a connection found is made one of the client's connections
    const so = T.sym('found:socket'), info = T.sym('found:info'), ev = r.I.events || r.events, before = ev.length;
    const o = callv(r, on[0].raw[1], [so, info], fresh(st)), made = ev.slice(before).filter(e => e.kind === 'new' && e.cls === 'HolepunchTransport');
    return o.thr.filter(feasible).length === 0 && o.res.filter(feasible).length > 0 && made.length === 1 && made[0].raw.length === 3 && made[0].raw[0] === so && made[0].raw[1] === info && made[0].raw[2] === T.root(P2);
  };
  const mode = { node: 0, browser: 0 };
  for (const x of r.res.filter(feasible)) {
    const es = effects(x.st, 'call').filter(e => e.callee === 'HolepunchRelay.init');
    const b = browser(x.st); mode[b ? 'browser' : 'node']++;
    if (!b) { rep.ob('search:setup', new Query(x.st).check(cx => ready(cx, x.st) && /\$global\.Hyperswarm|new_Hyperswarm/.test(T.pp(rd(x.st, swarm)))), w, 'outside a browser the network is used directly: connections found are taken, by this client only, and every topic is joined again', ''); continue; }
    const q = new Query(x.st), one = es.length === 1 && es[0].raw.length === 2;
    rep.ob('search:browser', one && q.check(cx => cx.eq(rd(x.st, root(P2, 'preferredTransport')), L.enumOf('TransportType', 'WEBRTC'))) && obj(x.st, es[0].raw[0], 'length') !== T.ZERO, w, 'in a browser a relay is used, and direct connections are preferred', '');
    if (!one || es[0].raw[1].op !== 'fn') { rep.ob('search:relay', false, w, 'in a browser a relay is used', ''); continue; }
    const o = callv(r, es[0].raw[1], [], fresh(x.st));
    rep.ob('search:relayed', o.thr.filter(feasible).length === 0 && o.res.filter(feasible).length > 0 && o.res.filter(feasible).every(y => new Query(y.st).check(cx => ready(cx, y.st) && /^\$window\.Hyperswarm$|getSwarm/.test(T.pp(rd(y.st, swarm))))), w, 'whenever a relay is connected the search starts on it: connections found are taken, by this client only, and every topic is joined again', '');
  }
  rep.ob('search:modes', mode.node > 0 && mode.browser > 0, w, 'the search works in a browser and elsewhere', '');
};
// ---- reaching the network from a browser: one relay after the other
groups.relay = rep => {
  const R = 'HolepunchRelay', urls = root(R, 'relayerUrls'), again = R + '.removeAndConnectToRelayer';
  const url = T.app(R + '.pickRandomRelayer');
  { const r = go(R, 'connectToRelayer', [], { opaque: { [again]: 'eff', [R + '.pickRandomRelayer']: 'nothrow' } }), w = L.where(r.decl);
    const news = c => r.events.filter(e => e.kind === 'new' && e.cls === c && feasible({ st: e.st }));
    const val = e => e && T.pp(e);
    const one = c => { const n = news(c); return n.length === 1 ? n[0] : null; };
    const ws = one('WebSocket'), st0 = one('Stream'), dht = one('DHT'), sw = one('Hyperswarm');
    const is = (t, c) => !!t && t.op === 'sym' && String(t.val).startsWith('new_' + c + '@');
    const picked = ws && ws.raw[0];
    rep.ob('relay:connect', !!(ws && st0 && dht && sw) && ws.raw.length >= 1 && st0.raw.length === 2 && st0.raw[0] === TR && is(st0.raw[1], 'WebSocket') && is(dht.raw[0], 'Stream') && is(obj(sw.st, sw.raw[0], 'dht'), 'DHT'), w, 'the network is reached through the relay that was picked', '');
    const none = st => new Query(st).check(cx => !picked || cx.eq(picked, U) || cx.eq(picked, T.str('')));
    let n = 0;
    for (const x of r.res.filter(feasible)) {
      const cb = effects(x.st, 'ext').filter(e => e.name === 'updateCallback').concat(effects(x.st, 'callback'));
      if (none(x.st)) { rep.ob('relay:none', cb.length === 0 && effects(x.st, 'call').length === 0, w, 'without any relay left nothing is done', ''); continue; }
      n++;
      const at = cb.length === 1 && (cb[0].st || x.st);
      rep.ob('relay:told', cb.length === 1 && is(at.simp(S.read(at.store, root(R, 'swarm'))), 'Hyperswarm') && effects(x.st, 'call').length === 0, w, 'once a relay is used the search is started on it, exactly once', '');
      const sock = news('WebSocket').length && [...T.collect(st0.raw[1], z => z.op === 'sym')][0];
      for (const ev of ['onclose', 'onerror']) {
        const h = sock && x.st.simp(S.read(x.st.store, F(sock, ev))); if (!h || h.op !== 'fn') { rep.ob('relay:' + ev, false, w, 'a relay that fails or ends is replaced', ''); continue; }
        const o = callv(r, h, [par('error')], fresh(x.st));
        rep.ob('relay:' + ev, o.res.filter(feasible).length > 0 && o.res.filter(feasible).every(y => new Query(y.st).check(cx => bag(cx, y.st, [E.call(again, picked)]))), w, 'a relay that fails or ends is replaced', '');
      }
    }
    rep.ob('relay:used', n > 0, w, 'a relay is used', ''); }
  { const u = par('url'), r = go(R, 'removeAndConnectToRelayer', [u], { opaque: { [R + '.connectToRelayer']: 'eff' } }), has = T.app('includes', urls, u);
    const idx = T.app('indexOf', urls, u), cut = (c, e) => e.kind === 'ext' && e.name === 'splice' && c.eq(e.recv, urls) && e.args.length === 2 && c.eq(e.args[0], idx) && c.eq(e.args[1], T.ONE);
    const away = (cx, st) => { const v = S.snapshot(st.store, rd(st, urls)); return v.op === 'app' && v.val === 'filter' && v.args[0] === urls; };
    table(rep, 'relay:replace', r, { rows: [
      { n: 'already', when: [[not(has)], [eq(idx, T.num(-1n))]], fx: (cx, st) => bag(cx, st, []) },
      { n: 'replaced', when: [[has]], fx: (cx, st) => bag(cx, st, [cut, E.call(R + '.connectToRelayer')], [[0, 1]]) || away(cx, st) && bag(cx, st, [E.call(R + '.connectToRelayer')]) },
    ], thr: (cx, st) => true, rule: 'a relay that failed is taken off the list, and another one is tried once for it' }); }
  { const [us, cb] = [par('urls'), par('callback')], r = go(R, 'init', [us, cb], { opaque: { [R + '.connectToRelayer']: 'eff' } }), made = r.events.filter(e => e.kind === 'new' && e.cls === R), set = r.events.filter(e => e.kind === 'write' && e.v && /^HolepunchRelay@/.test(T.pp(e.v)));
    rep.ob('relay:init', made.length === 1 && made[0].raw[0] === us && made[0].raw[1] === cb, L.where(r.decl), 'the relays and the action to take are those given', '');
    table(rep, 'relay:start', r, { rows: [{ n: 'started', fx: (cx, st) => bag(cx, st, [E.call(R + '.connectToRelayer')]) && set.length > 0 && set.some(e => rd(effects(st, 'call')[0].st, e.loc) === e.v) }], thr: (cx, st) => true, rule: 'the relay in use is known before it is connected' }); }
};

// ---- a direct connection is negotiated with the peer that asked for it
groups.direct = rep => {
  const W = 'WebRTCSetupService', SND = root('MainRpcService', 'senderTransport'), cm = X.fieldByType(W, /^Map<string,\s*\w*RTCPeerConnection>/), map = root(W, cm);
  const opts = { awaitHavoc: [SND], markCatch: true, opaque: Object.assign({}, L.abs('ProfileManager'), { 'P2PManager.addConnection': 'eff', 'P2PManager.removeConnection': 'eff' }) };
  const prof = L.op('ProfileManager', 'getProfileByTransport', SND), adr = F(prof, 'evmAddress'), stored = T.idx(map, adr);
  const known = [ne(prof, U), ne(adr, U)], unknown = [[eq(prof, U)], [eq(adr, U)], [eq(adr, T.str(''))], [eq(adr, T.NULL)]];
  const un = s => T.mkApp('unjson', [s]);
  const es = st => trace(st).filter(e => !['caught', 'new', 'handled', 'await'].includes(e.kind)), exts = (st, n) => es(st).filter(e => e.kind === 'ext' && e.name === n), sends = st => effects(st, 'send');
  const failed = (cx, st) => trace(st).some(e => e.kind === 'caught');
  const conn = t => t && t.op === 'sym' && /^new_RTCPeerConnection@/.test(String(t.val));
  const inMap = e => { const s = e.st; return s ? s.simp(S.select(s.store, map, null, adr)) : null; };
  const order = (st, list) => { const all = trace(st), ix = list.map(e => all.indexOf(e)); return ix.every((v, i) => v >= 0 && (i === 0 || ix[i - 1] < v)); };
  const val = e => e && e.ret ? e.ret : null;
  // what the connection does when it finds a way to be reached, and when the other side opens a channel
  const later = (r, x, c, name, args) => { const f = x.st.simp(S.read(x.st.store, F(c, name))); if (!f || f.op !== 'fn') return null; const st = fresh(x.st).write(SND, T.sym('anotherSender')), ev = r.I.events, n = ev.length, o = callv(r, f, args, st); return { res: o.res.filter(feasible), thr: o.thr.filter(feasible), ev: ev.slice(n) }; };
  const candidates = (r, x, c) => {
    const ev = par('event'), cd = F(ev, 'candidate'), o = later(r, x, c, 'onicecandidate', [ev]);
    return !!o && o.thr.length === 0 && o.res.length > 0 && o.res.every(y => new Query(y.st).check(cx => cx.holds(T.app('truthy', cd)) || cx.holds(ne(cd, U)) ? bag(cx, y.st, [E.send('sendOne', 'onIceCandidate', (q, v) => q.eq(v, T.mkApp('json', [cd])))]) && sends(y.st)[0].to === SND : bag(cx, y.st, []))) && o.res.some(y => sends(y.st).length === 1);
  };
  const falsy = (cx, st) => bag(cx, st, []);
  { const r = go(W, 'initiateWebRTC', [], opts), w = L.where(r.decl), made = r.events.filter(e => e.kind === 'new' && e.cls === 'WebRTCTransport');
    table(rep, 'direct:initiate', r, { rows: [
      { n: 'failed', optional: true, when: [[failed]], fx: (cx, st) => sends(st).length === 0 },
      { n: 'unknown', when: unknown, fx: (cx, st) => sends(st).length === 0 && cx.eq(rd(st, stored), stored) },
      { n: 'offered', when: [known], fx: (cx, st, x) => {
        const [ch] = exts(st, 'createDataChannel'), [of] = exts(st, 'createOffer'), ld = exts(st, 'setLocalDescription'), sn = sends(st);
        if (!ch || !of || ld.length !== 1 || sn.length !== 1 || exts(st, 'createOffer').length !== 1) return false;
        const c = of.recv, o = ld[0].args[0];
        return conn(c) && ch.recv === c && ld[0].recv === c && /^ext_createOffer@/.test(String(o.val)) && order(st, [ch, of, ld[0], sn[0]]) && E.send('sendOne', 'onOfferWebRTC', T.mkApp('json', [o]))(cx, sn[0]) && cx.eq(sn[0].to, SND) && inMap(sn[0]) === c && cx.eq(rd(st, stored), c) && candidates(r, x, c);
      } },
    ], thr: [], rule: 'a direct connection is offered, once, to the peer the request is about, on the connection it came from, and remembered under the peer\'s address; an unknown peer is offered none' });
    rep.ob('direct:channel', made.length === 1 && /^ext_createDataChannel@/.test(String(made[0].raw[0].val)) && made[0].raw[1] === T.root('P2PManager'), w, 'the channel of an offered connection becomes a connection of this client', ''); }
  { const s = par('serializedOffer'), r = go(W, 'onOfferWebRTC', [s], opts), w = L.where(r.decl);
    table(rep, 'direct:answer', r, { rows: [
      { n: 'malformed', when: [[failed]], fx: (cx, st) => sends(st).length === 0 },
      { n: 'unknown', when: unknown, fx: (cx, st) => sends(st).length === 0 && cx.eq(rd(st, stored), stored) },
      { n: 'answered', when: [known], fx: (cx, st, x) => {
        const [rm] = exts(st, 'setRemoteDescription'), [an] = exts(st, 'createAnswer'), ld = exts(st, 'setLocalDescription'), sn = sends(st);
        if (!rm || !an || ld.length !== 1 || sn.length !== 1) return false;
        const c = an.recv, o = ld[0].args[0], ev = par('event');
        const chan = later(r, x, c, 'ondatachannel', [ev]), mk = chan && chan.ev.filter(e => e.kind === 'new' && e.cls === 'WebRTCTransport');
        return conn(c) && rm.recv === c && ld[0].recv === c && cx.eq(rm.args[0], un(s)) && /^ext_createAnswer@/.test(String(o.val)) && order(st, [rm, an, ld[0], sn[0]]) && E.send('sendOne', 'onAnswerWebRTC', T.mkApp('json', [o]))(cx, sn[0]) && cx.eq(sn[0].to, SND) && inMap(rm) === c && cx.eq(rd(st, stored), c)
          && candidates(r, x, c) && mk && mk.length === 1 && mk[0].raw[0] === F(ev, 'channel') && mk[0].raw[1] === T.root('P2PManager');
      } },
    ], thr: [], rule: 'an offer of a peer is answered, once, on the connection it came from; the connection is remembered under the peer\'s address before anything more of it can arrive, and its channel becomes a connection of this client' }); }
  const use = (key, m, what, arg, extra, rule) => {
    const s = par('message'), r = go(W, m, [s], opts);
    table(rep, key, r, { rows: [
      { n: 'malformed', when: [[failed]], fx: (cx, st) => es(st).length === 0 },
      { n: 'unknown', when: [...unknown, [eq(stored, U)], [eq(stored, T.NULL)]], fx: (cx, st) => es(st).length === 0 },
      { n: 'applied', when: [[...known, ne(stored, U)]], fx: (cx, st) => { const l = es(st); return l.length === 1 && l[0].kind === 'ext' && l[0].name === what && cx.eq(l[0].recv, stored) && l[0].args.length === 1 && arg(cx, l[0].args[0], un(s), r); } },
    ], thr: [], rule });
  };
  use('direct:complete', 'onAnswerWebRTC', 'setRemoteDescription', (cx, v, m) => cx.eq(v, m), null, 'an answer is applied to the connection negotiated with the peer who sent it, and to no other');
  use('direct:candidate', 'onIceCandidate', 'addIceCandidate', (cx, v, m, r) => cx.eq(v, m) || /^new_RTCIceCandidate@/.test(String(v.val)) && r.events.filter(e => e.kind === 'new' && e.cls === 'RTCIceCandidate').every(e => e.raw[0] === m), null, 'a way to reach a peer is added to the connection negotiated with that peer, and to no other');
};
// ---- opening a channel once the other side's request has arrived; what the account remembers
groups.opening = rep => {
  const J = 'TESTJoinChannelService', A = 'P2pSigner', own = root(A, 'signedJc');
  { const [e, s] = [par('jcEncoded'), par('jcSignature')], r = go(J, 'onSignJoinChannelTEST', [e, s], { markCatch: true });
    const item = (st, a, i) => st.simp(S.select(st.store, a, null, T.num(BigInt(i)))), size = (st, a) => obj(st, a, 'length');
    const pair = (cx, e, a, f, other) => cx.eq(size(e.st, a), T.num(2n)) && [0, 1].some(i => cx.eq(item(e.st, a, i), F(own, f)) && cx.eq(item(e.st, a, 1 - i), other));
    const which = (cx, ev, a, f) => [0, 1].find(i => cx.eq(item(ev.st, a, i), F(own, f)));
    const opens = (cx, st) => { const c = effects(st, 'chain'); return c.length === 1 && c[0].m === 'openChannel' && c[0].raw.length === 3 && cx.eq(c[0].recv, root('StateManager', 'stateChannelManagerContract')) && pair(cx, c[0], c[0].raw[1], 'encodedJoinChannel', e) && pair(cx, c[0], c[0].raw[2], 'signature', s) && which(cx, c[0], c[0].raw[1], 'encodedJoinChannel') === which(cx, c[0], c[0].raw[2], 'signature') && L.T.collect(c[0].raw[0], z => z.op === 'fld' && /channelId/i.test(String(z.val))).size > 0; };
    table(rep, 'opening:open', r, { rows: [
      { n: 'nothing to offer', optional: true, when: [[eq(own, U)], [eq(own, T.NULL)]], fx: (cx, st) => effects(st, 'chain').length === 0 },
      { n: 'opened', fx: opens },
    ], thr: [], rule: 'when the other side\'s signed request arrives the channel is opened once, for the current channel, with both requests and the signature belonging to each; a failure to open it does not reach the network' }); }
  { const [a, b] = [par('jc'), par('signed')], r = go(A, 'setJc', [a, b]);
    table(rep, 'opening:own', r, { rows: [{ n: 'kept', fx: (cx, st) => cx.eq(rd(st, root(A, 'jc')), a) && cx.eq(rd(st, own), b) }], thr: [], rule: 'the own signed request is kept as given' }); }
};
groups.lead = rep => {
  const A = 'P2pSigner', f = root(A, 'isLeader'), v = par('v');
  const c = go(A, ctor(A), [par('signer'), par('address'), T.root('P2PManager')]);
  for (const x of c.res.filter(feasible)) rep.ob('lead:start', new Query(x.st).check(cx => cx.eq(rd(x.st, c.self ? F(c.self, 'isLeader') : f), FA)), L.where(ctor(A)), 'a client is not in the lead unless told so', '');
  table(rep, 'lead:set', go(A, 'setIsLeader', [v]), { rows: [{ n: 'set', fx: (cx, st) => cx.eq(rd(st, f), v) && bag(cx, st, []) }], thr: [], rule: 'being in the lead is what was recorded last' });
  table(rep, 'lead:get', go(A, 'getIsLeader', []), { rows: [{ n: 'get', ret: f, fx: (cx, st) => bag(cx, st, []) }], thr: [], rule: 'being in the lead is what was recorded last' });
};
// ---- the account of the channel: everything but sending transactions is what the wallet does
groups.account = rep => {
  const A = 'P2pSigner', wallet = root(A, 'signer'); let n = 0;
  for (const m of ['connect', 'getAddress', 'getNonce', 'populateCall', 'populateTransaction', 'estimateGas', 'resolveName', 'signTransaction', 'signMessage', 'signTypedData']) {
    const r = go(A, m, null), same = (cx, e) => (e.kind === 'ext' || e.kind === 'sign') && (e.kind === 'sign' ? r.res.every(x => x.v === T.app('signature', wallet, ...r.args)) : e.name === m && cx.eq(e.recv, wallet) && e.args.length === r.args.length && e.raw.every((v, i) => cx.eq(v, r.args[i])));
    n++;
    table(rep, 'account:' + m, r, { rows: [{ n: 'forwarded', fx: (cx, st) => bag(cx, st, [same]) }], thr: (cx, st) => true, rule: 'what is asked of the account of a channel is asked of the wallet, with the same values' });
  }
  rep.floor('account', n, 10, 'operations of the wallet');
  const r = go(A, 'disconnectFromPeers', [], { opaque: { 'P2PManager.disconnectAll': 'eff' } });
  table(rep, 'account:disconnect', r, { rows: [{ n: 'all', fx: (cx, st) => bag(cx, st, [E.call('P2PManager.disconnectAll')]) }], thr: (cx, st) => true, rule: 'asked to disconnect, the client ends every connection' });
};
module.exports = { groups };
