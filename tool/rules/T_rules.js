'use strict';
// Client properties: which rule groups decide which property.
const ag = require('./T_agree').groups, va = require('./T_valid').groups, st = require('./T_state').groups, di = require('./T_disp').groups, ne = require('./T_net').groups, pe = require('./T_peer').groups, ut = require('./T_util').groups, en = require('./T_env').groups, ec = require('./T_enc').groups, fl = require('./T_float').groups;
const trusted = ['TypeScript type checker and the modelled JavaScript/ethers semantics (keccak, signature recovery and ABI coding are uninterpreted, deterministic)', 'application hooks and the state machine are uninterpreted and may throw'];
const r = (groups, rule) => ({ run: rep => groups.forEach(g => g(rep)), level: 'proof', trusted, rule });
module.exports.rules = {
  T01: r([va.block, ag.lookup, ag.times, ag.verdict, en.evm], 'decision table: every path through block validation is matched with exactly one row of the specified verdict table, and every row is reachable'),
  T02: r([st.receive, ut.startMgr, ut.mutex], 'decision table over the outcomes of receiving a block: exact multiset of effects per verdict, under the lock'),
  T03: r([st.drain, va.confirmation, st.confirmed, ag.lookup], 'decision table of confirmation validation and of the effects of receiving a confirmation'),
  T04: r([st.author, ut.mutex, ut.startLock, en.evm], 'decision table of authoring: required facts on every path that signs, exact contents of the block, exact effects'),
  T05: r([st.install, ut.startMgr, ut.mutex, ag.store, ag.lookup], 'decision table of installing an announced state'),
  T06: r([ag.store, ag.frame, ag.lookup], 'every write to the stored history is enumerated; store and lookup are compared with their specification'),
  T07: r([ag.verdict], 'decision table of the comparison of a block with the stored history'),
  T08: r([ag.everyone, ag.votes, ag.latestSigned, ut.sets], 'closed-form specification of finality, votes and latest signed block'),
  T09: r([ag.queue, st.drain], 'closed-form specification of the queues of early blocks and confirmations'),
  T10: r([ag.chainRec, ag.times, st.collect], 'decision table of recording blocks published on chain'),
  T11: r([st.timeouts, ut.delayed, ag.everyone, ag.chainRec], 'decision table of the delayed timeout decision wherever it is scheduled'),
  T13: r([di.filter], 'for each proof kind the selection predicate is equivalent to the specified usefulness'),
  T14: r([di.create, ec.proofTypes, ag.latestSigned], 'decision table and contents of each proof'),
  T15: r([di.dispute, di.marks, di.filter], 'decision table of reacting to a dispute seen on chain; every transaction sent is checked'),
  T16: r([di.create2, di.accuse, ut.retry, ut.proxy], 'decision table of opening disputes; every transaction sent is checked'),
  T17: r([ne.dispatch, ne.handlers, ne.wire, ne.sender], 'decision table of decoding and dispatching an incoming message and of every handler; no path fails'),
  T18: r([ne.relay, ne.wire], 'decision table of passing on received blocks and confirmations; loop over all open connections'),
  T19: r([ne.send, ne.countersign, ne.connect, pe.account], 'exact contents and effects of composing a transaction and of countersigning a block'),
  T20: r([ne.join, ne.collection, pe.opening], 'decision table of answering and counting requests to join'),
  T21: r([ne.handshake, ne.replies], 'decision table of the handshake; every answer is sent to the connection recorded on entry, with that record changing at every await'),
  T22: r([ne.conns, ne.events, ut.startConn, pe.profile, pe.lead], 'closed-form specification of the connection and profile bookkeeping'),
  T23: r([ut.mutex, ut.startLock], 'closed-form specification of taking and releasing the lock'),
  T24: r([fl.floats, ut.background, ut.delayed], 'every discarded promise in the sources is enumerated and shown to be handled or unable to fail; decision tables of background and delayed work'),
  T25: r([en.chainEvents, en.wiring], 'decision table of subscribing to the events of the chain and of every handler; decision tables of the wiring'),
  T26: r([en.evm, en.setup], 'decision table of every operation of the local execution: what is called on what, and what is reported'),
  T27: r([ec.types, ec.codec, ec.proofTypes], 'every type description is folded to a constant and compared field by field with the structure in the syntax tree of the contracts'),
  T28: r([ut.clock], 'decision table of synchronising and reading the clock'),
  T29: r([ut.retry, ut.proxy], 'decision table of retrying for each number of allowed attempts up to three'),
  T30: r([pe.search, pe.relay], 'decision table of joining, leaving and rejoining topics, of setting up the search in a browser and elsewhere, and of replacing relays'),
  T31: r([pe.direct, ne.offers], 'decision table of offering, answering and completing a direct connection; callbacks are analysed with another sender recorded'),
};
