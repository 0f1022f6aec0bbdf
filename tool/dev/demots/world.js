'use strict';
// Clients with a toy application, a stand-in for the contract and in-memory connections.
const H = require('./harness');
const { load, all, ethers } = H;
const Clock = load('Clock.ts'), StateManager = load('stateManager/StateManager.ts');
const { EvmUtils } = all('utils/index.ts');
const CH = '0x' + '11'.repeat(32);
const hex = o => ethers.hexlify(ethers.toUtf8Bytes(JSON.stringify(o))), unhex = h => JSON.parse(ethers.toUtf8String(h));
const genesis = wallets => hex({ members: wallets.map(w => w.address), turn: 0, sum: 0 });
// the application: members take turns adding a number; a negative number is refused after a partial change
function app() {
  let s = hex({ members: [], turn: 0, sum: 0 });
  const step = (st, tx) => { const o = unhex(st); const n = Number(BigInt(tx.body.data === '0x' || !tx.body.data ? 0 : BigInt.asIntN(256, BigInt(tx.body.data)))); o.sum += Math.abs(n); if (n < 0) return [hex(o), false]; o.turn = (o.turn + 1) % o.members.length; return [hex(o), true]; };
  const m = { done: [], runView: async () => '0x', getParticipants: async () => unhex(s).members, getNextToWrite: async () => { const o = unhex(s); return o.members[o.turn]; }, setState: async x => { s = x; }, getState: async () => s,
    stateTransition: async tx => { const [x, ok] = step(s, tx); s = x; return { success: ok, successCallback: () => { m.done.push(tx); } }; } };
  m.step = step;
  return m;
}
// the contract: records what it was sent and answers from `answers`
function contract(chain) {
  const listeners = [];
  const c = { calls: [], answers: {}, listeners, filters: new Proxy({}, { get: (_, n) => (...a) => ({ event: n, args: a }) }),
    on: async (f, l) => { listeners.push({ f, l }); return c; }, off: async f => { for (let i = listeners.length - 1; i >= 0; i--) if (listeners[i].f === f) listeners.splice(i, 1); return c; }, connect: () => c, emit: (name, args) => { for (const x of listeners) if (x.f.event === name) x.l({ args }); } };
  const tx = { wait: async () => ({ status: 1 }), hash: '0x' };
  const dflt = { getDispute: () => ({ channelId: '0x' + '00'.repeat(32) }), getBlockCallData: () => ({ found: false, blockCalldata: {} }) };
  return new Proxy(c, { get: (o, n) => n in o ? o[n] : typeof n !== 'string' || n === 'then' ? undefined : async (...a) => { o.calls.push({ m: n, a }); const f = o.answers[n] || dflt[n]; return f ? f(...a) : tx; } });
}
const TIME = { p2pTime: 15, agreementTime: 5, chainFallbackTime: 30, challengeTime: 60 };
let T0;
async function clock() { T0 = Math.floor(Date.now() / 1000); await Clock.init({ getBlock: async () => ({ number: 1, timestamp: Math.floor(Date.now() / 1000) }) }); }
function client(wallet, time) {
  const con = contract(), m = app(), ev = [];
  const hooks = new Proxy({}, { get: (_, n) => (...a) => { ev.push([n, ...a]); } });
  const sm = new StateManager(wallet, wallet.address, con, m, Object.assign({}, TIME, time || {}), hooks);
  const sent = [];
  const wire = { send: r => sent.push(JSON.parse(r)), close() {} };
  const c = { wallet, con, app: m, sm, ev, sent, am: sm.agreementManager, dh: sm.disputeHandler, p2p: sm.p2pManager };
  sm.p2pManager.openConnections.push(wire);
  sm.setChannelId(CH);
  c.sentOf = n => sent.filter(x => x.method === n);
  return c;
}
const start = async (c, wallets, t, fork = 0) => { await c.sm.setState(genesis(wallets), fork, t === undefined ? await now() : t); await H.flush(); };
const now = async () => Clock.getTimeInSeconds();
const num = n => ethers.AbiCoder.defaultAbiCoder().encode(['int256'], [n]);
// a block by `wallet` on top of state `st`
function block(wallet, st, o = {}) {
  const tx = { header: { channelId: o.channel || CH, participant: o.author || wallet.address, forkCnt: o.fork || 0, transactionCnt: o.pos || 0, timestamp: o.time }, body: { transactionType: 0, encodedData: '0x', data: num(o.n === undefined ? 1 : o.n) } };
  const [post] = app().step(st, tx);
  const b = { transaction: tx, stateHash: o.stateHash || ethers.keccak256(post), previousStateHash: o.prev || ethers.keccak256(st) };
  return { block: b, post };
}
const sign = async (wallet, b) => { const s = await EvmUtils.signBlock(b, wallet); return s; };
const w = n => new ethers.Wallet(ethers.zeroPadValue(ethers.toBeHex(n), 32));
module.exports = { ...H, CH, hex, unhex, genesis, app, contract, TIME, clock, client, start, now, num, block, sign, w, EvmUtils, Clock };
