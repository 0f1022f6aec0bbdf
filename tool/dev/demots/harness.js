'use strict';
// Loads the TypeScript sources of the current directory (the repository) without its network packages.
const path = require('path'), fs = require('fs'), Module = require('module');
const REPO = process.cwd();
const tsPath = [path.join(REPO, 'node_modules/typescript'), '/opt/veriftools/node/node_modules/typescript'].find(p => fs.existsSync(p));
const ts = require(tsPath);
const out = console.log;
const say = (...a) => out(...a);
console.log = console.trace = console.warn = () => {}; // the sources log a lot
if (!process.env.DEMO_ERR) console.error = () => {};
process.on('unhandledRejection', e => { say('FAIL unhandled rejection', e && e.message); process.exitCode = 1; });
const stub = {};
stub['get-webrtc'] = { RTCPeerConnection: class { addIceCandidate() {} close() {} }, RTCIceCandidate: class {}, RTCSessionDescription: class {} };
const swarm = { removeAllListeners() {}, on() {}, join() { return {}; }, leave() {} };
global.Hyperswarm = swarm;
for (const n of ['hyperswarm', '@hyperswarm/dht-relay', '@hyperswarm/dht-relay/ws']) stub[n] = class { constructor() { return swarm; } };
const load0 = Module._load, res0 = Module._resolveFilename;
Module._load = function (req, ...r) { if (stub[req]) return stub[req]; return load0.call(this, req, ...r); };
Module._resolveFilename = function (req, parent, ...r) {
  const m = /^(@\/|@typechain-types(?:\/|$)|@test\/)(.*)$/.exec(req);
  if (m) { const base = path.join(REPO, m[1] === '@/' ? 'src' : m[1].startsWith('@test') ? 'test' : 'typechain-types', m[2]); const hit = [base + '.ts', path.join(base, 'index.ts'), base].find(f => fs.existsSync(f) && fs.statSync(f).isFile()); if (hit) return hit; }
  try { return res0.call(this, req, parent, ...r); } catch (e) { if (!req.startsWith('.')) return res0.call(this, req, { id: REPO, filename: path.join(REPO, 'x.js'), paths: Module._nodeModulePaths(REPO) }); throw e; }
};
require.extensions['.ts'] = function (m, f) {
  const js = ts.transpileModule(fs.readFileSync(f, 'utf8'), { compilerOptions: { module: ts.ModuleKind.CommonJS, target: ts.ScriptTarget.ES2021, esModuleInterop: true, experimentalDecorators: true } }).outputText;
  m._compile(js, f);
};
const load = p => { const x = require(path.join(REPO, 'src', p)); return x && x.default ? x.default : x; };
const all = p => require(path.join(REPO, 'src', p));
const { ethers } = require(require.resolve('ethers', { paths: [REPO] }));
const flush = async (n = 30) => { for (let i = 0; i < n; i++) await new Promise(r => setImmediate(r)); };
const sleep = ms => new Promise(r => setTimeout(r, ms));
async function until(f, ms = 4000) { const t = Date.now(); while (Date.now() - t < ms) { if (await f()) return true; await sleep(10); } return false; }
let bad = 0;
const check = (ok, what) => { say((ok ? 'ok   ' : 'FAIL ') + what); if (!ok) bad++; };
function main(f) { Promise.resolve().then(f).then(() => { say(bad ? 'the behaviour is broken' : 'all as specified'); process.exit(bad ? 1 : process.exitCode || 0); }, e => { say('FAIL', e && e.stack); process.exit(1); }); }
module.exports = { REPO, load, all, ethers, flush, sleep, until, check, main, say };
