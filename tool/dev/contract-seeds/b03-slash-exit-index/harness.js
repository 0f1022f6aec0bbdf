// Compiles /repo's contracts together with TestManager.sol and runs them on hardhat's in-process network.
const path = require("path"), fs = require("fs");
const repo = process.env.DEMO_REPO || "/repo";
const R = (m) => require(require.resolve(m, { paths: [repo + "/node_modules/hardhat", repo] }));
process.env.HARDHAT_DISABLE_TELEMETRY_PROMPT = "true";
const solc = R("solc");
const { ethers } = require(repo + "/node_modules/ethers");
const coder = ethers.AbiCoder.defaultAbiCoder();

function compile(files) {
    const sources = {};
    for (const f of files) sources[path.basename(f)] = { content: fs.readFileSync(f, "utf8") };
    const imp = (p) => {
        for (const c of [path.join(repo, p), path.join(repo, "node_modules", p)])
            if (fs.existsSync(c)) return { contents: fs.readFileSync(c, "utf8") };
        return { error: "not found " + p };
    };
    const out = JSON.parse(solc.compile(JSON.stringify({
        language: "Solidity", sources,
        settings: { viaIR: true, optimizer: { enabled: false }, outputSelection: { "*": { "*": ["abi", "evm.bytecode"] } } }
    }), { import: imp }));
    const errs = (out.errors || []).filter((e) => e.severity === "error");
    if (errs.length) throw new Error(errs.map((e) => e.formattedMessage).join("\n"));
    const all = {};
    for (const f of Object.values(out.contracts)) Object.assign(all, f);
    return all;
}

async function network() {
    process.env.HARDHAT_CONFIG = path.join(__dirname, "hh.config.js");
    process.chdir(__dirname);
    const hre = R("hardhat");
    return new ethers.BrowserProvider(hre.network.provider, undefined, { cacheTimeout: -1 });
}

async function setup(n = 3, extra = []) {
    const all = compile([path.join(__dirname, "TestManager.sol"), ...extra]);
    const hre = { provider: null };
    const provider = await network();
    const signers = [];
    for (let i = 0; i < n + 2; i++) signers.push(await provider.getSigner(i));
    const linked = {};
    async function deploy(name, args = []) {
        const c = all[name];
        let code = c.evm.bytecode.object;
        for (const f of Object.values(c.evm.bytecode.linkReferences))
            for (const [lib, refs] of Object.entries(f))
                for (const r of refs)
                    code = code.slice(0, r.start * 2) + linked[lib].slice(2).toLowerCase() + code.slice((r.start + r.length) * 2);
        const f = new ethers.ContractFactory(c.abi, "0x" + code, signers[0]);
        const d = await f.deploy(...args);
        await d.waitForDeployment();
        linked[name] = await d.getAddress();
        return d;
    }
    await deploy("StateChannelUtilLibrary");
    const facet = await deploy("DisputeManagerFacet");
    const machine = await deploy("TestMachine");
    const manager = await deploy("TestManager", [await machine.getAddress(), await facet.getAddress()]);
    const facetAbi = new ethers.Interface(all.DisputeManagerFacet.abi);
    const ps = await Promise.all(signers.map((s) => s.getAddress()));
    const channelId = ethers.id("channel");
    const now = async () => (await provider.getBlock("latest")).timestamp;
    const skip = async (s) => { await provider.send("evm_increaseTime", [s]); await provider.send("evm_mine", []); };
    const sign = (i, data) => signers[i].signMessage(ethers.getBytes(ethers.keccak256(data)));
    return { all, provider, signers, ps, deploy, facet, machine, manager, facetAbi, channelId, now, skip, sign, linked };
}

const T = {
    state: "tuple(uint256 number, address[] participants)",
    block: "tuple(tuple(tuple(bytes32,address,uint256,uint256,uint256) header, tuple(uint8,bytes,bytes) body) transaction, bytes32 stateHash, bytes32 previousStateHash)",
    signedBlock: "tuple(bytes encodedBlock, bytes signature)",
    join: "tuple(bytes32 channelId, address participant, uint256 amount, uint256 deadline, bytes data)",
    signedJoin: "tuple(bytes encodedJoinChannel, bytes signature)",
    joinAgreement: "tuple(tuple(bytes,bytes) signedJoinChannel, address submitter, uint256 forkCnt, uint256 transactionCnt, bytes32 previousStateHash)",
    leave: "tuple(bytes32 channelId, address participant, uint256 forkCnt, uint256 transactionCnt, bytes32 previousStateHash, uint256 deadline, bytes data)",
    foldRechallenge: "tuple(bytes encodedBlock, bytes[] signatures)",
    doubleSign: "tuple(tuple(tuple(bytes,bytes) block1, tuple(bytes,bytes) block2)[] doubleSigns)",
    incorrectData: "tuple(tuple(bytes,bytes) block1, tuple(bytes,bytes) block2, bytes encodedState)",
    newerState: "tuple(bytes encodedBlock, bytes confirmationSignature)",
    foldPriorBlock: "tuple(uint256 transactionCnt)",
    farFuture: "tuple(tuple(bytes,bytes) block1)",
    joinProof: "tuple(bytes encodedSignedJoinChannel, bytes[] signatures)"
};
const enc = (t, v) => coder.encode([T[t] || t], [v]);
const dec = (t, v) => coder.decode([T[t] || t], v)[0];
const kec = ethers.keccak256;
const encState = (number, participants) => enc("state", [number, participants]);
const addData = (n) => new ethers.Interface(["function add(uint256)"]).encodeFunctionData("add", [n]);
const mkBlock = (o) => enc("block", [[[o.channelId, o.participant, o.forkCnt || 0, o.tx || 0, o.timestamp || 0], [0, "0x", o.data || addData(1)]], o.stateHash || ethers.ZeroHash, o.prev || ethers.ZeroHash]);
// Proof types as numbered in DisputeTypes.sol
const P = { FoldRechallenge: 0, DoubleSign: 1, IncorrectData: 2, NewerState: 3, FoldPriorBlock: 4, BlockTooFarInFuture: 5, JoinChannel: 6 };
async function tx(p) { const r = await (await p).wait(); return r; }
async function fails(p) { try { await (await p).wait(); return false; } catch (e) { return true; } }
function main(f) { f().then((ok) => { console.log(ok ? "HOLDS" : "BROKEN"); process.exit(ok ? 0 : 1); }, (e) => { console.log("ERROR", e); process.exit(2); }); }
module.exports = { ethers, setup, T, enc, dec, kec, encState, addData, mkBlock, P, tx, fails, main, R, compile };
