// edits that keep something between calls, or change what they are given; "quiet" ones only name constants
module.exports = [
 {
  "id": "e1 memo signer by signature",
  "file": "src/utils/EvmUtils.ts",
  "edits": [
   [
    "export class EvmUtils {",
    "const seenSigners = new Map<string, string>();\nexport class EvmUtils {"
   ],
   [
    "        return ethers.verifyMessage(econdedHashBytes, signature);\n    }\n\n    public static encodeJoinChannel",
    "        const k = signature.toString();\n        let a = seenSigners.get(k);\n        if (!a) {\n            a = ethers.verifyMessage(econdedHashBytes, signature);\n            seenSigners.set(k, a);\n        }\n        return a;\n    }\n\n    public static encodeJoinChannel"
   ]
  ],
  "props": [
   "T27",
   "T07",
   "T01"
  ]
 },
 {
  "id": "e2 memo encodeBlock by object",
  "file": "src/utils/EvmUtils.ts",
  "edits": [
   [
    "export class EvmUtils {",
    "const encoded = new WeakMap<BlockStruct, string>();\nexport class EvmUtils {"
   ],
   [
    "        let blockEncoded = ethers.AbiCoder.defaultAbiCoder().encode(\n            [BlockEthersType],\n            [block]\n        );\n        return blockEncoded;",
    "        let known = encoded.get(block);\n        if (known) return known;\n        let blockEncoded = ethers.AbiCoder.defaultAbiCoder().encode(\n            [BlockEthersType],\n            [block]\n        );\n        encoded.set(block, blockEncoded);\n        return blockEncoded;"
   ]
  ],
  "props": [
   "T27",
   "T02"
  ]
 },
 {
  "id": "q1 queue key lower-cased",
  "file": "src/agreementManager/QueueService.ts",
  "edits": [
   [
    "    addressMap.set(address, element);",
    "    addressMap.set(address.slice(0, 10), element);"
   ]
  ],
  "props": [
   "T09"
  ]
 },
 {
  "id": "q2 no overwrite of newer",
  "file": "src/agreementManager/QueueService.ts",
  "edits": [
   [
    "    addressMap.set(address, element);",
    "    if (addressMap.size < 8) addressMap.set(address, element);"
   ]
  ],
  "props": [
   "T09"
  ]
 },
 {
  "id": "q3 dequeue only once",
  "file": "src/agreementManager/QueueService.ts",
  "edits": [
   [
    "    private confQ: Queue<BlockConfirmation> = new Map();",
    "    private confQ: Queue<BlockConfirmation> = new Map();\n    private last = -1;"
   ],
   [
    "        const heightMap = this.confQ.get(forkCnt);\n        if (!heightMap) return [];\n",
    "        if (this.last === height) return [];\n        this.last = height;\n        const heightMap = this.confQ.get(forkCnt);\n        if (!heightMap) return [];\n"
   ]
  ],
  "props": [
   "T09"
  ]
 },
 {
  "id": "q4 dequeue clears all heights",
  "file": "src/agreementManager/QueueService.ts",
  "edits": [
   [
    "        const signedBlocks = Array.from(txMap.values());\n        heightMap.delete(height);",
    "        const signedBlocks = Array.from(txMap.values());\n        this.blockQ.delete(forkCnt);"
   ]
  ],
  "props": [
   "T09"
  ]
 },
 {
  "id": "q5 isBlockQueued across participants",
  "file": "src/agreementManager/QueueService.ts",
  "edits": [
   [
    "const stored = this.blockQ.get(forkCnt)?.get(height)?.get(participant);",
    "const stored = [...(this.blockQ.get(forkCnt)?.get(height)?.values() ?? [])][0];"
   ]
  ],
  "props": [
   "T01"
  ]
 },
 {
  "id": "o1 hasPosted cached",
  "file": "src/agreementManager/OnChainTracker.ts",
  "edits": [
   [
    "export default class OnChainTracker {",
    "export default class OnChainTracker {\n    private posted = new Set<number>();"
   ],
   [
    "        if (!this.hasPosted(forkCnt, height, participant)) {",
    "        if (!this.posted.has(height)) {\n            this.posted.add(height);"
   ]
  ],
  "props": [
   "T10",
   "T11",
   "T06"
  ]
 },
 {
  "id": "o2 latest only last",
  "file": "src/agreementManager/OnChainTracker.ts",
  "edits": [
   [
    "            if (cb.timestamp > latest) latest = cb.timestamp;",
    "            latest = cb.timestamp;"
   ]
  ],
  "props": [
   "T10"
  ]
 },
 {
  "id": "f2 shared arrays",
  "file": "src/agreementManager/ForkService.ts",
  "edits": [
   [
    "export default class ForkService {",
    "const NONE: any[] = [];\nexport default class ForkService {"
   ],
   [
    "            chainBlocks: [],\n            agreements: []",
    "            chainBlocks: NONE,\n            agreements: []"
   ]
  ],
  "props": [
   "T06"
  ]
 },
 {
  "id": "d1 single disputed fork",
  "file": "src/DisputeHandler.ts",
  "edits": [
   [
    "    disputedForks: Map<ForkCnt, boolean> = new Map();",
    "    disputedForks: Map<ForkCnt, boolean> = new Map();\n    lastDisputed = -1;"
   ],
   [
    "        this.disputedForks.set(forkCnt, true);",
    "        this.lastDisputed = forkCnt;"
   ],
   [
    "return this.disputedForks.get(forkCnt) ?? false;",
    "return this.lastDisputed === forkCnt;"
   ]
  ],
  "props": [
   "T15",
   "T16"
  ]
 },
 {
  "id": "d2 max disputed fork",
  "file": "src/DisputeHandler.ts",
  "edits": [
   [
    "    disputedForks: Map<ForkCnt, boolean> = new Map();",
    "    disputedForks: Map<ForkCnt, boolean> = new Map();\n    lastDisputed = -1;"
   ],
   [
    "        this.disputedForks.set(forkCnt, true);",
    "        this.lastDisputed = Math.max(this.lastDisputed, forkCnt);"
   ],
   [
    "return this.disputedForks.get(forkCnt) ?? false;",
    "return forkCnt <= this.lastDisputed;"
   ]
  ],
  "props": [
   "T15",
   "T16"
  ]
 },
 {
  "id": "d3 proofs deduped by type",
  "file": "src/DisputeHandler.ts",
  "edits": [
   [
    "        proofs.push(proof);\n",
    "        if (proofs.some((p) => p.proofType == proof.proofType)) return;\n        proofs.push(proof);\n"
   ]
  ],
  "props": [
   "T16"
  ]
 },
 {
  "id": "d4 proofs kept in one list",
  "file": "src/DisputeHandler.ts",
  "edits": [
   [
    "const proofs = this.localProofs.get(forkCnt) || [];",
    "const proofs = this.localProofs.get(0) || [];"
   ]
  ],
  "props": [
   "T15"
  ]
 },
 {
  "id": "m1 setState skipped when same",
  "file": "src/evm/EvmStateMachine.ts",
  "edits": [
   [
    "    public stateManager?: StateManager;",
    "    public stateManager?: StateManager;\n    private lastSet?: BytesLike;"
   ],
   [
    "            await this.contractExecuter.executeCall(encodedData);\n            return true;",
    "            if (this.lastSet === serializedState) return true;\n            await this.contractExecuter.executeCall(encodedData);\n            this.lastSet = serializedState;\n            return true;"
   ]
  ],
  "props": [
   "T26"
  ]
 },
 {
  "id": "m2 view cached",
  "file": "src/evm/EvmStateMachine.ts",
  "edits": [
   [
    "    public stateManager?: StateManager;",
    "    public stateManager?: StateManager;\n    private views = new Map<string, string>();"
   ],
   [
    "            return hexlify(result.returnValue);",
    "            const out = hexlify(result.returnValue);\n            this.views.set(String(tx.data), out);\n            return out;"
   ],
   [
    "    async runView(tx: ethers.TransactionRequest): Promise<string> {\n",
    "    async runView(tx: ethers.TransactionRequest): Promise<string> {\n        const known = this.views.get(String(tx.data));\n        if (known) return known;\n"
   ]
  ],
  "props": [
   "T26"
  ]
 },
 {
  "id": "m3 participants cached",
  "file": "src/evm/EvmStateMachine.ts",
  "edits": [
   [
    "    public stateManager?: StateManager;",
    "    public stateManager?: StateManager;\n    private participants?: string[];"
   ],
   [
    "        return addresses.toArray();",
    "        this.participants = addresses.toArray();\n        return this.participants!;"
   ],
   [
    "        const callData = this.getEncodedCalldata(\"getParticipants\");\n",
    "        if (this.participants) return this.participants;\n        const callData = this.getEncodedCalldata(\"getParticipants\");\n"
   ]
  ],
  "props": [
   "T26"
  ]
 },
 {
  "id": "c1 one copy",
  "file": "src/evm/ContractExecuter.ts",
  "edits": [
   [
    "    private readonly contractAddress: Address;\n\n",
    "    private readonly contractAddress: Address;\n    private copy?: EVM;\n\n"
   ],
   [
    "        return this.runCall(this.evm.shallowCopy(), data);",
    "        this.copy ??= this.evm.shallowCopy();\n        return this.runCall(this.copy, data);"
   ]
  ],
  "props": [
   "T26"
  ]
 },
 {
  "id": "ck1 clock cached",
  "file": "src/Clock.ts",
  "edits": [
   [
    "    private static instance: Clock;",
    "    private static instance: Clock;\n    private static last = 0;"
   ],
   [
    "        return (\n            Math.floor(new Date().getTime() / 1000) +\n            Clock.getInstance().clockAjustmentSeconds\n        );",
    "        if (!Clock.last)\n            Clock.last =\n                Math.floor(new Date().getTime() / 1000) +\n                Clock.getInstance().clockAjustmentSeconds;\n        return Clock.last;"
   ]
  ],
  "props": [
   "T28"
  ]
 },
 {
  "id": "ck2 instance kept",
  "file": "src/Clock.ts",
  "edits": [
   [
    "        Clock.instance = new Clock(provider);",
    "        Clock.instance ??= new Clock(provider);"
   ]
  ],
  "props": [
   "T28"
  ]
 },
 {
  "id": "j1 participants cached",
  "file": "src/rpc/services/JoinChannelService.ts",
  "edits": [
   [
    "    joinChannelQueue: JoinChanenelConfirmation[] = [];",
    "    joinChannelQueue: JoinChanenelConfirmation[] = [];\n    members?: string[];"
   ],
   [
    "            let currentParticipants =\n                await this.mainRpcService.p2pManager.stateManager.getParticipantsCurrent();",
    "            let currentParticipants = (this.members ??=\n                await this.mainRpcService.p2pManager.stateManager.getParticipantsCurrent());"
   ]
  ],
  "props": [
   "T20"
  ]
 },
 {
  "id": "j2 one timer",
  "file": "src/rpc/services/JoinChannelService.ts",
  "edits": [
   [
    "    joinChannelQueue: JoinChanenelConfirmation[] = [];",
    "    joinChannelQueue: JoinChanenelConfirmation[] = [];\n    timer?: any;"
   ],
   [
    "                setTimeout(() => {\n                    this.joinChannelMap.delete(key); // prune expired",
    "                clearTimeout(this.timer);\n                this.timer = setTimeout(() => {\n                    this.joinChannelMap.delete(key); // prune expired"
   ]
  ],
  "props": [
   "T20"
  ]
 },
 {
  "id": "j3 key field",
  "file": "src/rpc/services/JoinChannelService.ts",
  "edits": [
   [
    "    joinChannelQueue: JoinChanenelConfirmation[] = [];",
    "    joinChannelQueue: JoinChanenelConfirmation[] = [];\n    key = \"\";"
   ],
   [
    "            let key = signedJoinChannel",
    "            let key = (this.key = signedJoinChannel"
   ],
   [
    "encodedJoinChannel.toString(); //",
    "encodedJoinChannel.toString()); //"
   ],
   [
    "this.joinChannelMap.delete(key); // prune",
    "this.joinChannelMap.delete(this.key); // prune"
   ]
  ],
  "props": [
   "T20"
  ]
 },
 {
  "id": "p1 fork cached",
  "file": "src/evm/P2pSigner.ts",
  "edits": [
   [
    "    isLeader: boolean;\n",
    "    isLeader: boolean;\n    fork?: number;\n"
   ],
   [
    "forkCnt: this.p2pManager.stateManager.getForkCnt(),",
    "forkCnt: (this.fork ??= this.p2pManager.stateManager.getForkCnt()),"
   ]
  ],
  "props": [
   "T19"
  ]
 },
 {
  "id": "p2 header reused",
  "file": "src/evm/P2pSigner.ts",
  "edits": [
   [
    "timestamp: BigInt(Clock.getTimeInSeconds())",
    "timestamp: (this.ts ??= BigInt(Clock.getTimeInSeconds()))"
   ],
   [
    "    isLeader: boolean;\n",
    "    isLeader: boolean;\n    ts?: bigint;\n"
   ]
  ],
  "props": [
   "T19"
  ]
 },
 {
  "id": "mx1 lifo",
  "file": "src/utils/Mutex.ts",
  "edits": [
   [
    "this.queue.shift()",
    "this.queue.pop()"
   ]
  ],
  "props": [
   "T24",
   "T29",
   "T04"
  ]
 },
 {
  "id": "mx2 async handover",
  "file": "src/utils/Mutex.ts",
  "edits": [
   [
    "            if (next) {\n                next();\n            }",
    "            if (next) {\n                this.isLocked = false;\n                next();\n            }"
   ]
  ],
  "props": [
   "T24",
   "T04",
   "T29"
  ]
 },
 {
  "id": "r1 shared budget",
  "file": "src/utils/retry.ts",
  "edits": [
   [
    "            lastError = error;\n",
    "            lastError = error;\n            config.maxRetries = maxRetries - 1;\n"
   ]
  ],
  "props": [
   "T29"
  ]
 },
 {
  "id": "s1 dedupe timers",
  "file": "src/utils/scheduler.ts",
  "edits": [
   [
    "export function scheduleTask(",
    "const pending = new Map<string, any>();\nexport function scheduleTask("
   ],
   [
    "    setTimeout(async () => {",
    "    clearTimeout(pending.get(taskName));\n    pending.set(taskName, setTimeout(async () => {"
   ],
   [
    "    }, delayMs);",
    "    }, delayMs));"
   ]
  ],
  "props": [
   "T24",
   "T11",
   "T29"
  ]
 },
 {
  "id": "s2 dedupe by delay",
  "file": "src/utils/scheduler.ts",
  "edits": [
   [
    "export function scheduleTask(",
    "const pending = new Set<string>();\nexport function scheduleTask("
   ],
   [
    "    setTimeout(async () => {\n",
    "    if (pending.has(taskName)) return;\n    pending.add(taskName);\n    setTimeout(async () => {\n        pending.delete(taskName);\n"
   ]
  ],
  "props": [
   "T24",
   "T11",
   "T29"
  ]
 },
 {
  "id": "pm1 register only first",
  "file": "src/ProfileManager.ts",
  "edits": [
   [
    "        if (transport) this.mapTransportToProfile.set(transport, profile);\n        let evm",
    "        if (transport && !this.mapTransportToProfile.has(transport))\n            this.mapTransportToProfile.set(transport, profile);\n        let evm"
   ]
  ],
  "props": [
   "T22"
  ]
 },
 {
  "id": "k1 static const",
  "file": "src/DisputeHandler.ts",
  "quiet": true,
  "edits": [
   [
    "    signer: ethers.Signer;\n",
    "    private static readonly RETRIES = 1;\n    private readonly limit = 4000000;\n    signer: ethers.Signer;\n"
   ],
   [
    "maxRetries: 1,",
    "maxRetries: DisputeHandler.RETRIES,"
   ],
   [
    "gasLimit: 4000000",
    "gasLimit: this.limit"
   ]
  ],
  "props": [
   "T15",
   "T16"
  ]
 },
 {
  "id": "k2 config const",
  "file": "src/DisputeHandler.ts",
  "quiet": true,
  "edits": [
   [
    "const INITIAL_TRANSACTION_COUNT = 0;",
    "const INITIAL_TRANSACTION_COUNT = 0;\nconst OVERRIDES = { gasLimit: 2000000 };\nconst RETRY = { maxRetries: 1 };"
   ],
   [
    "{ gasLimit: 2000000 } //TODO! - gas limit",
    "OVERRIDES"
   ],
   [
    "maxRetries: 1,",
    "...RETRY,"
   ]
  ],
  "props": [
   "T15",
   "T16"
  ]
 },
 {
  "id": "k3 types const",
  "file": "src/utils/EvmUtils.ts",
  "quiet": true,
  "edits": [
   [
    "export class EvmUtils {",
    "const BLOCK_TYPES = [BlockEthersType];\nexport class EvmUtils {\n    private static readonly codec = ethers.AbiCoder.defaultAbiCoder();\n"
   ],
   [
    "            [BlockEthersType],\n            [block]",
    "            BLOCK_TYPES,\n            [block]"
   ]
  ],
  "props": [
   "T27",
   "T01",
   "T07"
  ]
 },
 {
  "id": "k4 codec static",
  "file": "src/utils/EvmUtils.ts",
  "quiet": true,
  "edits": [
   [
    "export class EvmUtils {",
    "export class EvmUtils {\n    private static readonly codec = ethers.AbiCoder.defaultAbiCoder();\n"
   ],
   [
    "ethers.AbiCoder.defaultAbiCoder().encode(\n            [BlockEthersType]",
    "EvmUtils.codec.encode(\n            [BlockEthersType]"
   ]
  ],
  "props": [
   "T27",
   "T01",
   "T07"
  ]
 },
 {
  "id": "k5 codec const",
  "file": "src/utils/EvmUtils.ts",
  "quiet": true,
  "edits": [
   [
    "export class EvmUtils {",
    "const codec = ethers.AbiCoder.defaultAbiCoder();\nexport class EvmUtils {\n"
   ],
   [
    "ethers.AbiCoder.defaultAbiCoder().encode(\n            [BlockEthersType]",
    "codec.encode(\n            [BlockEthersType]"
   ]
  ],
  "props": [
   "T27",
   "T01",
   "T07"
  ]
 },
 {
  "id": "w1 reverse signatures",
  "file": "src/utils/BlockUtils.ts",
  "edits": [
   [
    "            signatures.map((sig) =>\n",
    "            signatures.reverse().map((sig) =>\n"
   ]
  ],
  "props": [
   "T08"
  ]
 },
 {
  "id": "w2 sort signatures",
  "file": "src/utils/BlockUtils.ts",
  "edits": [
   [
    "            signatures.map((sig) =>\n",
    "            signatures.sort().map((sig) =>\n"
   ]
  ],
  "props": [
   "T08"
  ]
 },
 {
  "id": "w3 block author normalised in place",
  "file": "src/utils/BlockUtils.ts",
  "edits": [
   [
    "        return block.transaction.header.participant as string;",
    "        block.transaction.header.participant = String(block.transaction.header.participant).toLowerCase();\n        return block.transaction.header.participant as string;"
   ]
  ],
  "props": [
   "T01"
  ]
 },
 {
  "id": "w4 encodeBlock truncates",
  "file": "src/utils/EvmUtils.ts",
  "edits": [
   [
    "        let blockEncoded =",
    "        block.transaction.header.timestamp = Number(block.transaction.header.timestamp) + 1;\n        let blockEncoded ="
   ]
  ],
  "props": [
   "T27"
  ]
 },
 {
  "id": "w5 signBlock marks",
  "file": "src/utils/EvmUtils.ts",
  "edits": [
   [
    "        let encodedBlock = EvmUtils.encodeBlock(block);\n        let encodedHash = ethers.keccak256(encodedBlock);\n        let econdedHashBytes = ethers.getBytes(encodedHash);\n        let signature",
    "        let encodedBlock = EvmUtils.encodeBlock(block);\n        block.stateHash = ethers.ZeroHash;\n        let encodedHash = ethers.keccak256(encodedBlock);\n        let econdedHashBytes = ethers.getBytes(encodedHash);\n        let signature"
   ]
  ],
  "props": [
   "T27"
  ]
 },
 {
  "id": "w6 exclude splices",
  "file": "src/utils/set.ts",
  "edits": [
   [
    "    return source.filter((item) => !excluded.has(String(item)));",
    "    for (let i = source.length - 1; i >= 0; i--)\n        if (excluded.has(String(source[i]))) source.splice(i, 1);\n    return source;"
   ]
  ],
  "props": [
   "T08"
  ]
 },
 {
  "id": "w8 conflictingBlocks consumed",
  "file": "src/ProofManager.ts",
  "edits": [
   [
    "const doubleSigns = conflictingBlocks.flatMap(",
    "const doubleSigns = conflictingBlocks.splice(0).flatMap("
   ]
  ],
  "props": [
   "T16"
  ]
 },
 {
  "id": "w9 dispute edited",
  "file": "src/DisputeHandler.ts",
  "edits": [
   [
    "            this.disputes.set(forkCnt, dispute);",
    "            this.disputes.set(forkCnt, dispute);\n            dispute.challengeCnt = BigInt(dispute.challengeCnt) + 1n;"
   ]
  ],
  "props": [
   "T15"
  ]
 },
 {
  "id": "w10 retry budget",
  "file": "src/utils/retry.ts",
  "edits": [
   [
    "            lastError = error;\n",
    "            lastError = error;\n            config.maxRetries--;\n"
   ]
  ],
  "props": [
   "T29"
  ]
 },
 {
  "id": "w11 signatures popped on read",
  "file": "src/agreementManager/SignatureService.ts",
  "edits": [
   [
    "        return agreement.blockSignatures.includes(target);",
    "        return agreement.blockSignatures.splice(0, agreement.blockSignatures.length, ...agreement.blockSignatures.filter((s) => s !== target)).includes(target);"
   ]
  ],
  "props": [
   "T06"
  ]
 },
 {
  "id": "w12 proof sigs returned live and extended",
  "file": "src/ProofManager.ts",
  "edits": [
   [
    "            signatures: this.agreementManager.getSigantures(\n                block\n            ) as BytesLike[]",
    "            signatures: (this.agreementManager.getSigantures(\n                block\n            ) as BytesLike[]).reverse()"
   ]
  ],
  "props": [
   "T14"
  ]
 },
 {
  "id": "w13 queued block decoded then stamp",
  "file": "src/agreementManager/QueueService.ts",
  "edits": [
   [
    "        const block = EvmUtils.decodeBlock(sb.encodedBlock);\n",
    "        const block = EvmUtils.decodeBlock(sb.encodedBlock);\n        sb.signature = sb.signature.toString().toLowerCase();\n"
   ]
  ],
  "props": [
   "T09"
  ]
 },
 {
  "id": "e1",
  "file": "src/stateManager/StateManager.ts",
  "edits": [
   [
    "            await this.processExecutionDecision(\n                signedBlock,\n                flag,\n                agreementFlag\n            );\n\n            return flag;",
    "            return this.processExecutionDecision(\n                signedBlock,\n                flag,\n                agreementFlag\n            ).then(() => flag);"
   ]
  ],
  "props": [
   "T02"
  ]
 },
 {
  "id": "e2",
  "file": "src/stateManager/StateManager.ts",
  "edits": [
   [
    "            const { flag, agreementFlag } =\n                await this.validationService.validateSignedBlock(\n                    signedBlock,\n                    decodedBlock\n                );\n\n            await this.processExecutionDecision(\n                signedBlock,\n                flag,\n                agreementFlag\n            );\n\n            return flag;",
    "            return this.judge(signedBlock, decodedBlock);"
   ],
   [
    "    // Passes the block confirmation through",
    "    private async judge(signedBlock: SignedBlockStruct, decodedBlock: BlockStruct): Promise<ExecutionFlags> {\n        const { flag, agreementFlag } =\n                await this.validationService.validateSignedBlock(\n                    signedBlock,\n                    decodedBlock\n                );\n\n            await this.processExecutionDecision(\n                signedBlock,\n                flag,\n                agreementFlag\n            );\n\n            return flag;\n}\n    // Passes the block confirmation through"
   ]
  ],
  "props": [
   "T02"
  ]
 },
 {
  "id": "e3",
  "quiet": true,
  "file": "src/stateManager/StateManager.ts",
  "edits": [
   [
    "            const { flag, agreementFlag } =\n                await this.validationService.validateSignedBlock(\n                    signedBlock,\n                    decodedBlock\n                );\n\n            await this.processExecutionDecision(\n                signedBlock,\n                flag,\n                agreementFlag\n            );\n\n            return flag;",
    "            return await this.judge(signedBlock, decodedBlock);"
   ],
   [
    "    // Passes the block confirmation through",
    "    private async judge(signedBlock: SignedBlockStruct, decodedBlock: BlockStruct): Promise<ExecutionFlags> {\n        const { flag, agreementFlag } =\n                await this.validationService.validateSignedBlock(\n                    signedBlock,\n                    decodedBlock\n                );\n\n            await this.processExecutionDecision(\n                signedBlock,\n                flag,\n                agreementFlag\n            );\n\n            return flag;\n}\n    // Passes the block confirmation through"
   ]
  ],
  "props": [
   "T02"
  ]
 },
 {
  "id": "e4",
  "quiet": true,
  "file": "src/stateManager/StateManager.ts",
  "edits": [
   [
    "            const { flag, agreementFlag } =\n                await this.validationService.validateSignedBlock(\n                    signedBlock,\n                    decodedBlock\n                );\n\n            await this.processExecutionDecision(\n                signedBlock,\n                flag,\n                agreementFlag\n            );\n\n            return flag;\n        } finally {\n            this.mutex.unlock();\n        }",
    "            const { flag, agreementFlag } =\n                await this.validationService.validateSignedBlock(\n                    signedBlock,\n                    decodedBlock\n                );\n const done = this.processExecutionDecision(\n                signedBlock,\n                flag,\n                agreementFlag\n            );\n            await done;\n            return flag;\n        } finally {\n            this.mutex.unlock();\n        }"
   ]
  ],
  "props": [
   "T02"
  ]
 },
 {
  "id": "e5",
  "file": "src/stateManager/StateManager.ts",
  "edits": [
   [
    "            await this.processExecutionDecision(\n                signedBlock,\n                flag,\n                agreementFlag\n            );\n\n            return flag;\n        } finally {\n            this.mutex.unlock();\n        }",
    "            done = this.processExecutionDecision(\n                signedBlock,\n                flag,\n                agreementFlag\n            );\n result = flag;\n        } finally {\n            this.mutex.unlock();\n        }\n await done; return result;"
   ],
   [
    "        await this.mutex.lock();\n        try {\n            // If the validation throws, there",
    "        let done: Promise<void>, result: ExecutionFlags;\n        await this.mutex.lock();\n        try {\n            // If the validation throws, there"
   ]
  ],
  "props": [
   "T02"
  ]
 },
 {
  "id": "at",
  "file": "src/agreementManager/ForkService.ts",
  "edits": [
   [
    "? this.forks[forkCnt].agreements[txCnt]",
    "? this.forks[forkCnt].agreements.at(txCnt)"
   ]
  ],
  "props": [
   "T06"
  ]
 }
];
