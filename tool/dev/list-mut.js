// lists extended by a new list instead of a push, and other restructurings of disputes, offers, transports
module.exports=[{"id":"q1 both lower","file":"src/rpc/services/InitHandshakeService.ts","edits":[["p2pSigner.signerAddress <\n                signerAddress\n","p2pSigner.signerAddress.toString().toLowerCase() <\n                signerAddress.toLowerCase()\n"]],"quiet":true,"props":["T21","T31"]},
{"id":"q2 helper offers","file":"src/rpc/services/InitHandshakeService.ts","edits":[["        if (\n            (preferredTransport === TransportType.WEBRTC ||\n                this.mainRpcService.p2pManager.preferredTransport ===\n                    TransportType.WEBRTC) &&\n            senderTransport.transportType != TransportType.WEBRTC &&\n            this.mainRpcService.p2pManager.p2pSigner.signerAddress <\n                signerAddress\n        ) {\n            this.mainRpcService.webRTCSetunService.initiateWebRTC();\n        }","        const mine = this.mainRpcService.p2pManager;\n        const wanted = [preferredTransport, mine.preferredTransport].includes(TransportType.WEBRTC);\n        const already = senderTransport.transportType === TransportType.WEBRTC;\n        const first = signerAddress > mine.p2pSigner.signerAddress;\n        if (wanted && !already && first) this.mainRpcService.webRTCSetunService.initiateWebRTC();"]],"quiet":true,"props":["T21","T31"]},
{"id":"q3 webrtc decode helper","file":"src/transport/WebRTCTransport.ts","edits":[["        if (data instanceof Uint8Array) data = Buffer.from(data);\n        if (data instanceof Buffer) data = data.toString();\n        let serializedRPC = data;","        const serializedRPC = typeof data === \"string\" ? data : Buffer.from(data).toString();"]],"quiet":true,"props":["T22","T17"]},
{"id":"q4 mutex initialisers","file":"src/utils/Mutex.ts","edits":[["        this.isLocked = false;\n        this.queue = [];","        this.reset();"],["    constructor() {","    private reset(): void {\n        this.isLocked = false;\n        this.queue = [];\n    }\n    constructor() {"]],"quiet":true,"props":["T04","T23","T02"]},
{"id":"q5 closed in ctor","file":"src/transport/ATransport.ts","edits":[["isClosed: boolean = false","isClosed: boolean"]],"quiet":true,"props":["T22"]},
{"id":"q6 holepunch socket const","file":"src/transport/HolepunchTransport.ts","edits":[["        console.log(\"SENDING RPC\", serializedRPC);\n        this.holepunchSocket.write(serializedRPC);","        const socket = this.holepunchSocket;\n        console.log(\"SENDING RPC\", serializedRPC);\n        socket.write(serializedRPC);"]],"quiet":true,"props":["T22"]},
{"id":"q7 holepunch listener method","file":"src/transport/HolepunchTransport.ts","edits":[["        this.holepunchSocket.on(\"data\", async (data: any) => {\n            if (data instanceof Uint8Array) {\n                data = Buffer.from(data);\n            }\n            console.log(\"DATA RECEIVED\", data);\n            this.onMessage(data);\n        });","        this.holepunchSocket.on(\"data\", (data: any) => this.onData(data));"],["    send(serializedRPC: string): void {","    private onData(data: any): void {\n        this.onMessage(data instanceof Uint8Array ? Buffer.from(data) : data);\n    }\n    send(serializedRPC: string): void {"]],"quiet":true,"props":["T22","T24"]},
{"id":"q8 constants","file":"src/transport/HolepunchTransport.ts","edits":[["    holepunchSocket: any;","    private static readonly EVENTS = [\"data\", \"close\"];\n    private readonly label: string[] = [\"HOLEPUNCH\"];\n    holepunchSocket: any;"]],"quiet":true,"props":["T22"]},
{"id":"r-d1 common dispute helper","file":"src/DisputeHandler.ts","edits":[["        const proof = ProofManager.createFoldPriorBlockProof(transactionCnt);\n        return this.createDispute(\n            forkCnt,\n            NO_PARTICIPANT_TO_FOLD,\n            INITIAL_TRANSACTION_COUNT,\n            [proof]\n        );","        return this.disputeWith(\n            forkCnt,\n            ProofManager.createFoldPriorBlockProof(transactionCnt)\n        );"],["    public onDispute(","    private disputeWith(forkCnt: BigNumberish, ...proofs: ProofStruct[]): Promise<void> {\n        return this.createDispute(forkCnt, NO_PARTICIPANT_TO_FOLD, INITIAL_TRANSACTION_COUNT, proofs);\n    }\n    public onDispute("]],"quiet":true,"props":["T15","T16","T24"]},
{"id":"r-d2 for of proofs","file":"src/DisputeHandler.ts","edits":[["        proofs.forEach((proof) => this.addProof(forkCntNumber, proof));","        for (const proof of proofs) {\n            this.addProof(forkCntNumber, proof);\n        }"]],"quiet":true,"props":["T15","T16"]},
{"id":"r-d3 addProof get or create","file":"src/DisputeHandler.ts","edits":[["        const proofs = this.localProofs.get(forkCnt) || [];\n        proofs.push(proof);\n        this.localProofs.set(forkCnt, proofs);","        let proofs = this.localProofs.get(forkCnt);\n        if (!proofs) {\n            proofs = [];\n            this.localProofs.set(forkCnt, proofs);\n        }\n        proofs.push(proof);"]],"quiet":true,"props":["T15","T16"]},
{"id":"r-d4 spread append","file":"src/DisputeHandler.ts","edits":[["        const proofs = this.localProofs.get(forkCnt) || [];\n        proofs.push(proof);\n        this.localProofs.set(forkCnt, proofs);","        this.localProofs.set(forkCnt, [...(this.localProofs.get(forkCnt) ?? []), proof]);"]],"quiet":true,"props":["T15","T16"]},
{"id":"r-d5 inline shouldUpdate","file":"src/DisputeHandler.ts","edits":[["        if (this.shouldUpdateDispute(dispute)) {\n            const forkCnt = Number(dispute.forkCnt);\n            this.disputes.set(forkCnt, dispute);\n            return true;\n        }\n\n        return false;","        const isNewer = this.shouldUpdateDispute(dispute);\n        if (isNewer) this.disputes.set(Number(dispute.forkCnt), dispute);\n        return isNewer;"]],"quiet":true,"props":["T15","T16"]},
{"id":"r-d6 negated newer","file":"src/DisputeHandler.ts","edits":[["        return (\n            !existingDispute ||\n            dispute.challengeCnt > existingDispute.challengeCnt\n        );","        if (existingDispute === undefined) return true;\n        return !(dispute.challengeCnt <= existingDispute.challengeCnt);"]],"quiet":true,"props":["T15","T16"]},
{"id":"r-d7 has disputed","file":"src/DisputeHandler.ts","edits":[["        return this.disputedForks.get(forkCnt) ?? false;","        const disputed = this.disputedForks.get(forkCnt);\n        return disputed === undefined ? false : disputed;"]],"quiet":true,"props":["T15","T16","T02","T04"]},
{"id":"r-d8 votes var","file":"src/DisputeHandler.ts","edits":[["        const {\n            encodedLatestFinalizedState,\n            encodedLatestCorrectState,\n            virtualVotingBlocks\n        } = this.agreementManager.getFinalizedAndLatestWithVotes(\n            forkCnt,\n            this.signerAddress\n        );\n\n        this.p2pEventHooks.onInitiatingDispute?.();\n        await retry(\n            async () => {\n                const txResponse =\n                    await this.stateChannelManagerContract.createDispute(\n                        this.channelId,\n                        forkCnt,\n                        encodedLatestFinalizedState,\n                        encodedLatestCorrectState,\n                        virtualVotingBlocks,","        const votes = this.agreementManager.getFinalizedAndLatestWithVotes(\n            forkCnt,\n            this.signerAddress\n        );\n        const hooks = this.p2pEventHooks;\n        if (hooks.onInitiatingDispute) hooks.onInitiatingDispute();\n        await retry(\n            async () => {\n                const txResponse =\n                    await this.stateChannelManagerContract.createDispute(\n                        this.channelId,\n                        forkCnt,\n                        votes.encodedLatestFinalizedState,\n                        votes.encodedLatestCorrectState,\n                        votes.virtualVotingBlocks,"]],"quiet":true,"props":["T15","T16"]},
{"id":"r-d9 no dispute guard inverted","file":"src/DisputeHandler.ts","edits":[["        if (newDispute.channelId == ethers.ZeroHash) {\n            throw new Error(\n                \"DisputeHandler - createDispute - no dispute created\"\n            );\n        }\n        await this.rechallengeRecursive(newDispute);","        const created = newDispute.channelId != ethers.ZeroHash;\n        if (created) {\n            await this.rechallengeRecursive(newDispute);\n            return;\n        }\n        throw new Error(\"DisputeHandler - createDispute - no dispute created\");"]],"quiet":true,"props":["T15","T16"]},
{"id":"r-h1 shouldOffer helper","file":"src/rpc/services/InitHandshakeService.ts","edits":[["        if (\n            (preferredTransport === TransportType.WEBRTC ||\n                this.mainRpcService.p2pManager.preferredTransport ===\n                    TransportType.WEBRTC) &&\n            senderTransport.transportType != TransportType.WEBRTC &&\n            this.mainRpcService.p2pManager.p2pSigner.signerAddress <\n                signerAddress\n        ) {","        if (this.shouldOffer(preferredTransport, senderTransport, signerAddress)) {"],["    // The challenge is chosen by the peer","    private shouldOffer(theirs: TransportType, transport: ATransport, peer: string): boolean {\n        const { preferredTransport, p2pSigner } = this.mainRpcService.p2pManager;\n        if (transport.transportType === TransportType.WEBRTC) return false;\n        if (theirs !== TransportType.WEBRTC && preferredTransport !== TransportType.WEBRTC) return false;\n        return p2pSigner.signerAddress.toString() < peer;\n    }\n    // The challenge is chosen by the peer"]],"quiet":true,"props":["T21","T31"]},
{"id":"r-h2 window helper","file":"src/rpc/services/InitHandshakeService.ts","edits":[["        if (\n            rtt >\n            this.mainRpcService.p2pManager.stateManager.timeConfig.agreementTime\n        ) {\n            // TODO! Disconnect\n            this.mainRpcService.p2pManager.removeConnection(senderTransport);\n            return;\n        }\n        if (\n            Math.abs(responseTime - challenge.initTime) >\n            this.mainRpcService.p2pManager.stateManager.timeConfig.agreementTime\n        ) {","        const limit = this.mainRpcService.p2pManager.stateManager.timeConfig.agreementTime;\n        const inTime = rtt <= limit && Math.abs(challenge.initTime - responseTime) <= limit;\n        if (!inTime) {"]],"quiet":true,"props":["T21","T31"]},
{"id":"r-s1 scheduler await","file":"src/utils/scheduler.ts","edits":[["    setTimeout(async () => {\n        try {\n            const result = task();\n            if (result instanceof Promise) {\n                await result;\n            }\n        } catch (error) {","    const run = async (): Promise<void> => {\n        try {\n            await task();\n        } catch (error) {"],["    }, delayMs);","    };\n    setTimeout(run, delayMs);"]],"quiet":true,"props":["T24","T11","T04"]},
{"id":"r-e1 digest helper","file":"src/utils/EvmUtils.ts","edits":[["        let encodedBlock = EvmUtils.encodeBlock(block);\n        let encodedHash = ethers.keccak256(encodedBlock);\n        let econdedHashBytes = ethers.getBytes(encodedHash);\n        return ethers.verifyMessage(econdedHashBytes, signature);","        return ethers.verifyMessage(EvmUtils.digest(EvmUtils.encodeBlock(block)), signature);"],["    public static encodeBlock(","    private static digest(encoded: string): Uint8Array {\n        return ethers.getBytes(ethers.keccak256(encoded));\n    }\n    public static encodeBlock("]],"quiet":true,"props":["T27","T01","T07","T03"]},
{"id":"x1 spread proofs lost","file":"src/DisputeHandler.ts","edits":[["        const proofs = this.localProofs.get(forkCnt) || [];\n        proofs.push(proof);\n        this.localProofs.set(forkCnt, proofs);","        this.localProofs.set(forkCnt, [...(this.localProofs.get(forkCnt) ?? []).slice(-3), proof]);"]],"props":["T15"]},
{"id":"x2 spread proofs front","file":"src/DisputeHandler.ts","edits":[["        const proofs = this.localProofs.get(forkCnt) || [];\n        proofs.push(proof);\n        this.localProofs.set(forkCnt, proofs);","        this.localProofs.set(forkCnt, [...(this.localProofs.get(forkCnt + 1) ?? []), proof]);"]],"props":["T15"]},
{"id":"x3 overwrites","file":"src/DisputeHandler.ts","edits":[["        const proofs = this.localProofs.get(forkCnt) || [];\n        proofs.push(proof);\n        this.localProofs.set(forkCnt, proofs);","        this.localProofs.set(forkCnt, [proof]);"]],"props":["T15"]},
{"id":"y1 spread connections","file":"src/P2PManager.ts","edits":[["this.openConnections.push(transport);","this.openConnections = [...this.openConnections, transport];"]],"quiet":true,"props":["T22","T18","T24"]},
{"id":"y2 spread topics","file":"src/Holepunch.ts","edits":[["this.topics.push(topic);","this.topics = [...this.topics, topic];"]],"quiet":true,"props":["T30"]},
{"id":"y3 concat signatures","file":"src/agreementManager/AgreementManager.ts","edits":[["agreement.blockSignatures.push(confirmationSignature);","agreement.blockSignatures = [...agreement.blockSignatures, confirmationSignature];"]],"quiet":true,"props":["T06","T03","T08","T02"]},
{"id":"y4 drops first","file":"src/P2PManager.ts","edits":[["this.openConnections.push(transport);","this.openConnections = [transport, ...this.openConnections.slice(1)];"]],"props":["T22"]},
{"id":"y6 keeps last two","file":"src/agreementManager/AgreementManager.ts","edits":[["agreement.blockSignatures.push(confirmationSignature);","agreement.blockSignatures = [...agreement.blockSignatures.slice(-2), confirmationSignature];"]],"props":["T06"]},
{"id":"y7 concat method","file":"src/agreementManager/AgreementManager.ts","edits":[["agreement.blockSignatures.push(confirmationSignature);","agreement.blockSignatures = agreement.blockSignatures.concat(confirmationSignature);"]],"quiet":true,"props":["T06"]},
{"id":"y8 twice","file":"src/agreementManager/AgreementManager.ts","edits":[["agreement.blockSignatures.push(confirmationSignature);","agreement.blockSignatures = [...agreement.blockSignatures, confirmationSignature, confirmationSignature];"]],"props":["T06"]}];
