'use strict';
// behaviour-preserving edits of the message layer, local execution, encodings and utilities: no check may report anything
const ALL = (process.env.PROPS || 'T01 T02 T03 T04 T05 T06 T07 T08 T09 T10 T11 T13 T14 T15 T16 T17 T18 T19 T20 T21 T22 T23 T24 T25 T26 T27 T28 T29 T30 T31').split(' ');
const q = (id, file, ...edits) => ({ id: 'p-' + id, file, edits, props: ALL, quiet: true });
const P2 = 'src/P2PManager.ts', SG = 'src/evm/P2pSigner.ts', IH = 'src/rpc/services/InitHandshakeService.ts', JC = 'src/rpc/services/JoinChannelService.ts', ST = 'src/rpc/services/StateTransitionService.ts',
  RPC = 'src/rpc/Rpc.ts', RH = 'src/rpc/RpcHandler.ts', RP = 'src/rpc/RpcProxy.ts', MR = 'src/rpc/MainRpcService.ts', PR = 'src/ProfileManager.ts', AT = 'src/transport/ATransport.ts', HT = 'src/transport/HolepunchTransport.ts', WT = 'src/transport/WebRTCTransport.ts', LT = 'src/transport/LocalTransport.ts',
  HP = 'src/Holepunch.ts', SC = 'src/utils/SignatureCollectionMap.ts', EL = 'src/StateChannelEventListener.ts', SU = 'src/utils/set.ts', MU = 'src/utils/Mutex.ts', RT = 'src/utils/retry.ts', SD = 'src/utils/scheduler.ts', EU = 'src/utils/EvmUtils.ts', BU = 'src/utils/BlockUtils.ts',
  CK = 'src/Clock.ts', EV = 'src/evm/EvmStateMachine.ts', CE = 'src/evm/ContractExecuter.ts', PI = 'src/evm/P2pInstance.ts';
module.exports = [
  q('bcast-foreach', P2, ['        for (let transport of this.openConnections) {\n            transport.send(serializedRPC);\n        }', '        this.openConnections.forEach((transport) => transport.send(serializedRPC));']),
  q('bcast-idx', P2, ['        for (let transport of this.openConnections) {\n            transport.send(serializedRPC);\n        }', '        const open = this.openConnections;\n        for (let i = 0; i < open.length; i++) {\n            open[i].send(serializedRPC);\n        }']),
  q('onrpc-merge', P2, ['            if (!rpc) {\n                //TODO!Disconnect\n                return;\n            }\n            if (!hasMethod(this.localRpcService, rpc.method)) {\n                //TODO!Disconnect\n                return;\n            }', '            if (!rpc || !hasMethod(this.localRpcService, rpc.method)) return;']),
  q('onrpc-helper', P2, ['            Promise.resolve(\n                this.localRpcService[rpc.method](...rpc.params)\n            ).catch((e) => console.error(e));', '            this.dispatch(rpc.method, rpc.params);'],
    ['    public async tryOpenConnectionToChannel', '    private dispatch(method: string, params: any[]) {\n        const service = this.localRpcService as any;\n        Promise.resolve(service[method](...params)).catch((e) =>\n            console.error(e)\n        );\n    }\n    public async tryOpenConnectionToChannel']),
  q('onrpc-bg', P2, ['            Promise.resolve(\n                this.localRpcService[rpc.method](...rpc.params)\n            ).catch((e) => console.error(e));', '            const pending = this.localRpcService[rpc.method](...rpc.params);\n            Promise.resolve(pending).then(undefined, (e) => console.error(e));']),
  q('onrpc-fixed', P2, ['            let rpc = deserializeRpc(serializedRpc);\n            if (!rpc) {\n                //TODO!Disconnect\n                return;\n            }\n', '            const rpc = deserializeRpc(serializedRpc);\n            if (rpc === undefined) return;\n']),
  q('remove-locals', P2, ['        let profile = this.profileManager.getProfileByTransport(transport);\n        if (profile) this.profileManager.removeTransport(transport);\n        else transport.close();', '        if (this.profileManager.getProfileByTransport(transport) !== undefined) {\n            this.profileManager.removeTransport(transport);\n            return;\n        }\n        transport.close();']),
  q('remove-loop', P2, ['        this.openConnections = this.openConnections.filter(\n            (t) => t !== transport\n        );', '        const remaining: ATransport[] = [];\n        for (const t of this.openConnections) {\n            if (t !== transport) remaining.push(t);\n        }\n        this.openConnections = remaining;']),
  q('remove-not', P2, ['(t) => t !== transport', '(t) => {\n                return !(t === transport);\n            }']),
  q('discon-foreach', P2, ['        for (let transport of this.openConnections) {\n            this.removeConnection(transport);\n        }', '        this.openConnections.forEach((transport) => {\n            this.removeConnection(transport);\n        });']),
  q('discon-copy', P2, ['        for (let transport of this.openConnections) {\n            this.removeConnection(transport);\n        }', '        const all = [...this.openConnections];\n        for (const transport of all) {\n            this.removeConnection(transport);\n        }']),
  q('discon-while', P2, ['        for (let transport of this.openConnections) {\n            this.removeConnection(transport);\n        }', '        const all = this.openConnections.slice();\n        let i = 0;\n        while (i < all.length) {\n            this.removeConnection(all[i]);\n            i++;\n        }']),
  q('open-else', P2, ['            LocalDiscoveryServer.connectToPeers(this.self, channelId);\n            return;\n        }\n        const topic = Buffer.alloc(32).fill(channelId);\n        await this.holepunch.join(topic);', '            LocalDiscoveryServer.connectToPeers(this.self, channelId);\n        } else {\n            await this.holepunch.join(Buffer.alloc(32).fill(channelId));\n        }']),
  q('addconn', P2, ['        this.openConnections.push(transport);\n        this.localRpcService.initHandshakeService.initHandshake(transport);', '        const { initHandshakeService } = this.localRpcService;\n        this.openConnections.push(transport);\n        initHandshakeService.initHandshake(transport);']),
  q('dispose-locals', P2, ['        await this.holepunch.dispose();\n        this.disconnectAll();', '        const { holepunch } = this;\n        await holepunch.dispose();\n        this.disconnectAll();']),
  // signer
  q('send-locals', SG, ['                channelId: this.p2pManager.stateManager.getChannelId(),\n                participant: this.p2pManager.stateManager.getSignerAddress(),\n                forkCnt: this.p2pManager.stateManager.getForkCnt(),\n                transactionCnt:\n                    this.p2pManager.stateManager.getNextBlockHeight(),', '                channelId: sm.getChannelId(),\n                participant: sm.getSignerAddress(),\n                forkCnt: sm.getForkCnt(),\n                transactionCnt: sm.getNextBlockHeight(),'],
    ['        let _tx: TransactionStruct = {', '        const sm = this.p2pManager.stateManager;\n        let _tx: TransactionStruct = {']),
  q('send-build', SG, ['        let signedBlock =\n            await this.p2pManager.stateManager.playTransaction(_tx);\n        this.p2pManager.rpcProxy.onSignedBlock(signedBlock).broadcast();', '        const { stateManager, rpcProxy } = this.p2pManager;\n        const signedBlock = await stateManager.playTransaction(_tx);\n        const rpc = rpcProxy.onSignedBlock(signedBlock);\n        rpc.broadcast();']),
  q('send-helper', SG, ['        let _tx: TransactionStruct = {\n            header: {', '        const header = this.nextHeader();\n        let _tx: TransactionStruct = {\n            header, /*'], ['                timestamp: BigInt(Clock.getTimeInSeconds())\n            },', '*/'],
    ['    signMessage(message', '    private nextHeader() {\n        const stateManager = this.p2pManager.stateManager;\n        return {\n            channelId: stateManager.getChannelId(),\n            participant: stateManager.getSignerAddress(),\n            forkCnt: stateManager.getForkCnt(),\n            transactionCnt: stateManager.getNextBlockHeight(),\n            timestamp: BigInt(Clock.getTimeInSeconds())\n        };\n    }\n\n    signMessage(message']),
  q('confirm-locals', SG, ['        let confirmedBlock = await EvmUtils.signBlock(block, this.signer);\n        this.p2pManager.stateManager.agreementManager.confirmBlock(\n            block,\n            confirmedBlock.signature as SignatureLike\n        );\n        this.p2pManager.rpcProxy\n            .onBlockConfirmation(signedBlock, confirmedBlock.signature)\n            .broadcast();', '        const { signature } = await EvmUtils.signBlock(block, this.signer);\n        const { stateManager, rpcProxy } = this.p2pManager;\n        stateManager.agreementManager.confirmBlock(\n            block,\n            signature as SignatureLike\n        );\n        rpcProxy.onBlockConfirmation(signedBlock, signature).broadcast();']),
  q('call-noawait', SG, ['        return await this.p2pManager.stateManager.stateMachine.runView(tx);', '        const machine = this.p2pManager.stateManager.stateMachine;\n        return machine.runView(tx);']),
  q('connect-locals', SG, ['        this.setChannelId(channelId);\n        await this.p2pManager.tryOpenConnectionToChannel(channelId.toString());', '        const id = channelId.toString();\n        this.setChannelId(channelId);\n        await this.p2pManager.tryOpenConnectionToChannel(id);']),
  // handshake
  q('hs-withinhelper', IH, ['        if (\n            Math.abs(time - localTime) >\n            this.mainRpcService.p2pManager.stateManager.timeConfig.agreementTime\n        ) {', '        if (this.isTooFar(time, localTime)) {'], ['        if (\n            Math.abs(responseTime - challenge.initTime) >\n            this.mainRpcService.p2pManager.stateManager.timeConfig.agreementTime\n        ) {', '        if (this.isTooFar(challenge.initTime, responseTime)) {'],
    ['    private setChallenge(', '    private isTooFar(a: number, b: number): boolean {\n        const { agreementTime } =\n            this.mainRpcService.p2pManager.stateManager.timeConfig;\n        return Math.abs(a - b) > agreementTime;\n    }\n    private setChallenge(']),
  q('hs-merge-remove', IH, ['        if (!challenge) {\n            // TODO! Disconnect\n            this.mainRpcService.p2pManager.removeConnection(senderTransport);\n            return;\n        }', '        if (challenge === undefined) {\n            this.reject(senderTransport);\n            return;\n        }'],
    ['            // TODO! Disconnect\n            this.mainRpcService.p2pManager.removeConnection(senderTransport);\n            return;', '            return this.reject(senderTransport);'], ['    private setChallenge(', '    private reject(transport: ATransport): void {\n        this.mainRpcService.p2pManager.removeConnection(transport);\n    }\n    private setChallenge(']),
  q('hs-or', IH, ['        if (\n            rtt >\n            this.mainRpcService.p2pManager.stateManager.timeConfig.agreementTime\n        ) {\n            // TODO! Disconnect\n            this.mainRpcService.p2pManager.removeConnection(senderTransport);\n            return;\n        }\n        if (\n            Math.abs(responseTime - challenge.initTime) >\n            this.mainRpcService.p2pManager.stateManager.timeConfig.agreementTime\n        ) {', '        const limit =\n            this.mainRpcService.p2pManager.stateManager.timeConfig\n                .agreementTime;\n        const skew = Math.abs(responseTime - challenge.initTime);\n        if (rtt > limit || skew > limit) {']),
  q('hs-max', IH, ['        if (\n            rtt >\n            this.mainRpcService.p2pManager.stateManager.timeConfig.agreementTime\n        ) {\n            // TODO! Disconnect\n            this.mainRpcService.p2pManager.removeConnection(senderTransport);\n            return;\n        }\n        if (\n            Math.abs(responseTime - challenge.initTime) >', '        const drift = Math.abs(responseTime - challenge.initTime);\n        if (\n            Math.max(rtt, drift) >']),
  q('hs-profile', IH, ['        if (!profile) {\n            profile = new PeerProfile(senderTransport, signerAddress);\n            this.mainRpcService.p2pManager.profileManager.registerProfile(\n                profile\n            );\n        } else {\n            this.mainRpcService.p2pManager.profileManager.updateTransport(\n                profile.getEvmAddress().toString(),\n                senderTransport\n            );\n        }', '        if (profile) {\n            this.mainRpcService.p2pManager.profileManager.updateTransport(\n                signerAddress,\n                senderTransport\n            );\n        } else {\n            profile = new PeerProfile(senderTransport, signerAddress);\n            this.mainRpcService.p2pManager.profileManager.registerProfile(\n                profile\n            );\n        }']),
  q('hs-profile-helper', IH, ['        let profile =\n            this.mainRpcService.p2pManager.profileManager.getProfileByEvmAddress(\n                signerAddress\n            );\n        if (!profile) {\n            profile = new PeerProfile(senderTransport, signerAddress);\n            this.mainRpcService.p2pManager.profileManager.registerProfile(\n                profile\n            );\n        } else {\n            this.mainRpcService.p2pManager.profileManager.updateTransport(\n                profile.getEvmAddress().toString(),\n                senderTransport\n            );\n        }\n', '        const profile = this.bindProfile(senderTransport, signerAddress);\n'],
    ['    private setChallenge(', '    private bindProfile(transport: ATransport, address: string): PeerProfile {\n        const { profileManager } = this.mainRpcService.p2pManager;\n        const known = profileManager.getProfileByEvmAddress(address);\n        if (known) {\n            profileManager.updateTransport(address, transport);\n            return known;\n        }\n        const created = new PeerProfile(transport, address);\n        profileManager.registerProfile(created);\n        return created;\n    }\n    private setChallenge(']),
  q('hs-webrtc', IH, ['        if (\n            (preferredTransport === TransportType.WEBRTC ||\n                this.mainRpcService.p2pManager.preferredTransport ===\n                    TransportType.WEBRTC) &&\n            senderTransport.transportType != TransportType.WEBRTC &&', '        const wantsWebRTC = [\n            preferredTransport,\n            this.mainRpcService.p2pManager.preferredTransport\n        ].includes(TransportType.WEBRTC);\n        if (\n            wantsWebRTC &&\n            senderTransport.transportType !== TransportType.WEBRTC &&']),
  q('hs-msg', IH, ['        return `state-channels-plus handshake ${challengeHash}`;', '        return "state-channels-plus handshake " + challengeHash;']),
  q('hs-msgconst', IH, ['        return `state-channels-plus handshake ${challengeHash}`;', '        const prefix = "state-channels-plus handshake";\n        return [prefix, challengeHash].join(" ");']),
  q('hs-init', IH, ['        let time = Clock.getTimeInSeconds();\n        this.setChallenge(transport, { randomChallengeHash, initTime: time });\n        this.mainRpcService.rpcProxy\n            .onInitHandshakeRequest(randomChallengeHash, time)\n            .sendOne(transport);', '        const challenge = {\n            randomChallengeHash,\n            initTime: Clock.getTimeInSeconds()\n        };\n        this.setChallenge(transport, challenge);\n        this.mainRpcService.rpcProxy\n            .onInitHandshakeRequest(\n                challenge.randomChallengeHash,\n                challenge.initTime\n            )\n            .sendOne(transport);']),
  q('hs-inline', IH, ['        this.setChallenge(transport, { randomChallengeHash, initTime: time });', '        this.mapTransportToChallenge.set(transport, {\n            randomChallengeHash,\n            initTime: time\n        });']),
  q('hs-verify-first', IH, ['        let localTime = Clock.getTimeInSeconds();\n        let rtt = localTime - challenge.initTime;', '        const { randomChallengeHash, initTime } = challenge;\n        let rtt = Clock.getTimeInSeconds() - initTime;'], ['challenge.randomChallengeHash', 'randomChallengeHash']),
  // join channel
  q('jc-split', JC, ['            //confirmation logic\n            if (!confirmationSignature) return;\n            let retrivedAddress', '            if (!confirmationSignature) return;\n            await this.collect(jc, key, signedJoinChannel, confirmationSignature);\n        } catch (e) {\n            console.log(e);\n            return;\n        }\n    }\n    private async collect(\n        jc: any,\n        key: string,\n        signedJoinChannel: SignedJoinChannelStruct,\n        confirmationSignature: SignatureLike\n    ) {\n            let retrivedAddress'],
    ['            }); //TODO! only pick signatures of current participants\n        } catch (e) {\n            console.log(e);\n            return;\n        }\n', '            }); //TODO! only pick signatures of current participants\n']),
  q('jc-everyone', JC, ['            if (!this.joinChannelMap.didEveryoneSign(key, currentParticipants))\n                return;\n            this.joinChannelQueue.push({\n                signedJoinChannel,\n                confirmationSignatures: this.joinChannelMap\n                    .get(key)\n                    .map((x) => x.signature)\n            });', '            if (this.joinChannelMap.didEveryoneSign(key, currentParticipants)) {\n                const confirmationSignatures = this.joinChannelMap\n                    .get(key)\n                    .map(({ signature }) => signature);\n                this.joinChannelQueue.push({\n                    signedJoinChannel,\n                    confirmationSignatures\n                });\n            }']),
  q('jc-deadline', JC, ['                let timeRemaining =\n                    Number(jc.deadlineTimestamp) - Clock.getTimeInSeconds();\n                if (timeRemaining <= 0) return;', '                const now = Clock.getTimeInSeconds();\n                const deadline = Number(jc.deadlineTimestamp);\n                if (now >= deadline) return;\n                const timeRemaining = deadline - now;']),
  q('jc-some', JC, ['!currentParticipants.includes(retrivedAddress)', '!currentParticipants.some((p) => p === retrivedAddress)']),
  q('jc-addr', JC, ['                let mySignedJC = await EvmUtils.signJoinChannel(\n                    jc,\n                    this.mainRpcService.p2pManager.p2pSigner\n                );', '                const { p2pSigner } = this.mainRpcService.p2pManager;\n                const mySignedJC = await EvmUtils.signJoinChannel(jc, p2pSigner);'], ['                        this.mainRpcService.p2pManager.p2pSigner.signerAddress.toString(),', '                        p2pSigner.signerAddress.toString(),']),
  // transitions
  q('st-switch', ST, ['        if (\n            flag == ExecutionFlags.DISCONNECT ||\n            flag == ExecutionFlags.DISPUTE\n        ) {\n            //TODO - disconnect from peer\n            return;\n        }\n        if (flag == ExecutionFlags.SUCCESS)\n            this.mainRpcService.rpcProxy.onSignedBlock(signedBlock).broadcast();', '        if (flag !== ExecutionFlags.SUCCESS) return;\n        this.mainRpcService.rpcProxy.onSignedBlock(signedBlock).broadcast();']),
  q('st-conf', ST, ['        let flag =\n            await this.mainRpcService.p2pManager.stateManager.onBlockConfirmation(\n                originalSignedBlock,\n                confirmationSignature\n            );', '        const { stateManager } = this.mainRpcService.p2pManager;\n        const flag = await stateManager.onBlockConfirmation(\n            originalSignedBlock,\n            confirmationSignature\n        );']),
  q('st-gossip', ST, ['            this.mainRpcService.rpcProxy.onSignedBlock(signedBlock).broadcast();', '            this.gossip(signedBlock);'], ['    public async onBlockConfirmation', '    private gossip(signedBlock: SignedBlockStruct) {\n        const { rpcProxy } = this.mainRpcService;\n        rpcProxy.onSignedBlock(signedBlock).broadcast();\n    }\n\n    public async onBlockConfirmation']),
  // rpc
  q('rpc-deser', RPC, ['        if (!rpc || typeof rpc.method !== "string" || !rpc.params) {\n            return undefined;\n        }\n        return rpc as Rpc;', '        const valid = rpc && typeof rpc.method === "string" && rpc.params;\n        return valid ? (rpc as Rpc) : undefined;']),
  q('rpc-multi', RH, ['        transports.forEach((transport) => {\n            transport.send(serializeRpc(this.rpc));\n        });', '        const message = serializeRpc(this.rpc);\n        for (const transport of transports) transport.send(message);']),
  q('rpc-broadcast', RH, ['        this.p2pManager.broadcastRpc(serializeRpc(this.rpc));', '        const { p2pManager, rpc } = this;\n        p2pManager.broadcastRpc(serializeRpc(rpc));']),
  q('rpc-proxy', RP, ['                        let rpc: Rpc = {\n                            method: prop.toString(),\n                            params: args\n                        };\n                        return new RpcHandler(rpc, service.p2pManager);', '                        const method = String(prop);\n                        return new RpcHandler(\n                            { method, params: args },\n                            service.p2pManager\n                        );']),
  q('mr-return', MR, ['        await this.stateTransitionService.onSignedBlock(signedBlock);', '        return this.stateTransitionService.onSignedBlock(signedBlock);']),
  q('mr-destr', MR, ['        await this.joinChannelService.onJoinChannelRequest(\n            signedJoinChannel,\n            confirmationSignature\n        );', '        const { joinChannelService } = this;\n        await joinChannelService.onJoinChannelRequest(\n            signedJoinChannel,\n            confirmationSignature\n        );']),
  // profiles, transports
  q('pm-register', PR, ['        let transport = profile.getTransport();\n        if (transport) this.mapTransportToProfile.set(transport, profile);\n        let evmAddress = profile.getEvmAddress();\n        if (evmAddress)\n            this.mapEvmAddressToProfile.set(evmAddress.toString(), profile);\n        let hpAddress = profile.getHpAddress();\n        if (hpAddress) {\n            this.mapHpAddressToProfile.set(hpAddress, profile);\n        }', '        const hpAddress = profile.getHpAddress();\n        if (hpAddress) this.mapHpAddressToProfile.set(hpAddress, profile);\n        const evmAddress = profile.getEvmAddress();\n        if (evmAddress) {\n            this.mapEvmAddressToProfile.set(evmAddress.toString(), profile);\n        }\n        const transport = profile.getTransport();\n        if (transport) {\n            this.mapTransportToProfile.set(transport, profile);\n        }']),
  q('pm-update', PR, ['        let profile = this.mapEvmAddressToProfile.get(profileAddress);\n        if (!profile) return;\n        let oldTransport = profile.getTransport();\n        if (oldTransport) this.removeTransport(oldTransport);\n        profile.setTransport(newTransport);\n        this.mapTransportToProfile.set(newTransport, profile);', '        const profile = this.getProfileByEvmAddress(profileAddress);\n        if (profile) {\n            const old = profile.getTransport();\n            if (old !== undefined) {\n                this.removeTransport(old);\n            }\n            this.mapTransportToProfile.set(newTransport, profile);\n            profile.setTransport(newTransport);\n        }']),
  q('pm-remove', PR, ['        let profile = this.mapTransportToProfile.get(transport);\n        if (!profile) return;\n        this.mapTransportToProfile.delete(transport);\n        transport.close();', '        if (!this.mapTransportToProfile.has(transport)) return;\n        this.mapTransportToProfile.delete(transport);\n        transport.close();']),
  q('pm-remove2', PR, ['        let profile = this.mapTransportToProfile.get(transport);\n        if (!profile) return;\n        this.mapTransportToProfile.delete(transport);\n        transport.close();', '        if (this.mapTransportToProfile.delete(transport)) transport.close();']),
  q('at-early', AT, ['        if (!this.isClosed) {\n            this.isClosed = true;\n            this._close();\n        }', '        if (this.isClosed) return;\n        this.isClosed = true;\n        this._close();']),
  q('ht-msg', HT, ['        let serializedRPC = data.toString();\n        console.log("RECEIVED RPC", serializedRPC);\n        this.p2pManager.onRpc(serializedRPC);', '        this.p2pManager.onRpc(data.toString());'], ['        this.p2pManager.localRpcService.senderTransport = this;', '        const { localRpcService } = this.p2pManager;\n        localRpcService.senderTransport = this;']),
  q('ht-listen', HT, ['            if (data instanceof Uint8Array) {\n                data = Buffer.from(data);\n            }\n            console.log("DATA RECEIVED", data);\n            this.onMessage(data);', '            const message = data instanceof Uint8Array ? Buffer.from(data) : data;\n            this.onMessage(message);']),
  q('ht-close', HT, ['        this.holepunchPeerInfo.ban(true);\n        this.holepunchSocket.end();\n        this.p2pManager.removeConnection(this);', '        const { holepunchPeerInfo, holepunchSocket, p2pManager } = this;\n        holepunchPeerInfo.ban(true);\n        holepunchSocket.end();\n        p2pManager.removeConnection(this);']),
  q('wt-msg', WT, ['        if (data instanceof Uint8Array) data = Buffer.from(data);\n        if (data instanceof Buffer) data = data.toString();\n        let serializedRPC = data;', '        let serializedRPC = data;\n        if (data instanceof Uint8Array) {\n            serializedRPC = Buffer.from(data).toString();\n        }']),
  q('lt-msg', LT, ['        let serializedRPC = data.toString();\n        this.p2pManager.onRpc(serializedRPC);', '        this.p2pManager.onRpc(data.toString());']),
  q('hp-topics', HP, ['            let discovery = this.swarm.join(topic, {\n                server: true,\n                client: true\n            });\n            console.log("joined topic", topic);', '            this.joinTopic(topic);'], ['    private leaveTopics', '    private joinTopic(topic: Buffer) {\n        return this.swarm.join(topic, { server: true, client: true });\n    }\n\n    private leaveTopics']),
  q('hp-leave', HP, ['        for (let topic of this.topics) {\n            this.swarm.leave(topic);\n            console.log("LEFT TOPIC", topic);\n        }', '        this.topics.forEach((topic) => this.swarm.leave(topic));']),
  // signature collection
  q('sc-insert', SC, ['        if (!this.map.has(key)) {\n            this.map.set(key, [value]);\n        }\n        let array = this.get(key);\n        for (let i = 0; i < array.length; i++) {\n            if (array[i].signerAddress === value.signerAddress) {\n                return;\n            }\n        }\n        array.push(value);', '        const collected = this.map.get(key);\n        if (!collected) {\n            this.map.set(key, [value]);\n            return;\n        }\n        if (collected.some((x) => x.signerAddress === value.signerAddress)) return;\n        collected.push(value);']),
  q('sc-find', SC, ['        for (let i = 0; i < array.length; i++) {\n            if (array[i].signerAddress === value.signerAddress) {\n                return;\n            }\n        }\n        array.push(value);', '        const known = array.find((x) => x.signerAddress === value.signerAddress);\n        if (known === undefined) array.push(value);']),
  q('sc-every', SC, ['        for (let i = 0; i < participants.length; i++) {\n            let found = false;\n            for (let j = 0; j < array.length; j++) {\n                if (array[j].signerAddress === participants[i].toString()) {\n                    found = true;\n                    break;\n                }\n            }\n            if (!found) {\n                return false;\n            }\n        }\n        return true;', '        return participants.every((p) =>\n            array.some((x) => x.signerAddress === p.toString())\n        );']),
  q('sc-of', SC, ['        for (let i = 0; i < participants.length; i++) {\n            let found = false;\n            for (let j = 0; j < array.length; j++) {\n                if (array[j].signerAddress === participants[i].toString()) {\n                    found = true;\n                    break;\n                }\n            }\n            if (!found) {\n                return false;\n            }\n        }\n        return true;', '        for (const participant of participants) {\n            const signed = array.some(\n                (entry) => entry.signerAddress === participant.toString()\n            );\n            if (!signed) return false;\n        }\n        return true;']),
  q('sc-set', SC, ['        for (let i = 0; i < participants.length; i++) {\n            let found = false;\n            for (let j = 0; j < array.length; j++) {\n                if (array[j].signerAddress === participants[i].toString()) {\n                    found = true;\n                    break;\n                }\n            }\n            if (!found) {\n                return false;\n            }\n        }\n        return true;', '        const signers = new Set(array.map((x) => x.signerAddress));\n        return participants.every((p) => signers.has(p.toString()));']),
  q('sc-get', SC, ['        return this.map.get(key) || [];', '        return this.map.get(key) ?? [];']),
  // events
  q('el-destr', EL, ['                let encodedState = logObj.args.encodedState;\n                let forkCnt = logObj.args.forkCnt;\n                let timestamp = logObj.args.timestamp; //TODO? - potentially sync clock to this too', '                const { encodedState, forkCnt, timestamp } = logObj.args;']),
  q('el-helper', EL, ['            async (logObj: any) => {\n                let encodedState = logObj.args.encodedState;\n                let forkCnt = logObj.args.forkCnt;\n                let timestamp = logObj.args.timestamp; //TODO? - potentially sync clock to this too\n                // console.log("Game created event");\n                runInBackground(\n                    this.stateManager.setState(\n                        encodedState,\n                        forkCnt,\n                        timestamp\n                    ),\n                    "setState"\n                );\n            }', '            (logObj: any) => this.onSetState(logObj.args)'],
    ['    public async setChannelId', '    private onSetState(args: any) {\n        runInBackground(\n            this.stateManager.setState(\n                args.encodedState,\n                args.forkCnt,\n                args.timestamp\n            ),\n            "setState"\n        );\n    }\n    public async setChannelId']),
  q('el-catch', EL, ['                runInBackground(\n                    this.stateManager.collectOnChainBlock(\n                        signedBlock,\n                        timestamp\n                    ),\n                    "collectOnChainBlock"\n                );', '                this.stateManager\n                    .collectOnChainBlock(signedBlock, timestamp)\n                    .catch((error) => console.error(error));']),
  q('el-try', EL, ['                runInBackground(\n                    this.stateManager.collectOnChainBlock(\n                        signedBlock,\n                        timestamp\n                    ),\n                    "collectOnChainBlock"\n                );', '                try {\n                    await this.stateManager.collectOnChainBlock(\n                        signedBlock,\n                        timestamp\n                    );\n                } catch (error) {\n                    console.error(error);\n                }']),
  q('el-dispose', EL, ['        if (this.setStateFilter)\n            this.stateChannelManagerContract.off(this.setStateFilter);\n        if (this.postedBlockCallDataFilter)\n            this.stateChannelManagerContract.off(\n                this.postedBlockCallDataFilter\n            );\n        if (this.disputeUpdateFilter)\n            this.stateChannelManagerContract.off(this.disputeUpdateFilter);', '        const filters = [\n            this.setStateFilter,\n            this.postedBlockCallDataFilter,\n            this.disputeUpdateFilter\n        ];\n        for (const filter of filters) {\n            if (filter) this.stateChannelManagerContract.off(filter);\n        }']),
  q('el-offhelper', EL, ['        if (this.setStateFilter)\n            await this.stateChannelManagerContract.off(this.setStateFilter);\n        this.setStateFilter =', '        await this.unsubscribe(this.setStateFilter);\n        this.setStateFilter ='], ['        if (this.disputeUpdateFilter)\n            await this.stateChannelManagerContract.off(\n                this.disputeUpdateFilter\n            );', '        await this.unsubscribe(this.disputeUpdateFilter);'],
    ['    public async setChannelId', '    private async unsubscribe(filter: any) {\n        if (!filter) return;\n        await this.stateChannelManagerContract.off(filter);\n    }\n    public async setChannelId']),
  q('el-order', EL, ['        this.setStateFilter =\n            this.stateChannelManagerContract.filters.SetState(channelId);\n        //TODO - this will change if ethers.js accepts my PR\n        await this.stateChannelManagerContract.on(\n            this.setStateFilter,', '        const contract = this.stateChannelManagerContract;\n        const filter = contract.filters.SetState(channelId);\n        this.setStateFilter = filter;\n        await contract.on(\n            filter,']),
  // sets
  q('set-union', SU, ['    const result = new Set<T>([...setA]);\n    for (const elem of setB) {\n        result.add(elem);\n    }\n    return result;', '    return new Set<T>([...setA, ...setB]);']),
  q('set-inter', SU, ['    const result = new Set<T>();\n    for (const elem of setA) {\n        if (setB.has(elem)) {\n            result.add(elem);\n        }\n    }\n    return result;', '    return new Set<T>([...setA].filter((elem) => setB.has(elem)));']),
  q('set-diff', SU, ['    const result = new Set<T>([...setA]);\n    for (const elem of setB) {\n        result.delete(elem);\n        if (result.size === 0) return result;\n    }\n    return result;', '    const result = new Set<T>();\n    for (const elem of setA) {\n        if (!setB.has(elem)) result.add(elem);\n    }\n    return result;']),
  q('set-diff2', SU, ['        result.delete(elem);\n        if (result.size === 0) return result;', '        result.delete(elem);']),
  q('set-diff3', SU, ['    const result = new Set<T>([...setA]);\n    for (const elem of setB) {\n        result.delete(elem);\n        if (result.size === 0) return result;\n    }\n    return result;', '    return new Set<T>([...setA].filter((elem) => !setB.has(elem)));']),
  q('set-subset', SU, ['    for (const elem of setA) {\n        if (!setB.has(elem)) {\n            return false;\n        }\n    }\n    return true;', '    return [...setA].every((elem) => setB.has(elem));']),
  q('set-subset2', SU, ['    for (const elem of setA) {\n        if (!setB.has(elem)) {\n            return false;\n        }\n    }\n    return true;', '    return ![...setA].some((elem) => !setB.has(elem));']),
  q('set-subset3', SU, ['    for (const elem of setA) {\n        if (!setB.has(elem)) {\n            return false;\n        }\n    }\n    return true;', '    return difference(setA, setB).size === 0;']),
  q('set-strings', SU, ['    return new Set(array.map(String));', '    const result = new Set<string>();\n    for (const item of array) result.add(String(item));\n    return result;']),
  q('set-strings2', SU, ['    return new Set(array.map(String));', '    return new Set(array.map((item) => String(item)));']),
  q('set-excl', SU, ['    return source.filter((item) => !excluded.has(String(item)));', '    const kept: T[] = [];\n    for (const item of source) {\n        if (!excluded.has(String(item))) kept.push(item);\n    }\n    return kept;']),
  // mutex, retry, scheduler
  q('mu-lock', MU, ['            if (this.isLocked) {\n                this.queue.push(resolve);\n            } else {\n                this.isLocked = true;\n                resolve();\n            }', '            if (!this.isLocked) {\n                this.isLocked = true;\n                resolve();\n                return;\n            }\n            this.queue.push(resolve);']),
  q('mu-lock2', MU, ['        return new Promise((resolve) => {\n            if (this.isLocked) {\n                this.queue.push(resolve);\n            } else {\n                this.isLocked = true;\n                resolve();\n            }\n        });', '        if (!this.isLocked) {\n            this.isLocked = true;\n            return Promise.resolve();\n        }\n        return new Promise((resolve) => {\n            this.queue.push(resolve);\n        });']),
  q('mu-unlock', MU, ['        if (this.queue.length > 0) {\n            const next = this.queue.shift();\n            if (next) {\n                next();\n            }\n        } else {\n            this.isLocked = false;\n        }', '        const next = this.queue.shift();\n        if (next === undefined) {\n            this.isLocked = false;\n            return;\n        }\n        next();']),
  q('mu-unlock2', MU, ['        if (this.queue.length > 0) {\n            const next = this.queue.shift();\n            if (next) {\n                next();\n            }\n        } else {\n            this.isLocked = false;\n        }', '        if (this.queue.length === 0) {\n            this.isLocked = false;\n        } else {\n            this.queue.shift()!();\n        }']),
  q('rt-while', RT, ['    for (let attempt = 0; attempt <= maxRetries; attempt++) {', '    let attempt = -1;\n    while (attempt < maxRetries) {\n        attempt++;']),
  q('rt-sleep', RT, ['                await new Promise((resolve) => setTimeout(resolve, delay));', '                await sleep(delay);'], ['export async function retry', 'function sleep(ms: number): Promise<void> {\n    return new Promise((resolve) => setTimeout(resolve, ms));\n}\nexport async function retry']),
  q('rt-throw', RT, ['            if (attempt === maxRetries) {\n                break;\n            }', '            if (attempt === maxRetries) {\n                throw error;\n            }']),
  q('rt-pow', RT, ['delayMs * Math.pow(backoffFactor, attempt)', 'delayMs * backoffFactor ** attempt']),
  q('rt-opt', RT, ['            if (onRetry) {\n                onRetry(attempt + 1, error);\n            }', '            onRetry?.(attempt + 1, error);']),
  q('sd-await', SD, ['            const result = task();\n            if (result instanceof Promise) {\n                await result;\n            }', '            await task();']),
  q('sd-run', SD, ['    setTimeout(async () => {\n        try {\n            const result = task();\n            if (result instanceof Promise) {\n                await result;\n            }\n        } catch (error) {\n            console.error(\n                `Error executing scheduled task \'${taskName}\':`,\n                error\n            );\n        }\n    }, delayMs);', '    const run = async () => {\n        try {\n            await task();\n        } catch (error) {\n            console.error(`Task \'${taskName}\' failed:`, error);\n        }\n    };\n    setTimeout(run, delayMs);']),
  q('sd-bg', SD, ['    task.catch((error) =>\n        console.error(`Error executing background task \'${taskName}\':`, error)\n    );', '    task.catch((error) => {\n        console.error("Background task failed", taskName, error);\n    });']),
  q('sd-bg2', SD, ['    task.catch((error) =>\n        console.error(`Error executing background task \'${taskName}\':`, error)\n    );', '    (async () => {\n        try {\n            await task;\n        } catch (error) {\n            console.error(taskName, error);\n        }\n    })();']),
  // encodings
  q('eu-hash', EU, ['        let encodedHash = ethers.keccak256(encodedBlock);\n        let econdedHashBytes = ethers.getBytes(encodedHash);\n        let signature = await signer.signMessage(econdedHashBytes);\n        return { encodedBlock: encodedBlock, signature };', '        const digest = EvmUtils.digest(encodedBlock);\n        return { encodedBlock, signature: await signer.signMessage(digest) };'],
    ['        let encodedHash = ethers.keccak256(encodedBlock);\n        let econdedHashBytes = ethers.getBytes(encodedHash);\n        return ethers.verifyMessage(econdedHashBytes, signature);', '        return ethers.verifyMessage(EvmUtils.digest(encodedBlock), signature);'], ['    public static encodeBlock(', '    private static digest(encoded: BytesLike): Uint8Array {\n        return ethers.getBytes(ethers.keccak256(encoded));\n    }\n\n    public static encodeBlock(']),
  q('eu-coder', EU, ['        let blockEncoded = ethers.AbiCoder.defaultAbiCoder().encode(\n            [BlockEthersType],\n            [block]\n        );\n        return blockEncoded;', '        const coder = ethers.AbiCoder.defaultAbiCoder();\n        return coder.encode([BlockEthersType], [block]);']),
  q('eu-decode', EU, ['        let blockDecoded = ethers.AbiCoder.defaultAbiCoder().decode(\n            [BlockEthersType],\n            blockEncoded\n        );\n        return EvmUtils.ethersResultToObjectRecursive(\n            blockDecoded[0]\n        ) as BlockStruct;', '        const [decoded] = ethers.AbiCoder.defaultAbiCoder().decode(\n            [BlockEthersType],\n            blockEncoded\n        );\n        return EvmUtils.ethersResultToObjectRecursive(decoded) as BlockStruct;']),
  q('bu-coords', BU, ['        return {\n            forkCnt: Number(block.transaction.header.forkCnt),\n            height: Number(block.transaction.header.transactionCnt)\n        };', '        return {\n            forkCnt: BlockUtils.getFork(block),\n            height: BlockUtils.getHeight(block)\n        };']),
  q('bu-destr', BU, ['        return Number(block.transaction.header.timestamp);', '        const { timestamp } = block.transaction.header;\n        return Number(timestamp);']),
  q('bu-signers', BU, ['        return new Set(\n            signatures.map((sig) =>\n                EvmUtils.retrieveSignerAddressBlock(block, sig)\n            )\n        );', '        const signers = new Set<string>();\n        for (const sig of signatures) {\n            signers.add(EvmUtils.retrieveSignerAddressBlock(block, sig));\n        }\n        return signers;']),
  q('bu-part', BU, ['        for (const sig of signatures) {\n            if (\n                EvmUtils.retrieveSignerAddressBlock(block, sig) === participant\n            ) {\n                return { didSign: true, signature: sig };\n            }\n        }\n        return { didSign: false, signature: undefined };', '        const signature = signatures.find(\n            (sig) =>\n                EvmUtils.retrieveSignerAddressBlock(block, sig) === participant\n        );\n        return { didSign: signature !== undefined, signature };']),
  // clock
  q('ck-time', CK, ['        return (\n            Math.floor(new Date().getTime() / 1000) +\n            Clock.getInstance().clockAjustmentSeconds\n        );', '        const local = Math.floor(Date.now() / 1000);\n        return local + Clock.getInstance().clockAjustmentSeconds;']),
  q('ck-nest', CK, ['        if (!averageBlockTime) {\n            this.clockAjustmentSeconds += difference;\n            return;\n        }\n        //TODO - think - shouit it be 2* or 1* or something else?\n        if (difference > 2 * averageBlockTime) {\n            this.clockAjustmentSeconds += difference;\n            await this.syncClock(); // Recursively call syncClock until condition is satisfied\n        }', '        if (averageBlockTime && difference <= 2 * averageBlockTime) return;\n        this.clockAjustmentSeconds += difference;\n        if (averageBlockTime) await this.syncClock();']),
  q('ck-init', CK, ['        Clock.instance = new Clock(provider);\n        await Clock.instance.syncClock();', '        const clock = new Clock(provider);\n        Clock.instance = clock;\n        await clock.syncClock();']),
  // local execution
  q('ev-decode', EV, ['        let result = await this.contractExecuter.simulateCall(callData);\n        const hexResult = ethers.hexlify(result.returnValue);\n        const [addresses] = ethers.AbiCoder.defaultAbiCoder().decode(\n            ["address[]"],\n            hexResult\n        );\n        return addresses.toArray();', '        const { returnValue } =\n            await this.contractExecuter.simulateCall(callData);\n        const decoded = ethers.AbiCoder.defaultAbiCoder().decode(\n            ["address[]"],\n            ethers.hexlify(returnValue)\n        );\n        return decoded[0].toArray();']),
  q('ev-query', EV, ['            let result = await this.contractExecuter.simulateCall(callData);\n            const hexResult = ethers.hexlify(result.returnValue);\n            const [address] = ethers.AbiCoder.defaultAbiCoder().decode(\n                ["address"],\n                hexResult\n            );\n            return address;', '            return await this.query("address", callData);'], ['            let result = await this.contractExecuter.simulateCall(callData);\n            const hexResult = ethers.hexlify(result.returnValue);\n            const [encodedBytes] = ethers.AbiCoder.defaultAbiCoder().decode(\n                ["bytes"],\n                hexResult\n            );\n            return encodedBytes;', '            return await this.query("bytes", callData);'],
    ['    async getParticipants()', '    private async query(type: string, callData: Uint8Array) {\n        const result = await this.contractExecuter.simulateCall(callData);\n        const [value] = ethers.AbiCoder.defaultAbiCoder().decode(\n            [type],\n            ethers.hexlify(result.returnValue)\n        );\n        return value;\n    }\n\n    async getParticipants()']),
  q('ev-trans', EV, ['            const result = await this.contractExecuter.executeCall(encodedData);\n            return {\n                success: true,\n                successCallback: () => this.processLogs(result.logs)\n            };', '            const { logs } = await this.contractExecuter.executeCall(encodedData);\n            const successCallback = () => this.processLogs(logs);\n            return { success: true, successCallback };']),
  q('ev-logs', EV, ['                if (event && this.p2pContractInstance) {\n                    this.p2pContractInstance.emit(\n                        event.name,\n                        ...Object.values(event.args)\n                    );\n                }', '                if (!event || !this.p2pContractInstance) continue;\n                const args = Object.values(event.args);\n                this.p2pContractInstance.emit(event.name, ...args);']),
  q('ev-logs2', EV, ['        if (!logs || logs.length === 0) return;\n\n        for (const log of logs) {', '        for (const log of logs ?? []) {']),
  q('ce-inline', CE, ['        return this.runCall(this.evm.shallowCopy(), data);', '        const copy = this.evm.shallowCopy();\n        return await this.runCall(copy, data);']),
  q('ce-throw', CE, ['        if (result.execResult.exceptionError) {\n            throw this.decodeError(result);\n        }\n\n        return result.execResult;', '        const { execResult } = result;\n        if (execResult.exceptionError === undefined) return execResult;\n        throw this.decodeError(result);']),
  q('ev-setup', EV, ['        const stateManager = new StateManager(\n            signer,\n            signerAddress,\n            deployedStateChannelContractInstance,\n            evmStateMachine,\n            timeConfig,\n            p2pEventHooks || {}\n        );', '        const hooks = p2pEventHooks ?? {};\n        const stateManager = new StateManager(\n            signer,\n            signerAddress,\n            deployedStateChannelContractInstance,\n            evmStateMachine,\n            timeConfig,\n            hooks\n        );']),
  q('ev-times', EV, ['        const configTimes =\n            await deployedStateChannelContractInstance.getAllTimes();\n        const timeConfig: TimeConfig = {\n            p2pTime: Number(configTimes[0]),\n            agreementTime: Number(configTimes[1]),\n            chainFallbackTime: Number(configTimes[2]),\n            challengeTime: Number(configTimes[3])\n        };', '        const [p2pTime, agreementTime, chainFallbackTime, challengeTime] =\n            await deployedStateChannelContractInstance.getAllTimes();\n        const timeConfig: TimeConfig = {\n            p2pTime: Number(p2pTime),\n            agreementTime: Number(agreementTime),\n            chainFallbackTime: Number(chainFallbackTime),\n            challengeTime: Number(challengeTime)\n        };']),
  q('pi-dispose', PI, ['        this.p2pContractInstance.removeAllListeners();\n        await this.p2pSigner.p2pManager.stateManager.dispose();', '        const { stateManager } = this.p2pSigner.p2pManager;\n        this.p2pContractInstance.removeAllListeners();\n        await stateManager.dispose();']),
];
