const H='src/Holepunch.ts',P='src/P2PManager.ts',W='src/rpc/services/WebRTCSetupService.ts',R='src/HolepunchRelay.ts',J='src/rpc/services/TESTJoinChannelService.ts',PP='src/PeerProfile.ts',PM='src/ProfileManager.ts';
const b=(id,file,from,to,p,x)=>({id,file,edits:[[from,to]],props:[p],...x});
module.exports=[
b('h1',H,'this.topics.push(topic);','','T30'),
b('h2',H,'            this.rejoinTopics();\n        };','        };','T30'),
b('h3',H,'            this.swarm.removeAllListeners(["connection"]);','','T30'),
b('h4',H,'this.leaveTopics();','','T30'),
b('h5',H,'        this.topics = [];\n    }','    }','T30'),
b('h6',H,'p2pManager.preferredTransport = TransportType.WEBRTC;','','T30'),
b('h7',H,'{ server: true, client: true }','{ server: true, client: false }','T30'),
b('h8',P,'Buffer.alloc(32).fill(channelId)','Buffer.from(channelId)','T30'),
b('h9',P,'await this.holepunch.join(topic);','await this.holepunch.join(topic);\n        await this.holepunch.join(topic);','T30'),
b('h10',R,'success && this.connectToRelayer();','this.connectToRelayer();','T30'),
b('h11',R,'            this.updateCallback();\n','','T30'),
b('h12',R,'            ws.onerror = (error) => {\n                console.log("Relayer error", error);\n                this.removeAndConnectToRelayer(relayerUrl);\n            };','','T30'),
b('h13',H,'this.swarm = window.Hyperswarm || swarm;','this.swarm = this.swarm || window.Hyperswarm || swarm;','T30'),
b('h14',H,'                setup();\n            };','                if (!this.swarm) setup();\n            };','T30'),
b('w1',W,'            this.connectionMap.set(adr.toString(), connection);\n            let serializedOffer','            let serializedOffer','T31'),
b('w2',W,'.onOfferWebRTC(serializedOffer)\n                .sendOne(senderTransport!)','.onOfferWebRTC(serializedOffer)\n                .sendOne(this.mainRpcService.senderTransport!)','T31'),
b('w3',W,'            await connection.setRemoteDescription(offer);\n            let answer','            let answer','T31'),
b('w4',W,'            await connection.setLocalDescription(answer);\n','','T31'),
b('w5',W,'            await connection.addIceCandidate(candidate);','            for (const c of this.connectionMap.values()) await c.addIceCandidate(candidate);','T31'),
b('w6',W,'if (!adr) return console.log("initiateWebRTC - no EVM address");\n            this.connectionMap.set(adr.toString(), connection);\n            let offer','this.connectionMap.set(String(adr), connection);\n            let offer','T31'),
b('w7',W,'            let channel = connection.createDataChannel("webRTC-DataChannel");\n            let webRTCTransport = new WebRTCTransport(\n                channel,\n                this.mainRpcService.p2pManager\n            );\n','','T31'),
b('w8',W,'                    event.channel,','                    event,','T31'),
{id:'w9',file:W,props:['T31'],edits:[['            this.connectionMap.set(adr.toString(), connection);\n            let offer','            let offer'],['            await connection.setRemoteDescription(offer);\n            let answer','            await connection.setRemoteDescription(offer);\n            this.connectionMap.set(adr.toString(), connection);\n            let answer']]},
b('j1',J,'                        this.mainRpcService.p2pManager.p2pSigner.signedJc\n                            .signature,\n                        jcSignature','                        jcSignature,\n                        this.mainRpcService.p2pManager.p2pSigner.signedJc\n                            .signature','T20'),
b('p1',PP,'        this.isBlackListed = false;\n    }\n    public getTransport','        this.isBlackListed = true;\n    }\n    public getTransport','T22'),
b('p2',PM,'if (hpAddress) this.mapHpAddressToProfile.delete(hpAddress);','','T22'),
b('p3',PM,'return this.mapHpAddressToProfile.get(hpAddress);','return this.mapEvmAddressToProfile.get(hpAddress);','T22'),
b('p4','src/evm/P2pInstance.ts','this.p2pContractInstance.removeAllListeners();','','T25'),
// quiet
b('q1',W,'if (!adr) return console.log("onAnswerWebRTC - no EVM address");\n            let connection = this.connectionMap.get(adr.toString());\n            if (!connection)\n                return console.log("onAnswerWebRTC - no connection");','const connection = adr && this.connectionMap.get(adr.toString());\n            if (!connection) return;','T31',{quiet:true}),
b('q2',H,'        for (let topic of this.topics) {\n            this.swarm.leave(topic);\n            console.log("LEFT TOPIC", topic);\n        }\n        this.topics = [];','        this.topics.forEach((t) => this.swarm.leave(t));\n        this.topics = [];','T30',{quiet:true}),
b('q3',R,'        let index = this.relayerUrls.indexOf(relayerUrl);\n        if (index === -1) return false;','        if (!this.relayerUrls.includes(relayerUrl)) return false;\n        const index = this.relayerUrls.indexOf(relayerUrl);','T30',{quiet:true}),
b('q4',W,'            connection.onicecandidate = (event: any) => {\n                if (event.candidate) {\n                    let serializedCandidate = JSON.stringify(event.candidate);\n                    this.mainRpcService.rpcProxy\n                        .onIceCandidate(serializedCandidate)\n                        .sendOne(senderTransport!);\n                }\n            };\n            connection.ondatachannel','            connection.onicecandidate = ({ candidate }: any) => {\n                if (!candidate) return;\n                this.mainRpcService.rpcProxy\n                    .onIceCandidate(JSON.stringify(candidate))\n                    .sendOne(senderTransport!);\n            };\n            connection.ondatachannel','T31',{quiet:true}),
b('q5',P,'        const topic = Buffer.alloc(32).fill(channelId);\n        await this.holepunch.join(topic);','        const topic = Buffer.alloc(32, channelId);\n        return this.holepunch.join(topic);','T30',{quiet:true}),
b('q6',H,'        let discovery = this.swarm.join(topic, { server: true, client: true });','        const how = { server: true, client: true };\n        this.swarm.join(topic, how);','T30',{quiet:true}),
b('q7',R,'        let success = this.removeRelayer(relayerUrl);\n        success && this.connectToRelayer();','        if (this.removeRelayer(relayerUrl)) this.connectToRelayer();','T30',{quiet:true}),
{id:'q8',file:H,props:['T30'],quiet:true,edits:[['                console.log("new connection", ++this.connectionCount);\n                console.log("PeerInfo", info);\n                console.trace();\n                new HolepunchTransport(socket, info, this.p2pManager);','                this.onConnection(socket, info);'],['    //Mark resources','    private onConnection(socket: any, info: any) {\n        this.connectionCount++;\n        new HolepunchTransport(socket, info, this.p2pManager);\n    }\n    //Mark resources']]},
b('q9',H,'this.swarm.on("connection", (socket: any, info: any) => {','this.swarm.addListener("connection", (socket: any, info: any) => {','T30',{quiet:true}),
b('q10',H,'    private rejoinTopics() {\n        for (let topic of this.topics) {\n            let discovery = this.swarm.join(topic, {\n                server: true,\n                client: true\n            });\n            console.log("joined topic", topic);\n        }\n    }','    private rejoinTopics() {\n        this.topics.forEach((t) => this.enter(t));\n    }\n    private enter(t: Buffer) {\n        this.swarm.join(t, { server: true, client: true });\n    }','T30',{quiet:true}),
];
