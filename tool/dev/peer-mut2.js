// edits of connections, the handshake and the initial state of components
const H='src/transport/HolepunchTransport.ts',W='src/transport/WebRTCTransport.ts',I='src/rpc/services/InitHandshakeService.ts',S='src/stateManager/StateManager.ts';
module.exports=[
{id:'t1 holepunch not written',file:H,edits:[['this.holepunchSocket.write(serializedRPC);','{}']],props:['T22']},
{id:'t2 webrtc not sent',file:W,edits:[['this.webRTCChannel.send(serializedRPC);','{}']],props:['T22']},
{id:'t3 sent trimmed',file:W,edits:[['this.webRTCChannel.send(serializedRPC);','this.webRTCChannel.send(serializedRPC.slice(0, 65536));']],props:['T22']},
{id:'t4 sender set late',file:H,edits:[['        this.p2pManager.localRpcService.senderTransport = this;\n        let serializedRPC = data.toString();\n        console.log("RECEIVED RPC", serializedRPC);\n        this.p2pManager.onRpc(serializedRPC);','        let serializedRPC = data.toString();\n        console.log("RECEIVED RPC", serializedRPC);\n        this.p2pManager.onRpc(serializedRPC);\n        this.p2pManager.localRpcService.senderTransport = this;']],props:['T22','T18']},
{id:'t5 sender kept',file:W,edits:[['        this.p2pManager.localRpcService.senderTransport = this;','        this.p2pManager.localRpcService.senderTransport ??= this;']],props:['T22','T18']},
{id:'i1 starts closed',file:'src/transport/ATransport.ts',edits:[['isClosed: boolean = false','isClosed: boolean = true']],props:['T22']},
{id:'i2 starts locked',file:'src/utils/Mutex.ts',edits:[['        this.isLocked = false;\n        this.queue = [];','        this.isLocked = true;\n        this.queue = [];']],props:['T04']},
{id:'i3 starts disposed',file:S,edits:[['isDisposed: boolean = false','isDisposed: boolean = true']],props:['T05','T02']},
{id:'h1 random empty',file:I,edits:[['randomBytes(32)','randomBytes(0)']],props:['T21']},
{id:'h2 no onConnection',file:I,edits:[['        this.mainRpcService.p2pManager.stateManager.p2pEventHooks.onConnection?.(\n            signerAddress\n        );','']],props:['T21']},
{id:'h3 both offer',file:I,edits:[['            this.mainRpcService.p2pManager.p2pSigner.signerAddress <\n                signerAddress\n','            this.mainRpcService.p2pManager.p2pSigner.signerAddress !=\n                signerAddress\n']],props:['T31']},
{id:'h4 both must prefer',file:I,edits:[['(preferredTransport === TransportType.WEBRTC ||','(preferredTransport === TransportType.WEBRTC &&']],props:['T31']},
{id:'h5 never offer',file:I,edits:[['this.mainRpcService.webRTCSetunService.initiateWebRTC();','{}']],props:['T31']},
{id:'s1 no onTurn',file:S,edits:[['this.p2pEventHooks.onTurn?.(nextToWrite);','{}']],props:['T02','T04','T05']},
];
