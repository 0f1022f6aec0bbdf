'use strict';
// Properties of the off-chain client (TypeScript).
const SMF = 'src/stateManager/StateManager.ts', VS = 'src/stateManager/ValidationService.ts', AG = 'src/agreementManager/AgreementManager.ts', DH = 'src/DisputeHandler.ts', PM = 'src/ProofManager.ts';
const fs = require('fs');
const q = (over, text) => ({ over, text });
const ALL = q(['inputs', 'histories', 'schedules'], 'every message content, stored history, state of the application and interleaving with other activity of the client');
const W = 'Unit tests drive a few scripted message sequences between honest parties; a wrong verdict, effect or missing guard shows only for particular combinations of stored history, signatures, timing and concurrent activity.';
const T = 'path-sensitive abstract interpretation of the type-checked TypeScript, compared with a decision table';
module.exports = [
  { id: 'T01', title: 'A block is accepted only if correct, and otherwise gets the specified verdict', statement: 'A received block is accepted only if it is for this open and undisputed channel, canonically encoded and signed by its author, extends the current fork at the next position, is authored by the member whose turn it is, is dated within the allowed window, commits to the current state, and executes to exactly the state it claims. Outdated, premature, duplicate, early-dated and unauthentic blocks are classified as such without any effect on the state; a provable conflict or wrong execution leads to a dispute verdict.', files: [VS, AG], mech: [['validateSignedBlock', 'ValidationService.validateSignedBlock']] },
  { id: 'T02', title: 'Every verdict on a received block is acted upon exactly once, under the lock', statement: 'A received block is judged once while holding the client lock, which is released on every way out. An accepted block is countersigned and announced once and then processing continues from it; an early one is set aside; a conflicting or incorrect one is disputed with the matching proof; every other verdict has no effect.', files: [SMF], mech: [['onSignedBlock', 'StateManager.onSignedBlock'], ['mutex', 'Mutex.lock']] },
  { id: 'T03', title: 'A confirmation is recorded only for a known block and a member\'s signature', statement: 'A confirmation is recorded only if its block is authentic, of the open channel\'s current fork and stored here (an unknown block is first received like any other), and the signature is a canonical signature over it by a member that is not recorded yet. Early confirmations are set aside, repeated ones ignored; recording happens exactly when validation succeeded.', files: [SMF, VS], mech: [['onBlockConfirmation', 'StateManager.onBlockConfirmation'], ['validateBlockConfirmation', 'ValidationService.validateBlockConfirmation']] },
  { id: 'T04', title: 'The client authors only valid blocks, on its turn, and never two at one position', statement: 'The client signs a block of its own only while holding the lock, for an open undisputed channel, at the next position of the current fork and on its own turn, and the block commits to the state before and after executing exactly that transaction with a non-decreasing time. It is stored and announced as signed; if not everybody signed it within the agreement time it is published on chain; a failed attempt leaves the state unchanged and produces nothing.', files: [SMF], mech: [['playTransaction', 'StateManager.playTransaction']] },
  { id: 'T05', title: 'A state announced on chain is installed once, in fork order, under the lock', statement: 'A state announced on chain replaces the client\'s state only if it belongs to the next fork, while holding the lock, and the new fork then has exactly this state, its participants and the announced time. Any other announcement changes nothing.', files: [SMF, AG], mech: [['setState', 'StateManager.setState'], ['newFork', 'AgreementManager.newFork']] },
  { id: 'T06', title: 'Stored blocks, signatures and states are append-only and found where stored', statement: 'A block is stored at its fork and position together with its author\'s signature and resulting state, without disturbing anything stored before; stored blocks, signatures and states are never changed or removed afterwards except by adding further signatures. Lookups by fork and position return exactly what was stored there, or nothing.', files: [AG, 'src/agreementManager/ForkService.ts'], mech: [['addBlock', 'AgreementManager.addBlock'], ['getBlock', 'AgreementManager.getBlock']] },
  { id: 'T07', title: 'A block is compared with the stored history without false accusations', statement: 'Checking a block against the stored history reports an invalid signature, a duplicate, a double sign (same author, same position, different content), incorrect data, a premature block or a block that is ready exactly in the situations that define these verdicts. In particular a double sign is only reported if both blocks are by the same signer at the same position with different content.', files: [AG, 'src/agreementManager/BlockValidator.ts'], mech: [['checkBlock', 'AgreementManager.checkBlock']] },
  { id: 'T08', title: 'A block counts as final only with signatures of all members of its fork', statement: 'A block is reported as signed by everyone exactly if each member of its fork has a stored signature over it. For disputes, the latest state is the one after the latest block carrying the client\'s own signature, the votes are that block and its predecessors with all their stored signatures back to where every member has signed one of them, and the finalized state is the one there, or the first state of the fork if there is no such point.', files: [AG], mech: [['didEveryoneSignBlock', 'AgreementManager.didEveryoneSignBlock'], ['getFinalizedAndLatestWithVotes', 'AgreementManager.getFinalizedAndLatestWithVotes']] },
  { id: 'T09', title: 'Early blocks and confirmations are kept until their turn, then taken out once', statement: 'A block or confirmation set aside is kept under its fork and position, several per position side by side, and is handed out exactly when the client asks for that fork and position, all of them and only once. Handing out one position never loses those of another. After every advance those for the current position are handled one after the other, until one leads to a dispute.', files: ['src/agreementManager/QueueService.ts', AG], mech: [['queueBlock', 'QueueService.queueBlock'], ['tryDequeueBlocks', 'QueueService.tryDequeueBlocks']] },
  { id: 'T10', title: 'Blocks published on chain are recorded with their time and conflicts disputed', statement: 'A block published on chain is recorded under its fork, position and author with its publication time, and checked against the local history; a double sign or incorrect block leads to a dispute with the matching proof. The latest publication time up to a position is the maximum over everything recorded up to it, and processing continues from the published block.', files: [SMF, AG, 'src/agreementManager/OnChainTracker.ts'], mech: [['collectOnChainBlock', 'StateManager.collectOnChainBlock'], ['getChainLatestBlockTimestamp', 'AgreementManager.getChainLatestBlockTimestamp']] },
  { id: 'T11', title: 'Only a member that really missed its turn is timed out, and then it is', statement: 'After every advance the member whose turn it is, is checked once its full allowance has passed. It is timed out only if it is not the client itself, its block is neither fully signed here nor published on chain, and the allowance since the latest relevant block has run out; if the allowance counted from the latest block has not run out yet, the check is repeated later instead of being dropped.', files: [SMF], mech: [['tryTimeoutParticipant', 'StateManager.tryTimeoutParticipant']] },
  { id: 'T13', title: 'Fraud proofs are used against a dispute exactly when they help there', statement: 'From the recorded proofs exactly those are used against a dispute that would still have an effect on it: a fully signed block at the disputed timeout, a fraud whose author is not punished yet, a newer block confirmed by the party that posted, or a timeout at an earlier position. Useless proofs are left out, and no useful one is dropped.', files: [PM], mech: [['filterValidProofs', 'ProofManager.filterValidProofs']] },
  { id: 'T14', title: 'Fraud proofs carry the evidence the contract needs', statement: 'Each proof the client creates contains exactly the evidence that establishes the fraud: a timeout answer carries the fully signed block and all its signatures, a newer-state proof the latest block signed by the poster and only if it is newer, a double-sign proof both conflicting blocks, an incorrect-data proof the block before, its signature and the state it led to. Where no evidence exists no proof is made.', files: [PM], mech: [['createIncorrectDataProof', 'ProofManager.createIncorrectDataProof'], ['createNewerStateProof', 'ProofManager.createNewerStateProof']] },
  { id: 'T15', title: 'A dispute seen on chain stops its fork and is challenged if it can be', statement: 'A dispute reported on chain marks its fork as disputed for good. A newer revision is recorded and challenged exactly if a recorded or newly found proof is useful against it, naming the recorded revision and carrying the useful proofs and the client\'s own votes and states; older revisions are ignored, the recorded revision never goes back, and the application is told before every challenge.', files: [DH], mech: [['onDispute', 'DisputeHandler.onDispute'], ['isForkDisputed', 'DisputeHandler.isForkDisputed']] },
  { id: 'T16', title: 'A dispute is opened once per fork, with complete evidence', statement: 'Opening a dispute first marks the fork as disputed and records the proofs, and sends a dispute only if none is known for the fork, with the client\'s finalized and latest state, its votes and exactly the given timeout and proofs, after telling the application. Each kind of accusation concerns the fork of the accused block and carries the matching proof, and never times anybody out.', files: [DH], mech: [['createDispute', 'DisputeHandler.createDispute'], ['disputeDoubleSign', 'DisputeHandler.disputeDoubleSign']] },
  { id: 'T17', title: 'A message from a peer cannot crash the client and reaches only its handler', statement: 'Whatever bytes a peer sends, decoding and dispatching them never throws, and only a message naming an existing handler invokes that handler, once, with exactly the transmitted arguments. Encoding and decoding agree for every message the client sends, and the connection a message came from is recorded before the message is handled.', files: ['src/P2PManager.ts', 'src/rpc/MainRpcService.ts'], mech: [['onRpc', 'P2PManager.onRpc'], ['handlers', 'MainRpcService']] },
  { id: 'T18', title: 'Only what this client accepted is passed on to its peers', statement: 'A block received from a peer is passed on, unchanged and once, exactly if this client accepted it; everything else is not passed on. Passing on reaches every open connection once.', files: ['src/P2PManager.ts', 'src/rpc/services/StateTransitionService.ts'], mech: [['broadcast', 'RpcProxy.broadcast'], ['onSignedBlock', 'StateTransitionService.onSignedBlock']] },
  { id: 'T19', title: 'A transaction of the application is composed, signed and announced correctly', statement: 'A transaction of the application carries the current fork, the next position, the client\'s own address, the open channel, the current time and exactly the given call, and is handed on once. A countersignature is over exactly the given block, is recorded and announced, and joining the network of a channel first makes it the current channel. Everything else asked of the account is asked of the wallet unchanged.', files: ['src/evm/P2pSigner.ts', SMF], mech: [['sendTransaction', 'P2pSigner.sendTransaction'], ['signBlock', 'P2pSigner.signBlock']] },
  { id: 'T20', title: 'A request to join is answered once and complete only with all members', statement: 'A new request to join is countersigned and announced only if its deadline has not passed and the joining party itself signed it, and is forgotten once the deadline passes. A further signature counts only if it is by a current member, and the agreement is complete exactly once every current member has signed; signatures are kept per request without disturbing other requests. When the other side\'s signed request arrives, the channel is opened once with both requests, each with its own signature.', files: ['src/rpc/services/JoinChannelService.ts', 'src/rpc/services/TESTJoinChannelService.ts', 'src/utils/SignatureCollectionMap.ts'], mech: [['JoinChannelService', 'JoinChannelService']] },
  { id: 'T21', title: 'A connection counts as an address\'s only after it signed a fresh challenge', statement: 'A connection is associated with an address only after a signature by that address over a fresh random challenge issued to this connection arrived in time; the signed message cannot be mistaken for any other signature of the client. Every answer goes to the connection the message came from, even if other messages arrive meanwhile.', files: ['src/rpc/services/InitHandshakeService.ts'], mech: [['InitHandshakeService', 'InitHandshakeService']] },
  { id: 'T22', title: 'Open connections and known peers are tracked exactly', statement: 'The open connections are exactly those added and not removed or closed since, each counted once; closing one ends it and removes it and nothing else. A known peer is found by its addresses and its latest connection, with what was recorded last; what is sent on a connection goes out once as it is, and what arrives, and its opening and closing, are each handled once, as coming from this connection.', files: ['src/P2PManager.ts', 'src/ProfileManager.ts', 'src/PeerProfile.ts', 'src/transport/HolepunchTransport.ts', 'src/transport/WebRTCTransport.ts'], mech: [['addConnection', 'P2PManager.addConnection'], ['removeConnection', 'P2PManager.removeConnection']] },
  { id: 'T23', title: 'Only one activity holds the client lock at a time, first come first served', statement: 'Taking the lock succeeds immediately only if nobody holds it; everybody else waits in the order of asking. Releasing it hands it to the one who waited longest without ever being free in between, and frees it only if nobody waits, so that nobody waits forever and no two hold it together.', files: ['src/utils/Mutex.ts'], mech: [['lock', 'Mutex.lock'], ['unlock', 'Mutex.unlock']] },
  { id: 'T24', title: 'A failure of work in the background never ends the process', statement: 'Wherever the client starts work without waiting for it, a later failure of this work is handled, or the work cannot fail; asynchronous handlers given to others never fail. Delayed work runs once after exactly the given delay, and its failure is handled too.', files: ['src/utils/scheduler.ts', 'src/P2PManager.ts', SMF], mech: [['runInBackground', 'runInBackground'], ['scheduleTask', 'scheduleTask']] },
  { id: 'T25', title: 'Events of the chain reach the client once, for the current channel only', statement: 'Entering a channel subscribes once to each kind of its events and gives up the events of the channel before, and disposing gives up all of them. Each event is passed on once with exactly its values; the current channel and the hooks of the application are the same in all parts of the client.', files: ['src/StateChannelEventListener.ts', SMF], mech: [['setChannelId', 'StateChannelEventListener.setChannelId'], ['onDisputeUpdate', 'StateManager.onDisputeUpdate']] },
  { id: 'T26', title: 'The application runs locally exactly as called, and questions leave no trace', statement: 'A transaction is executed once on the local state of the application, is reported as successful exactly if its execution did not fail, and only then its events are announced, each once. Questions and views run on a copy, so that they neither change the state nor interfere with a transaction under way; the client is set up with the time constants of the contracts.', files: ['src/evm/EvmStateMachine.ts', 'src/evm/ContractExecuter.ts'], mech: [['stateTransition', 'EvmStateMachine.stateTransition'], ['simulateCall', 'ContractExecuter.simulateCall']] },
  { id: 'T27', title: 'Client and contracts agree on every encoding', statement: 'Each structure the client encodes or decodes has exactly the fields, in order and with the types, of the structure of the same name in the contracts, and the kinds of proofs have the same numbers. What the client signs, and recovers signers from, is the hash of exactly this encoding.', files: ['src/types/ethers.ts', 'src/types/disputes.ts', 'src/utils/EvmUtils.ts', PM], mech: [['encodeBlock', 'EvmUtils.encodeBlock'], ['encodeProof', 'ProofManager.encodeProof']] },
  { id: 'T28', title: 'The time of the client follows the chain', statement: 'The time of the client is the local time in whole seconds plus one adjustment, which starts at zero. Synchronising moves it by exactly the difference to the latest block, and leaves it alone only if the chain is at most two average block times ahead.', files: ['src/Clock.ts'], mech: [['syncClock', 'Clock.syncClock'], ['getTimeInSeconds', 'Clock.getTimeInSeconds']] },
  { id: 'T29', title: 'A failing action on chain is retried as often as allowed, then reported', statement: 'An action is attempted until it first succeeds, whose result is returned, and at most the allowed number of further times. Only if every attempt failed the failure is reported. Calls to the contracts are forwarded unchanged.', files: ['src/utils/retry.ts', 'src/utils/DebugProxy.ts'], mech: [['retry', 'retry'], ['createProxy', 'DebugProxy.createProxy']] },
  { id: 'T30', title: 'Peers are looked for under the channel\'s topic, and every one found is used', statement: 'Connecting to a channel joins, once, the topic of 32 bytes filled with the channel\'s id, both to find and to be found, and the topic is joined again whenever the network is reached anew, until the client is disposed of. Every connection found becomes exactly one connection of this client and of no earlier one. In a browser a relay is used, which is replaced by a remaining one, once, when it fails.', files: ['src/P2PManager.ts', 'src/Holepunch.ts', 'src/HolepunchRelay.ts'], mech: [['tryOpenConnectionToChannel', 'P2PManager.tryOpenConnectionToChannel'], ['join', 'Holepunch.join'], ['removeAndConnectToRelayer', 'HolepunchRelay.removeAndConnectToRelayer']] },
  { id: 'T31', title: 'A direct connection is negotiated with the peer that asked, and no other', statement: 'An offer, an answer and every way to be reached are sent only to the peer the negotiation is with, on the connection it used, even if other messages arrive meanwhile; peers without a known address get nothing. Of two peers that got to know each other exactly one, singled out by the order of addresses, offers a direct connection, if one of them prefers it and they have none. The negotiated connection is remembered under that peer\'s address before more of the negotiation can arrive, answers and ways to reach a peer are applied only to the connection of the peer who sent them, and nothing a peer sends makes it fail.', files: ['src/rpc/services/WebRTCSetupService.ts', 'src/rpc/services/InitHandshakeService.ts'], mech: [['initiateWebRTC', 'WebRTCSetupService.initiateWebRTC'], ['onOfferWebRTC', 'WebRTCSetupService.onOfferWebRTC'], ['onIceCandidate', 'WebRTCSetupService.onIceCandidate']] },
].map(p => Object.assign({ quantifier: ALL, why: W, technique: T, level: 'proof', note: 'Sound for the modelled TypeScript semantics: all paths, all values of arguments, fields and stored collections, summaries for loops and array functions. Each listed behaviour is also shown to be reachable. Signature recovery, hashing, ABI coding, the clock and the application state machine are uninterpreted; state of the client read before taking the lock is assumed to change at the lock.' }, p));
