'use strict';
// Properties that matter here but that no sound static argument in reach decides.
const q = (over, text) => ({ over, text });
const SM = 'src/stateManager/StateManager.ts', DH = 'src/DisputeHandler.ts';
const D = 'contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol';
module.exports = [
  { id: 'N01', title: 'With honest reachable members the channel keeps making progress', statement: 'As long as all members are honest, reachable and within the agreed times, every transaction an application submits on its turn is eventually stored and signed by everyone at every member.', files: [SM, 'src/P2PManager.ts'], mech: [['progress', 'StateManager.playTransaction, onSignedBlock, tryExecuteFromQueue']], quantifier: q(['schedules', 'fault_sequences'], 'every fair delivery order of messages between any number of clients'), why: 'It is a liveness claim about all fair schedules of several clients; a test runs one schedule.',
    reason: 'Liveness over several communicating processes under fairness: the network, its delivery and the timing of several clients are runtime quantities. The single-client steps it is made of (accept, countersign, announce, take out of the queue) are decided by T01, T02, T04, T09 and T18.' },
  { id: 'N02', title: 'All honest members agree on the same history', statement: 'Any two honest members that both hold a block signed by everyone at a position of a fork hold the same block there, whatever faulty members do.', files: [SM, 'src/agreementManager/AgreementManager.ts'], mech: [['agreement', 'AgreementManager.checkBlock, addBlock']], quantifier: q(['schedules', 'fault_sequences', 'histories'], 'every interleaving of several clients with Byzantine members'), why: 'It relates the states of several clients under adversarial schedules.',
    reason: 'A global invariant of a distributed protocol with Byzantine members; deciding it needs a protocol model and its exploration or proof (model checking), not an analysis of the source. The local facts it rests on (never two own signatures at one position, only valid blocks countersigned, append-only history) are decided by T01, T02, T04, T06 and T08.' },
  { id: 'N03', title: 'A dispute always reaches the contract before its challenge period ends', statement: 'A challenge the client decides to send is included on chain before the challenge period of the dispute ends.', files: [DH, D], mech: [['challenge', 'DisputeHandler.onDispute']], quantifier: q(['schedules', 'fault_sequences', 'configurations'], 'every latency of the chain, its fees and the network'), why: 'Latency and inclusion are environment behaviour.',
    reason: 'Depends on block times, fees, congestion and network latency, which do not appear in the source. That the challenge is sent at once, complete and retried, is decided by T15, T16 and T29.' },
  { id: 'N04', title: 'Execution of the application is the same here and on chain', statement: 'For every state and transaction the local virtual machine and the chain compute the same successor state or both fail.', files: ['src/evm/EvmStateMachine.ts', 'contracts/V1/AStateMachine.sol'], mech: [['local execution', 'EvmStateMachine.stateTransition']], quantifier: q(['programs', 'inputs'], 'every application contract, state and transaction'), why: 'Two implementations of the virtual machine (a library and the chain) would have to agree on every program.',
    reason: 'It compares the bundled virtual machine (a third-party library, its hard-fork configuration and gas limits) with the chain; neither is source of this repository. How the client and the contracts call the application is decided by T26, C20 and C21, and the encodings by T27.' },
  { id: 'N05', title: 'Clocks of the members stay within the agreed tolerance', statement: 'The adjusted clocks of any two honest members differ by less than the agreement time.', files: ['src/Clock.ts'], mech: [['clock', 'Clock.getTimeInSeconds']], quantifier: q(['configurations', 'schedules'], 'every drift of the machines and every latency of the chain'), why: 'Clock drift is a runtime quantity of several machines.',
    reason: 'Drift and latency bounds are runtime quantities no static argument on the source can bound. That each client follows the chain in the specified way is decided by T28.' },
  { id: 'N06', title: 'Signatures and hashes cannot be forged', statement: 'Nobody without the private key of a member can produce a signature the client or the contracts accept as that member\'s, and different blocks have different hashes.', files: ['src/utils/EvmUtils.ts', 'contracts/V1/StateChannelDiamondProxy/StateChannelUtilLibrary.sol'], mech: [['signatures', 'EvmUtils.retrieveSignerAddressBlock']], quantifier: q(['inputs'], 'every feasible computation of an adversary'), why: 'It is a hardness assumption, not a fact about the code.',
    reason: 'A cryptographic hardness assumption about ECDSA and keccak256; the analyses take it as given. What is signed and how signers are recovered and compared is decided by C17, T03, T21 and T27.' },
  { id: 'N07', title: 'Every contract operation fits into the block gas limit', statement: 'Creating, challenging and settling a dispute stay below the gas limit of a block for every channel size and number of proofs the client produces.', files: [D, 'contracts/V1/StateChannelDiamondProxy/FraudProofFacet.sol'].filter(f => require('fs').existsSync('/repo/' + f)), mech: [['dispute costs', 'createDispute, challengeDispute']], quantifier: q(['inputs', 'configurations'], 'every number of participants, voting blocks and proofs'), why: 'Cost grows with quantities chosen at run time.',
    reason: 'Gas depends on list lengths, application code and the gas schedule; loops over submitted lists are unbounded by design, so no static bound below a block limit exists.' },
  { id: 'N08', title: 'Peers of a channel always find each other', statement: 'Clients that announce the same channel eventually connect to each other, through the distributed hash table, the relay or directly.', files: ['src/Holepunch.ts', 'src/rpc/services/DHTDiscoveryService.ts', 'src/rpc/services/WebRTCSetupService.ts'], mech: [['discovery', 'Holepunch, DHTDiscoveryService']], quantifier: q(['schedules', 'fault_sequences', 'configurations'], 'every network, firewall and relay'), why: 'Connectivity is environment behaviour.',
    reason: 'Discovery and hole punching are done by third-party network libraries and depend on the network; their callbacks are untyped. What the client does with connections once they exist is decided by T21 and T22.' },
];
