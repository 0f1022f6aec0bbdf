'use strict';
// Properties of the on-chain part (Solidity). Each row: id, title, statement, quantifier, why tests cannot settle it, anchors.
const P = '/contracts/V1/StateChannelDiamondProxy/'.slice(1);
const F = P + 'DisputeManagerFacet.sol', M = P + 'AStateChannelManagerProxy.sol', C = P + 'StateChannelCommon.sol', U = P + 'StateChannelUtilLibrary.sol', SM = 'contracts/V1/AStateMachine.sol', ST = P + 'StateChannelManagerStorage.sol';
const q = (over, text) => ({ over, text });
const IN = q(['inputs', 'histories'], 'every argument value, caller, block time and reachable storage content');
const W = 'A handful of on-chain scenarios cannot cover all adversarial argument encodings, signatures, timings and previously stored dispute records; a single missing guard on one path is enough to break it.';
const T = 'must-fact dataflow over the type-checked Solidity AST (inter-procedural, loop summaries)';
module.exports = [
  { id: 'C01', title: 'Opening a channel needs a fresh, signed, funded request from every member', statement: 'A channel is opened (its genesis state announced) only if it has a non-zero identifier and is not open yet, there is at least one member, and every member request names this channel, carries a positive amount, has not expired and is signed by the member. The genesis state is stored as fork 0 at the current block time.', files: ['contracts/V1/examples/MathStateMachine/MathStateChannelManagerProxy.sol', C, U], mech: [['openChannel', 'MathStateChannelManagerProxy.openChannel']] },
  { id: 'C02', title: 'Forks are numbered consecutively, append-only and always announced', statement: 'Every new fork of a channel gets the next consecutive number, starts at the current block time from exactly the announced state, and is announced exactly once; a call creates at most one fork. No operation changes the fork counter, a stored fork state or a fork start time in any other way.', files: [C, F, M], mech: [['setState', 'StateChannelCommon.setState']] },
  { id: 'C04', title: 'A dispute is created only when admissible and records exactly what was posted', statement: 'A dispute is created only by a participant of the current fork, for that fork, when no dispute is in progress, and only with a timeout or at least one successful proof. The stored record holds exactly the channel, fork, participants, posted finalized state, voting blocks, timeout position, the sender as poster, the block time as creation time and a full challenge period, and nothing of an earlier dispute; a recorded timeout always names the disputer responsible for it.', files: [F, C], mech: [['createDispute', 'DisputeManagerFacet.createDispute'], ['isDisputeInProgress', 'StateChannelCommon.isDisputeInProgress']] },
  { id: 'C05', title: 'A challenge targets the current revision and never moves finality back', statement: 'A dispute is challenged only by one of its participants, before its challenge period ends, naming its fork and its current revision number, with at least one successful proof, and with voting blocks that do not start before the ones already posted. The challenge increments the revision by one, replaces voting blocks and posted states, records the challenger as poster, grants a full challenge period and leaves channel, fork, participants, creation time and timeout position unchanged.', files: [F], mech: [['challengeDispute', 'DisputeManagerFacet.challengeDispute']] },
  { id: 'C06', title: 'A disputed state is backed by a linked, fully signed chain of blocks', statement: 'A state posted in a dispute or challenge is accepted only if the voting blocks all belong to the channel and fork, are each signed by their author who is a participant, form a hash chain that starts from the finalized state and ends in the posted latest state; without voting blocks both states are equal. The finalized state is the genesis state of the fork, or every participant signed at least one of the voting blocks.', files: [F, U], mech: [['isFinalizedAndLatest', 'DisputeManagerFacet.isFinalizedAndLatest'], ['tryInsertAddressInThresholdSet', 'StateChannelUtilLibrary.tryInsertAddressInThresholdSet']] },
  { id: 'C07', title: 'Only a participant that really missed its turn can be timed out', statement: 'A dispute records a timeout at creation only for the participant that is next to write after the posted latest state, at the transaction right after the last voting block (or transaction 0 with no voting blocks), who is not the disputer, has not published its block on chain, and only after the full allowance since the latest relevant time (last block or fork start, and latest block published on chain) has run out. Besides the prior-block fold nothing else sets a timeout.', files: [F, C], mech: [['createDispute', 'DisputeManagerFacet.createDispute'], ['getChainLatestBlockTimestamp', 'StateChannelCommon.getChainLatestBlockTimestamp']] },
  { id: 'C08', title: 'A double-sign proof slashes exactly provable double signers', statement: 'A double-sign proof slashes a party only if it is a participant of the dispute and signed two different blocks of the disputed channel and fork with the same transaction number. A valid double-sign proof is never rejected and always leaves the double signer slashed.', files: [F, U], mech: [['applyDoubleSignProof', 'DisputeManagerFacet.applyDoubleSignProof']] },
  { id: 'C09', title: 'An incorrect-data proof slashes exactly authors of invalid blocks', statement: 'An incorrect-data proof slashes a party only if it is a participant and the signing author of a block of the disputed channel and fork that builds on the given pre-state (the genesis state for block 0, otherwise the state its signed predecessor commits to) and either has an inadmissible timestamp, fails to execute, or executes to a different state than it claims. A valid incorrect-data proof is never rejected and always leaves the author slashed.', files: [F, C], mech: [['applyIncorrectDataProof', 'DisputeManagerFacet.applyIncorrectDataProof'], ['isGoodTimestampNonDeterministic', 'DisputeManagerFacet.isGoodTimestampNonDeterministic']] },
  { id: 'C10', title: 'A newer-state proof slashes exactly a poster who withheld a newer block', statement: 'A newer-state proof slashes only the party that posted the disputed state, and only if that party confirmed by signature a block of the disputed channel and fork that is strictly newer than the last posted voting block (any block if none was posted). A valid newer-state proof is never rejected and always leaves that party slashed.', files: [F, U], mech: [['applyNewerStateProof', 'DisputeManagerFacet.applyNewerStateProof']] },
  { id: 'C11', title: 'Timeouts are undone and far-future blocks punished only on proof', statement: 'An active timeout is cancelled only by a block at the timed-out transaction signed by every dispute participant (which slashes the party that raised it), or by a double-sign or incorrect-data proof about an earlier transaction. A far-future proof slashes only a participant that authored and signed a block of the disputed channel and fork dated after the current block time. Valid proofs of both kinds are never rejected.', files: [F], mech: [['applyFoldRechallengeProof', 'DisputeManagerFacet.applyFoldRechallengeProof'], ['tryCancelFold', 'DisputeManagerFacet.tryCancelFold'], ['applyBlockTooFarInFutureProof', 'DisputeManagerFacet.applyBlockTooFarInFutureProof']] },
  { id: 'C12', title: 'A prior-block fold times out only the author of an unpublished earlier block', statement: 'A prior-block fold proof times out only the author of a voting block of the dispute whose transaction number equals the one in the proof and lies before the disputed timeout position, and only if that author had not published the block on chain by the time the dispute was created. The party raising it is recorded as responsible for the timeout.', files: [F], mech: [['applyFoldPriorBlockProof', 'DisputeManagerFacet.applyFoldPriorBlockProof']] },
  { id: 'C13', title: 'The slashed list has no duplicates, only grows on proof and bars disputing', statement: 'A party enters the slashed list of a dispute only under a fraud proof and at most once, and is never taken off it while the dispute lives. A party on the slashed list can neither create nor challenge the dispute, including when its own submitted proofs put it there.', files: [F], mech: [['insertIfNotExist', 'DisputeManagerFacet.insertIfNotExist'], ['applyProofs', 'DisputeManagerFacet.applyProofs']] },
  { id: 'C14', title: 'Joining by agreement needs everyone\'s signature and exactly that change', statement: 'A join by agreement succeeds only when no dispute is in progress, the agreement is for the current fork and the given state, it is signed by every participant, submitted by the participant it names, the joiner is not a participant yet, signed an unexpired request, is accepted by the state machine and its deposit is taken exactly once and succeeded. The new fork holds exactly the agreed state plus this joiner, and a request meeting all this is not rejected.', files: [M, C, U], mech: [['joinChannelWithAgreement', 'AStateChannelManagerProxy.joinChannelWithAgreement']] },
  { id: 'C15', title: 'Leaving by agreement needs everyone\'s signature and exactly that change', statement: 'A leave by agreement succeeds only when no dispute is in progress, the agreement is unexpired, for the current fork and the given state, signed by every participant, names a participant, and the state machine and the exit payment (made exactly once) both succeed. The new fork holds exactly the agreed state without the leaver, and a request meeting all this is not rejected.', files: [M, C, U], mech: [['leaveChannelWithAgreement', 'AStateChannelManagerProxy.leaveChannelWithAgreement']] },
  { id: 'C16', title: 'Joining through a dispute needs everyone\'s consent and one checked deposit', statement: 'A dispute records a joiner only if every dispute participant signed the signed request, the joiner signed it, it names the disputed channel and has not expired, the joiner is not a participant and not already recorded, and the sender is next to write. The deposit of a recorded joiner is taken exactly once and must succeed.', files: [F], mech: [['applyJoinChannelProof', 'DisputeManagerFacet.applyJoinChannelProof']] },
  { id: 'C17', title: 'A threshold is met only if every listed address signed the data', statement: 'Threshold verification succeeds only if each listed address is matched by its own signature over exactly the given data, counting no address slot twice, whatever the order or number of signatures; it fails only if some listed address has no matching signature. Signer recovery uses the standard signed-message hash of the data.', files: [U], mech: [['verifyThresholdSigned', 'StateChannelUtilLibrary.verifyThresholdSigned'], ['retriveSignerAddress', 'StateChannelUtilLibrary.retriveSignerAddress']] },
  { id: 'C18', title: 'Only a timely block of its own author can be published, and it is recorded', statement: 'Block data is published on chain only by the author of the block who signed it, when the block is not dated in the future and not older than the sum of the peer, agreement and fallback times. A publication is stored under its channel, fork, transaction and author with the current block time, indexed and announced, nothing else writes published blocks, and a publication meeting the conditions is not rejected.', files: [M, C], mech: [['postBlockCalldata', 'AStateChannelManagerProxy.postBlockCalldata']] },
  { id: 'C19', title: 'Deposits, exits and membership changes cannot be triggered from outside', statement: 'Taking a deposit, paying an exit, and adding, slashing or removing participants in the state machine are reachable only from the manager itself or from within a dispute or an agreed join or leave; no other caller can trigger them directly. Disputes and agreed joins and leaves remain usable by outside callers.', files: [M, ST], mech: [['onlySelf', 'StateChannelManagerStorage.onlySelf'], ['addParticipantComposable', 'AStateChannelManagerProxy.addParticipantComposable']] },
  { id: 'C20', title: 'The shared state machine never leaks one channel\'s state into another call', statement: 'Every use of the shared state machine (participants, next writer, joining, slashing, removing, executing) happens on a state loaded into it earlier in the same call. Reported participants are those of the stored state of the named fork, the next writer and executed transitions are those of the given state, and a failed transition is reported as failed.', files: [M, C, F], mech: [['executeStateTransitionOnState', 'AStateChannelManagerProxy.executeStateTransitionOnState'], ['getParticipants', 'StateChannelCommon.getParticipants']] },
  { id: 'C21', title: 'State machine operations are non-reentrant and surface failures', statement: 'Every state-changing operation of the state machine runs application code exactly once with exactly its argument, only while a re-entrancy flag that was clear at entry is set, and leaves the flag clear when it completes. A transition calls the machine with exactly the data of the recorded transaction and never completes if that call failed.', files: [SM], mech: [['_nonReentrant', 'AStateMachine._nonReentrant'], ['stateTransition', 'AStateMachine.stateTransition']] },
  { id: 'C22', title: 'Dispute requests are forwarded faithfully and queries report the record', statement: 'A dispute or challenge sent to the manager reaches the dispute logic with unchanged arguments on an identical storage layout, and fails as a whole if the logic fails. Queries for the current fork, latest state, start time, genesis check, open check, dispute, dispute-in-progress and time parameters return exactly what is stored and never fail.', files: [M, C, ST], mech: [['_delegatecall', 'AStateChannelManagerProxy._delegatecall'], ['getAllTimes', 'StateChannelCommon.getAllTimes']] },
  { id: 'C23', title: 'Recorded exits are paid once, completely and only after the dispute expired', statement: 'The exits recorded by a dispute are paid only after its challenge period ended, each exactly once, for the right channel, and the record is cleared in the same call; recorded exits are never dropped without being paid while the dispute can no longer be challenged. Apart from these, an exit is paid only for an agreed leave.', files: [M, F], mech: [['tryProcessOldExits', 'AStateChannelManagerProxy.tryProcessOldExits'], ['createDispute', 'DisputeManagerFacet.createDispute']] },
  { id: 'C24', title: 'A dispute applies all its effects, in order, to the posted state', statement: 'The state a dispute or challenge stores and announces is the posted latest state with, in this order, every recorded joiner added (all must succeed), every slashed party slashed, every forced leaver removed and the timed-out party removed. Exactly the exits of the successful slashes and removals are recorded, in order, replacing earlier ones.', files: [F, M], mech: [['applyDisputeToLatestState', 'DisputeManagerFacet.applyDisputeToLatestState'], ['_applySlashesToStateMachine', 'AStateChannelManagerProxy._applySlashesToStateMachine']] },
  { id: 'C26', title: 'The latest publication time covers all published blocks up to a transaction', statement: 'The latest on-chain publication time reported for a channel, fork and transaction is the maximum publication time over all blocks published there for transactions up to and including that one, or zero if there is none. A published block is reported as found exactly if it has a publication time, with the stored data.', files: [C], mech: [['getChainLatestBlockTimestamp', 'StateChannelCommon.getChainLatestBlockTimestamp'], ['getBlockCallData', 'StateChannelCommon.getBlockCallData']] },
].map(p => Object.assign({ quantifier: IN, why: W, technique: T, level: 'proof', note: 'Sound for the modelled Solidity semantics: all paths, all loop iteration counts (inductive loop summaries), all argument and storage values. Cryptographic primitives and application hooks are uninterpreted; decoding, arithmetic overflow and out-of-gas reverts are treated as rejection.' }, p));
