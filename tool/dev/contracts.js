const P = 'contracts/V1/StateChannelDiamondProxy/', F = P + 'DisputeManagerFacet.sol', M = P + 'AStateChannelManagerProxy.sol', C = P + 'StateChannelCommon.sol', U = P + 'StateChannelUtilLibrary.sol', SM = 'contracts/V1/AStateMachine.sol', ST = P + 'StateChannelManagerStorage.sol';
let n = 0; const m = (props, file, ...edits) => ({ id: 'm' + String(++n).padStart(3, '0'), file, edits, props: props.split(' ') });
module.exports = [
  m('C02', C, ['latestFork[channelId] = newForkCnt;', 'latestFork[channelId] = newForkCnt; if (encodedState.length == 0) latestFork[channelId] = newForkCnt + 1;']),
  m('C02', C, ['genesisTimestamps[channelId][newForkCnt] = block.timestamp;', 'if (genesisTimestamps[channelId][newForkCnt] == 0) genesisTimestamps[channelId][newForkCnt] = block.timestamp - block.timestamp % 2;']),
  m('C04 C07', F, ['require(timedoutParticipant != msg.sender, ErrorTimeoutSelf());', '']),
  m('C04', F, ['require(!isDisputeInProgress(channelId), ErrorDisputeInProgrees());', 'require(!isDisputeInProgress(channelId) || disputes[channelId].forkCnt < forkCnt, ErrorDisputeInProgrees());']),
  m('C04 C22', C, ['disputes[channelId].deadlineTimestamp < block.timestamp);', 'disputes[channelId].deadlineTimestamp <= block.timestamp);']),
  m('C04', F, ['if (dispute.timedoutParticipant != address(0))\n            dispute.timeoutDisputer = msg.sender;', 'dispute.timeoutDisputer = dispute.postedStateDisputer;']),
  m('C04', F, ['success || dispute.timedoutParticipant != address(0)', 'success || timedoutParticipant != address(0) || proofs.length > 0']),
  m('C05', F, ['dispute.deadlineTimestamp > block.timestamp,\n            ErrorDisputeExpired', 'dispute.deadlineTimestamp + getP2pTime() > block.timestamp,\n            ErrorDisputeExpired']),
  m('C05', F, ['dispute.challengeCnt == challengeCnt,', 'dispute.challengeCnt <= challengeCnt,']),
  m('C05', F, ['newBlock.transaction.header.transactionCnt >=\n                    oldBlock', 'newBlock.transaction.header.transactionCnt + 1 >=\n                    oldBlock']),
  m('C05', F, ['dispute.postedStateDisputer = msg.sender;\n        dispute.deadlineTimestamp', 'if (dispute.postedStateDisputer == address(0)) dispute.postedStateDisputer = msg.sender;\n        dispute.deadlineTimestamp']),
  m('C06', F, ['if (retrivedAddress == _block.transaction.header.participant) {', 'if (retrivedAddress == _block.transaction.header.participant || j > 0) {']),
  m('C06', F, ['previousStateHash = _block.stateHash;', 'if (i == 0) previousStateHash = _block.stateHash;']),
  m('C06', F, ['if (i == virtualVotingBlocks.length - 1) {', 'if (i == virtualVotingBlocks.length - 1 && i > 0) {']),
  m('C06', F, ['return isGenesis || countThreshold == thresholdSingers.length;', 'return isGenesis || countThreshold + 1 >= thresholdSingers.length;']),
  m('C06', U, ['if (set[i] == adr) return currentSetLength;', 'if (i > 0 && set[i] == adr) return currentSetLength;']),
  m('C06', U, ['if (!found) return currentSetLength;', 'if (!found && expectedAddresses.length > 2) return currentSetLength;']),
  m('C06', F, ['if (i == 0 && !isGenesis) {', 'if (i == 0 && (!isGenesis || forkCnt > 0)) {']),
  m('C07', F, ['foldedTransactionCnt - 1,', 'foldedTransactionCnt - 1 || foldedTransactionCnt == 1,']),
  m('C07', F, ['latestTimestamp +\n                        getP2pTime() +', 'latestTimestamp +']),
  m('C07', F, ['if (lastBlockTimestamp > latestTimestamp)\n                    latestTimestamp = lastBlockTimestamp;', '']),
  m('C07', F, ['latestTimestamp = lastBlock.transaction.header.timestamp;', '']),
  m('C08', F, ['require(retrived1 == retrived2, ErrorDoubleSignSignersNotTheSame());', 'require(retrived1 == retrived2 || retrived2 == block2.transaction.header.participant, ErrorDoubleSignSignersNotTheSame());']),
  m('C08', F, ['block1.transaction.header.forkCnt == dispute.forkCnt &&\n                    block2.transaction.header.forkCnt == dispute.forkCnt,\n                ErrorDisputeForkMismatch()\n            );\n\n', 'block1.transaction.header.forkCnt == dispute.forkCnt,\n                ErrorDisputeForkMismatch()\n            );\n\n']),
  m('C08', F, ['for (uint i = 0; i < doubleSignProof.doubleSigns.length; i++) {', 'for (uint i = 1; i < doubleSignProof.doubleSigns.length; i++) {']),
  m('C09', F, ['if (timestamp < lastTransactionTimestamp) return false;', 'if (timestamp <= lastTransactionTimestamp) return false;']),
  m('C09', F, ['if (timestamp > referenceTime + getP2pTime()) return false;', 'if (timestamp > lastTransactionTimestamp + getP2pTime()) return false;']),
  m('C09', F, ['require(\n                block2.previousStateHash == block1.stateHash,\n                ErrorIncorrectDataBlocksNotLinked()\n            );', '']),
  m('C09', F, ['incorrectDataProof.encodedState,\n                block2.transaction', 'incorrectDataProof.encodedState,\n                block1.transaction']),
  m('C10', F, ['retrivedAddress == dispute.postedStateDisputer,', 'retrivedAddress == dispute.postedStateDisputer || retrivedAddress == _block.transaction.header.participant,']),
  m('C11', F, ['if (successfulProofTransactionCnt < dispute.foldedTransactionCnt) {', 'if (successfulProofTransactionCnt <= dispute.foldedTransactionCnt) {']),
  m('C11', F, ['_block.transaction.header.timestamp > block.timestamp,', '_block.transaction.header.timestamp >= block.timestamp,']),
  m('C11', F, ['require(isParticipant, ErrorNotParticipant());\n        require(\n            _block.transaction.header.timestamp', 'require(isParticipant || dispute.participants.length < 2, ErrorNotParticipant());\n        require(\n            _block.transaction.header.timestamp']),
  m('C12', F, ['!found || _blockCalldata.timestamp > dispute.creationTimestamp,', '!found || _blockCalldata.timestamp >= dispute.creationTimestamp,']),
  m('C12', F, ['foldPriorBlockProof.transactionCnt < dispute.foldedTransactionCnt,', 'foldPriorBlockProof.transactionCnt <= dispute.foldedTransactionCnt,']),
  m('C12', F, ['dispute.timeoutDisputer = msg.sender;\n        return true;', 'dispute.timeoutDisputer = dispute.postedStateDisputer;\n        return true;']),
  m('C13', F, ['for (uint i = 0; i < array.length; i++) {\n            if (array[i] == adr) return false;', 'for (uint i = 1; i < array.length; i++) {\n            if (array[i] == adr) return false;']),
  m('C13', F, ['if (dispute.slashedParticipants[i] == msg.sender) {\n                isSlashed = true;', 'if (dispute.slashedParticipants[i] == msg.sender && i + 1 < dispute.slashedParticipants.length) {\n                isSlashed = true;']),
  m('C14 C19', M, ['require(\n            !isParticipant,\n            "AStateChannelManager: joinChannelWithAgreement - joiner is participant"', 'require(\n            !isParticipant || participants.length > 5,\n            "AStateChannelManager: joinChannelWithAgreement - joiner is participant"']),
  m('C14', M, ['joinChannel.deadlineTimestamp > block.timestamp,', 'joinChannel.deadlineTimestamp + p2pTime > block.timestamp,']),
  m('C15', M, ['participants,\n            leaveChannelAgreement.encodedLeaveChannel,', 'pp,\n            leaveChannelAgreement.encodedLeaveChannel,'], ['//check signatures\n        (bool success, ) = StateChannelUtilLibrary.verifyThresholdSigned(\n            pp,', 'address[] memory pp = new address[](1); pp[0] = leaveChannel.participant; (bool success, ) = StateChannelUtilLibrary.verifyThresholdSigned(\n            pp,']),
  m('C15', M, ['latestFork[leaveChannel.channelId] == leaveChannel.forkCnt,', 'latestFork[leaveChannel.channelId] >= leaveChannel.forkCnt,']),
  m('C16', F, ['if (array[i].participant == jc.participant) return false;', 'if (array[i].participant == jc.participant && array[i].amount == jc.amount) return false;']),
  m('C16', F, ['require(jc.channelId == dispute.channelId, ErrorChannelIdMismatch());', '']),
  m('C17', U, ['signer == addressesInThreshold[j] &&\n                        countRemaining[j] == 1', 'signer == addressesInThreshold[j]']),
  m('C17', U, ['countRemaining[j] = 0;\n                        break;', 'break;']),
  m('C17', U, ['if (count != threshold) {', 'if (count < threshold && signatures.length == threshold) {']),
  m('C19', M, ['ProcessExit memory processExit\n    ) public onlySelf returns (bool) {', 'ProcessExit memory processExit\n    ) public returns (bool) {']),
  m('C20', C, ['bytes storage encodedState = encodedStates[channelId][forkCnt];\n        stateMachineImplementation.setState(encodedState);', 'bytes storage encodedState = encodedStates[channelId][forkCnt];\n        if (encodedState.length > 0) stateMachineImplementation.setState(encodedState);']),
  m('C20', M, ['stateMachineImplementation.setState(encodedState);\n        (bool success', 'if (_tx.header.transactionCnt == 0) stateMachineImplementation.setState(encodedState);\n        (bool success']),
  m('C21', SM, ['_;\n        _nonreentrant = false;', '_nonreentrant = false; _;']),
  m('C21', SM, ['external _nonReentrant returns (bool) {\n        return _joinChannel', 'external returns (bool) {\n        return _joinChannel']),
  m('C21', SM, ['if (result.length == 0)\n                revert("AStateMachine - Call failed - result lenght 0");', 'if (result.length == 0) return success;']),
  m('C22', M, ['virtualVotingBlocks,\n                    encodedLatestFinalizedState,\n                    encodedLatestCorrectState\n                )', 'virtualVotingBlocks,\n                    encodedLatestCorrectState,\n                    encodedLatestFinalizedState\n                )']),
  m('C22', C, ['return (p2pTime, agreementTime, chainFallbackTime, challengeTime);', 'return (p2pTime, chainFallbackTime, agreementTime, challengeTime);']),
  m('C22', F, ['contract DisputeManagerFacet is StateChannelCommon {', 'abstract contract Tmp0 { uint z; } contract DisputeManagerFacet is Tmp0, StateChannelCommon {']),
  m('C23', M, ['delete dispute.processExits; //clears the array', '']),
  m('C23', F, ['for (uint i = 0; i < dispute.processExits.length; i++) {\n            removeParticipantComposable', 'for (uint i = 1; i < dispute.processExits.length; i++) {\n            removeParticipantComposable']),
  m('C24', F, ['latestEncodedState,\n            dispute.leaveChannelParticipants', 'dispute.encodedLatestCorrectState,\n            dispute.leaveChannelParticipants']),
  m('C24', F, ['successCnt == dispute.joinChannelParticipants.length,', 'successCnt <= dispute.joinChannelParticipants.length,']),
  m('C24', M, ['(success, processExits[successCnt]) = stateMachineImplementation\n                .slashParticipant', '(success, processExits[i]) = stateMachineImplementation\n                .slashParticipant']),
  m('C24', F, ['dispute.encodedLatestCorrectState = latestEncodedState;', 'if (successCnt > 0) dispute.encodedLatestCorrectState = latestEncodedState;']),
  m('C26', C, ['key.transactionCnt <= maxTransactionCnt', 'key.transactionCnt < maxTransactionCnt']),
  m('C26', C, ['for (uint i = 0; i < forkDataAvailability.keys.length; i++) {', 'for (uint i = 0; i + 1 < forkDataAvailability.keys.length; i++) {']),
  m('C26', C, ['return (blockCalldata.timestamp != 0, blockCalldata);', 'return (blockCalldata.signedBlock.encodedBlock.length != 0, blockCalldata);']),
];
