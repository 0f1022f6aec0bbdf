// SPDX-License-Identifier: UNLICENSED
pragma solidity ^0.8.8;
import "contracts/V1/StateChannelDiamondProxy/AStateChannelManagerProxy.sol";

struct TState { uint number; address[] participants; }

// Minimal application: the next writer is participants[number % n]; add() moves on by one each time.
contract TestMachine is AStateMachine {
    TState state;
    function add(uint n) public { require(_tx.header.participant == getNextToWrite(), "turn"); state.number += n; }
    function boom() public pure { revert("boom"); }
    function _setState(bytes memory e) internal virtual override { state = abi.decode(e, (TState)); }
    function getState() public view virtual override returns (bytes memory) { return abi.encode(state); }
    function getParticipants() public view virtual override returns (address[] memory) { return state.participants; }
    function getNextToWrite() public view virtual override returns (address) {
        if (state.participants.length == 0) return address(0);
        return state.participants[state.number % state.participants.length];
    }
    function _joinChannel(JoinChannel memory j) internal virtual override returns (bool) {
        if (j.amount == 0) return false;
        state.participants.push(j.participant);
        return true;
    }
    function _drop(address adr, uint amount) internal returns (bool, ProcessExit memory) {
        for (uint i = 0; i < state.participants.length; i++) {
            if (state.participants[i] == adr) {
                for (uint k = i; k + 1 < state.participants.length; k++) state.participants[k] = state.participants[k + 1];
                state.participants.pop();
                return (true, ProcessExit(adr, amount, ""));
            }
        }
        return (false, ProcessExit(adr, 0, ""));
    }
    function _slashParticipant(address adr) internal virtual override returns (bool, ProcessExit memory) { return _drop(adr, 1); }
    function _removeParticipant(address adr) internal virtual override returns (bool, ProcessExit memory) { return _drop(adr, 2); }
}

contract TestManager is AStateChannelManagerProxy {
    event Deposit(bytes32 channelId, address who, uint amount);
    event Exit(bytes32 channelId, address who, uint amount);
    constructor(address sm, address facet) AStateChannelManagerProxy(sm, facet) {
        p2pTime = 5; agreementTime = 5; chainFallbackTime = 5; challengeTime = 50;
    }
    function open(bytes32 channelId, address[] memory ps) public {
        bytes memory e = abi.encode(TState(0, ps));
        encodedStates[channelId][0] = e;
        genesisTimestamps[channelId][0] = block.timestamp;
        emit SetState(channelId, e, 0, block.timestamp);
    }
    function openChannel(bytes32, bytes[] calldata, bytes[] calldata) public virtual override {}
    function closeChannel(bytes32, bytes[] calldata, bytes[] calldata) public virtual override {}
    function removeParticipant(bytes32, bytes[] calldata, bytes[] calldata) public virtual override {}
    function addParticipant(bytes32, bytes[] calldata, bytes[] calldata) public virtual override {}
    function _addParticipantComposable(JoinChannel memory j) internal virtual override returns (bool) {
        emit Deposit(j.channelId, j.participant, j.amount);
        return true;
    }
    function _removeParticipantComposable(bytes32 c, ProcessExit memory p) internal virtual override returns (bool) {
        emit Exit(c, p.participant, p.amount);
        return true;
    }
}
