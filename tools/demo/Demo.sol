// SPDX-License-Identifier: UNLICENSED
pragma solidity ^0.8.8;

import "contracts/V1/StateChannelDiamondProxy/AStateChannelManagerProxy.sol";
import "contracts/V1/AStateMachine.sol";

// A state machine that uses every hook of the framework: participants can
// join, be removed and be slashed, balances are conserved, and the transition
// function rejects some transactions.
struct DemoState {
    uint number;
    address[] participants;
    uint[] balances;
}

contract DemoStateMachine is AStateMachine {
    DemoState state;

    function _setState(bytes memory encodedState) internal virtual override {
        state = abi.decode(encodedState, (DemoState));
    }

    function getState() public view virtual override returns (bytes memory) {
        return abi.encode(state);
    }

    function getParticipants() public view virtual override returns (address[] memory) {
        return state.participants;
    }

    function getNextToWrite() public view virtual override returns (address) {
        if (state.participants.length == 0) return _tx.header.participant;
        return state.participants[state.number % state.participants.length];
    }

    // moves the game forward; n == 0 is an illegal move
    function play(uint n) public {
        require(_tx.header.participant == getNextToWrite(), "not your turn");
        require(n > 0, "illegal move");
        state.number += n;
    }

    function find(address adr) internal view returns (uint) {
        for (uint i = 0; i < state.participants.length; i++) {
            if (state.participants[i] == adr) return i;
        }
        return state.participants.length;
    }

    function _joinChannel(JoinChannel memory jc) internal virtual override returns (bool) {
        if (find(jc.participant) != state.participants.length) return false;
        state.participants.push(jc.participant);
        state.balances.push(jc.amount);
        return true;
    }

    function takeOut(address adr) internal returns (bool, uint) {
        uint i = find(adr);
        uint n = state.participants.length;
        if (i == n) return (false, 0);
        uint amount = state.balances[i];
        state.participants[i] = state.participants[n - 1];
        state.participants.pop();
        state.balances[i] = state.balances[n - 1];
        state.balances.pop();
        return (true, amount);
    }

    // a slashed participant leaves with nothing
    function _slashParticipant(address adr) internal virtual override returns (bool, ProcessExit memory) {
        ProcessExit memory pe;
        (bool ok, ) = takeOut(adr);
        if (ok) pe.participant = adr;
        return (ok, pe);
    }

    // a removed participant leaves with its balance
    function _removeParticipant(address adr) internal virtual override returns (bool, ProcessExit memory) {
        ProcessExit memory pe;
        (bool ok, uint amount) = takeOut(adr);
        if (ok) {
            pe.participant = adr;
            pe.amount = amount;
        }
        return (ok, pe);
    }
}

// A state machine whose transition calls back into the guarded operations.
contract ReentrantStateMachine is DemoStateMachine {
    function reenter(uint which, bool bubble) public {
        bytes memory data;
        DemoState memory other;
        other.number = 999;
        other.participants = state.participants;
        other.balances = state.balances;
        if (which == 0) data = abi.encodeCall(this.setState, (abi.encode(other)));
        else if (which == 1) {
            Transaction memory t = _tx;
            t.body.data = abi.encodeCall(this.play, (990));
            data = abi.encodeCall(this.stateTransition, (t));
        } else if (which == 2) {
            JoinChannel memory jc;
            jc.participant = address(0x99);
            data = abi.encodeCall(this.joinChannel, (jc));
        } else if (which == 3) data = abi.encodeCall(this.slashParticipant, (state.participants[0]));
        else data = abi.encodeCall(this.removeParticipant, (state.participants[0]));
        (bool ok, ) = address(this).call(data);
        require(ok || !bubble, "re-entry refused");
        if (ok) state.number += 100000;
    }
}

// A manager whose composable hooks accept and record what they were asked to do.
contract DemoManager is AStateChannelManagerProxy {
    address[] public joined;
    address[] public left;
    uint[] public leftAmount;
    bool refuse;

    constructor(address sm, address facet) AStateChannelManagerProxy(sm, facet) {}

    function setTimes(uint p, uint a, uint c, uint ch) public {
        p2pTime = p;
        agreementTime = a;
        chainFallbackTime = c;
        challengeTime = ch;
    }

    function openChannel(bytes32 channelId, bytes[] calldata openChannelData, bytes[] calldata) public virtual override {
        encodedStates[channelId][0] = openChannelData[0];
        genesisTimestamps[channelId][0] = block.timestamp;
    }

    function closeChannel(bytes32, bytes[] calldata, bytes[] calldata) public virtual override {}

    function removeParticipant(bytes32, bytes[] calldata, bytes[] calldata) public virtual override {}

    function addParticipant(bytes32, bytes[] calldata, bytes[] calldata) public virtual override {}

    function _addParticipantComposable(JoinChannel memory jc) internal virtual override returns (bool) {
        joined.push(jc.participant);
        return !refuse;
    }

    function _removeParticipantComposable(bytes32, ProcessExit memory pe) internal virtual override returns (bool) {
        left.push(pe.participant);
        leftAmount.push(pe.amount);
        return !refuse;
    }

    // makes the deposit and withdrawal hooks report failure
    function setRefuse(bool r) public {
        refuse = r;
    }

    function stateAt(bytes32 channelId, uint forkCnt) public view returns (bytes memory) {
        return encodedStates[channelId][forkCnt];
    }

    function recorded() public view returns (address[] memory, address[] memory, uint[] memory) {
        return (joined, left, leftAmount);
    }
}

// Exposes the signature library to the checks.
contract SignatureProbe {
    function verify(address[] memory a, bytes memory d, bytes[] memory s) public pure returns (bool, string memory) {
        return StateChannelUtilLibrary.verifyThresholdSigned(a, d, s);
    }

    function signer(bytes memory d, bytes memory s) public pure returns (address) {
        return StateChannelUtilLibrary.retriveSignerAddress(d, s);
    }
}

// A state machine that admits everybody it is told to admit.
contract LenientStateMachine is DemoStateMachine {
    function _joinChannel(JoinChannel memory jc) internal virtual override returns (bool) {
        state.participants.push(jc.participant);
        state.balances.push(jc.amount);
        return true;
    }
}
