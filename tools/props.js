'use strict';
// Generates /verif/properties.jsonl
const fs = require('fs');
const D = 'contracts/V1/StateChannelDiamondProxy/';
const F = D + 'DisputeManagerFacet.sol', PX = D + 'AStateChannelManagerProxy.sol', CM = D + 'StateChannelCommon.sol', UT = D + 'StateChannelUtilLibrary.sol', SMF = 'contracts/V1/AStateMachine.sol';
const out = [];
function P(id, title, statement, over, text, why, files, mechanism, extra = {}) {
  out.push({ id, title, statement, quantifier: { over, text }, why_tests_cant: why, anchors: { files, mechanism: mechanism.map(([name, where]) => ({ name, where })), ...extra } });
}
const I = ['inputs'], IH = ['inputs', 'histories'], S = ['schedules'], IS = ['inputs', 'schedules'], SF = ['schedules', 'fault_sequences'];

// ------------------------------------------------------------------ on chain
P('S01', 'Threshold signature check is exact',
  'A signature threshold over a list of addresses is reported as met exactly when the supplied signatures over the given bytes can be matched one-to-one to every listed address, whatever the order and whatever extra signatures by others come along. A signature by somebody not listed, over other bytes, or counted twice never helps to meet it.',
  I, 'all address lists and signature lists up to the stated sizes, in every order, with repeated, foreign and wrong-message signatures',
  'The unit tests check a handful of hand-picked signature lists; orders, duplicates and surplus signatures multiply beyond any sample.',
  [UT], [['threshold verification', UT + ' verifyThresholdSigned'], ['single signer recovery', UT + ' retriveSignerAddress']]);
P('S02', 'A channel opens only with every joiner\'s valid consent',
  'Opening a channel succeeds only if the channel identifier is non-zero and not already open, and every joining party has signed its own, unexpired request for that very channel with a positive amount; the genesis state then lists exactly those parties in order and the fork is number 0. A rejected opening changes nothing, and an open channel can never be re-opened.',
  IH, 'all request lists up to the stated size with arbitrary fields and arbitrary signatures, before and after a first opening',
  'Tests open a channel once with well-formed requests; the mixtures of forged, expired, mismatched and replayed requests are not reached.',
  ['contracts/V1/examples/MathStateMachine/MathStateChannelManagerProxy.sol', UT, CM], [['openChannel', 'contracts/V1/examples/MathStateMachine/MathStateChannelManagerProxy.sol openChannel'], ['open test', CM + ' isChannelOpen']]);
P('S03', 'A dispute can only install a justified state',
  'The state a dispute is based on is accepted only if it is the fork\'s genesis state itself, or it follows from a finalized state through an unbroken chain of blocks of this channel and fork, each signed by its own author and ending in exactly the claimed state. A finalized state other than genesis counts only if every current participant signed some block of that chain, and the chain starts with a block committing to it.',
  IH, 'all claimed finalized/latest states, all chains of supplied blocks up to the stated length with arbitrary fields, links and signature sets',
  'No test submits forged or badly linked chains; the adversary chooses every byte.',
  [F], [['finalized-and-latest check', F + ' isFinalizedAndLatest'], ['genesis comparison', CM + ' isGenesisState']]);
P('S04', 'Who may open or challenge a dispute, when, and with what effect',
  'A dispute is created only by a current participant, on the current fork, with no other dispute running, and only with a valid timeout or proof; a challenge only by a participant of that dispute that is not slashed, naming its current challenge number, before its deadline, with a successful proof and without going back to an earlier finalized block. Every accepted call advances the fork by exactly one, starts a fresh challenge window, records the caller as the poster of the state, and leaves other channels alone; every rejected call changes nothing.',
  IH, 'all callers, times, fork and challenge numbers, and all sequences of create and challenge up to the stated length',
  'Needs every combination of caller, time and stale counters; tests never race disputes.',
  [F, CM], [['createDispute', F + ' createDispute'], ['challengeDispute', F + ' challengeDispute'], ['fork advance', CM + ' setState'], ['in-progress test', CM + ' isDisputeInProgress']]);
P('S05', 'Only a genuinely late participant can be timed out',
  'A dispute that times out a participant is accepted only if that participant is somebody else than the caller, is next to act in the disputed latest state, has not posted its block for that height on chain, and the sum of the peer, agreement and fallback times has passed since the later of the preceding block\'s (or genesis) time and the last relevant on-chain posting. The disputed height is the one directly after the supplied latest block.',
  IH, 'all block chains up to the stated length, all timing parameters, clocks and postings',
  'The window arithmetic and its interplay with posted data has more cases than tests sample, and the adversary picks the timestamps.',
  [F, CM], [['timeout branch of createDispute', F + ' createDispute'], ['reference time', CM + ' getChainLatestBlockTimestamp']]);
P('S06', 'Equivocation proofs slash exactly the equivocator',
  'An equivocation proof is accepted only for two different blocks of this channel and fork at the same height signed by the same participant of the dispute, and then adds that participant, and nobody else, to the slashed set. Presenting two such blocks always works unless the participant was already slashed, and undoes a pending timeout at a later height.',
  I, 'all pairs of blocks with arbitrary contents, signers and channel, fork and height fields, up to the stated number of pairs',
  'An adversary assembles arbitrary block pairs; tests show one good pair.',
  [F], [['applyDoubleSignProof', F + ' applyDoubleSignProof'], ['tryCancelFold', F + ' tryCancelFold']]);
P('S07', 'Incorrect-data proofs never slash the author of a correct block',
  'An incorrect-data proof slashes a participant only for a block of this channel and fork it signed itself, which builds on the state supplied with the proof, and whose execution from that state fails or yields a different state than the block claims, or whose timestamp is earlier than its predecessor\'s or later than the allowed window. The supplied state must be the fork\'s genesis state with the block at height zero, or the state committed to by a block signed by a participant at the directly preceding height.',
  I, 'all predecessor/offending block pairs, states, transactions and timestamps',
  'Needs the whole space of transactions and timestamps against a real transition function.',
  [F], [['applyIncorrectDataProof', F + ' applyIncorrectDataProof'], ['timestamp rule', F + ' isGoodTimestampNonDeterministic']]);
P('S08', 'Newer-state proofs slash only a poster that hid a newer block',
  'A newer-state proof slashes only the participant that posted the disputed state, and only if it signed a block of this channel and fork at a height above the newest block it posted. Such a block always makes the proof succeed.',
  I, 'all candidate blocks, signers and heights against all posted chains up to the stated length, including an empty one',
  'Needs the off-by-one and empty-chain cases for adversarial inputs.',
  [F], [['applyNewerStateProof', F + ' applyNewerStateProof']]);
P('S09', 'A fully signed block defeats a timeout at its height',
  'A rechallenge proof is accepted only while a timeout is pending, and only with a block of this channel and fork at exactly the timed-out height signed by every participant of the dispute; it then cancels the timeout and slashes the party that raised it (unless that party is slashed already). It never slashes anybody else.',
  I, 'all blocks, heights and signature sets, with and without a pending timeout',
  'Tests never combine missing timeouts, partial signature sets and heights.',
  [F], [['applyFoldRechallengeProof', F + ' applyFoldRechallengeProof']]);
P('S10', 'A prior-block timeout targets the author of the named block',
  'Replacing the pending timeout by one for an earlier block is accepted only if that block is among the posted chain, lies below the timed-out height, and its author had not posted it on chain before the dispute was created. The party that is then timed out is the author of that very block.',
  I, 'all posted chains up to the stated length, heights, authors and postings',
  'Depends on chain shape and posting times chosen by the adversary.',
  [F], [['applyFoldPriorBlockProof', F + ' applyFoldPriorBlockProof']]);
P('S11', 'Future-dated block proofs',
  'A future-block proof slashes a party only if it is a participant of the dispute, authored and signed a block of this channel and fork, and that block\'s timestamp is later than the current chain time. Such a block always makes the proof succeed unless its author was already slashed.',
  I, 'all blocks, signers, timestamps and chain times', 'Boundary and identity conditions over all inputs.',
  [F], [['applyBlockTooFarInFutureProof', F + ' applyBlockTooFarInFutureProof']]);
P('S12', 'Joining through a dispute needs everybody\'s consent',
  'A join proof admits a newcomer only if every participant of the dispute signed the request, the newcomer itself signed it, it names this channel, has not expired, the newcomer is not yet a participant nor already joining, and the caller is the one whose turn it is. The on-chain deposit hook is then invoked exactly once for that newcomer.',
  I, 'all join requests, signature sets, callers, deadlines and times', 'Tests never exercise a join during a dispute.',
  [F], [['applyJoinChannelProof', F + ' applyJoinChannelProof']]);
P('S13', 'Proof bundles never slash an honest participant',
  'Whatever bundle of proofs is submitted in one call, a participant that signed at most one block per height, never signed an invalid or future-dated block, and did not act as disputer is not added to the slashed set. A caller that is slashed by its own bundle cannot complete the call.',
  I, 'all bundles of up to the stated number of proofs of mixed kinds', 'Interplay of several proofs in one call is never tested.',
  [F], [['applyProofs', F + ' applyProofs']]);
P('S14', 'A dispute\'s outcome is applied to the state completely and once',
  'When a dispute is created or challenged, the new fork\'s state is the disputed latest state with every approved joiner added, every slashed participant slashed and the timed-out participant removed, in that order, and nothing else. The recorded exits are exactly those the state machine produced, and a joiner the state machine rejects aborts the whole call.',
  IH, 'all subsets of joins, slashes and timeouts over the stated participant sets, and consecutive disputes on one channel',
  'Combinations and leftovers from earlier disputes are not sampled.',
  [F, PX], [['applyDisputeToLatestState', F + ' applyDisputeToLatestState'], ['state machine application', PX + ' _applySlashesToStateMachine, _removeParticipantsFromStateMachine, _applyJoinChannelToStateMachine']]);
P('S15', 'Recorded exits are paid out exactly once, and only after the window',
  'The exits recorded by a dispute are handed to the on-chain removal hook at most once each, never while the dispute can still be challenged, and none of them is lost by a later dispute or membership change on the same channel.',
  IH, 'all sequences of dispute, membership change and time advance up to the stated length', 'Needs histories with several disputes and times.',
  [PX, F], [['tryProcessOldExits', PX + ' tryProcessOldExits'], ['processExits', F + ' createDispute']]);
P('S16', 'Posting block data on chain is authenticated and faithful',
  'Posting a block is accepted only from its author, with the author\'s valid signature, and with a timestamp neither in the future nor older than the allowed window; the posted block can then be read back for its channel, fork, height and author with the posting time, and postings by different authors or for other slots never disturb it. A rejected posting changes nothing.',
  IH, 'all blocks, signers, senders, times and up to the stated number of consecutive postings', 'Sender/author/time combinations are not covered by tests.',
  [PX, CM], [['postBlockCalldata', PX + ' postBlockCalldata'], ['getBlockCallData', CM + ' getBlockCallData']]);
P('S17', 'The latest posting time is computed correctly',
  'The reported latest posting time for a fork up to a height is the maximum posting time over all blocks posted for that fork at or below that height, and zero if there is none.',
  IH, 'all posting histories up to the stated length and all height limits', 'Maximum over arbitrary, unordered histories.',
  [CM], [['getChainLatestBlockTimestamp', CM + ' getChainLatestBlockTimestamp']]);
P('S18', 'Joining by agreement needs unanimous consent and takes effect once',
  'A newcomer joins by agreement only if no dispute is running, the agreement names the current fork and the supplied state, every current participant signed it, the newcomer signed its own request and is not yet a participant, and the caller is the submitting participant named in it; with all of this the join does succeed. The fork then advances by one to the supplied state with the newcomer added, after one deposit hook call.',
  IH, 'all agreements, signature sets, callers and states', 'Not exercised by the test suite.',
  [PX], [['joinChannelWithAgreement', PX + ' joinChannelWithAgreement']]);
P('S19', 'Leaving by agreement needs unanimous consent and takes effect once',
  'A participant leaves by agreement only if no dispute is running, the agreement names the current fork and the supplied state, the leaver is a participant and every current participant signed it; with all of this the departure does succeed. The fork then advances by one to the supplied state without the leaver, and its exit is handed to the removal hook exactly once.',
  IH, 'all agreements, signature sets, callers and states', 'Not exercised by the test suite.',
  [PX], [['leaveChannelWithAgreement', PX + ' leaveChannelWithAgreement']]);
P('S20', 'State machine transitions are atomic and single-entry',
  'Running a transaction on a state machine either applies the requested function fully or fails leaving the state as it was, a failing or unknown call is always reported as failure, and no guarded operation can be re-entered from inside another one, while a failed call never leaves the machine locked. Restoring a saved state and reading it back gives the same bytes.',
  IH, 'all transactions and call sequences up to the stated length', 'Failure atomicity and guard release need adversarial sequences.',
  [SMF], [['stateTransition', SMF + ' stateTransition'], ['guard', SMF + ' _nonReentrant']]);
P('S21', 'On-chain re-execution depends only on the supplied state and transaction',
  'Executing a transaction on a supplied state through the manager gives the same result and new state whatever was executed before, equals running the state machine directly, reports failure with the unchanged supplied state when the transaction is rejected, and alters no channel\'s stored state, fork or dispute.',
  IH, 'all states, transactions and preceding operations of the stated kinds', 'Needs all preceding histories of the shared state machine instance.',
  [PX, F, CM], [['executeStateTransitionOnState', PX + ' executeStateTransitionOnState']]);
P('S22', 'Privileged manager operations are not callable from outside',
  'Nobody but the manager itself can invoke the operations that move deposits or apply joins, slashes and removals; calls from any other address fail without effect.',
  I, 'all callers and arguments for every restricted operation', 'Quantifies over all callers.',
  [PX, D + 'StateChannelManagerStorage.sol'], [['onlySelf', D + 'StateChannelManagerStorage.sol onlySelf']]);
P('S23', 'The example sum game follows its rules',
  'A move of the sum game is accepted only from the participant whose turn it is and adds exactly the given number to the total; removing a participant removes exactly that one and keeps everybody else, and a saved state restores to the same game.',
  IH, 'all totals, participant lists up to the stated size, movers and numbers', 'Tests play a few moves.',
  ['contracts/V1/examples/MathStateMachine/MathStateMachine.sol'], [['add', 'contracts/V1/examples/MathStateMachine/MathStateMachine.sol add']]);
P('S25', 'The linked list behaves as a sequence',
  'After any sequence of insertions at the front and removals of present elements with distinct non-zero identifiers, walking the list by index gives exactly the remaining elements in order, each linked to its neighbours in both directions, and the reported length is their number.',
  IH, 'all operation sequences up to the stated length with arbitrary distinct identifiers', 'Tests run a few fixed sequences.',
  ['contracts/common/DoubleLinkedList.sol'], [['addFront/removeNode', 'contracts/common/DoubleLinkedList.sol']]);

// ------------------------------------------------------------------ off chain
const AM = 'src/agreementManager/', SMG = 'src/stateManager/';
P('T01', 'Accepted blocks form one well-linked chain per fork',
  'A block enters a fork\'s agreed chain only at the next free height of an existing fork, only with its author\'s own signature, and is afterwards returned unchanged with its state for its fork and height; nothing stored is ever replaced or dropped. Forks are numbered consecutively and a new fork starts exactly from the state it was opened with.',
  IH, 'all sequences of fork openings and block insertions up to the stated length with arbitrary block fields and signers', 'Unit tests insert a few valid blocks.',
  [AM + 'AgreementManager.ts', AM + 'ForkService.ts'], [['addBlock', AM + 'AgreementManager.ts'], ['newFork', AM + 'ForkService.ts']]);
P('T02', 'Incoming blocks are classified correctly against what is known',
  'An incoming block is reported as duplicate, equivocation, incorrectly linked, ready or not-ready exactly according to whether its height is already agreed with the same content, agreed with another content by the same signer, or directly follows the agreed chain; a block with a signature by anybody but its stated author is always rejected as badly signed.',
  IH, 'all blocks against all agreed and queued histories up to the stated length', 'Classification depends on history and arbitrary fields.',
  [AM + 'BlockValidator.ts', AM + 'AgreementManager.ts'], [['checkBlock', AM + 'BlockValidator.ts']]);
P('T03', 'Detected equivocations yield evidence the contract accepts',
  'Whenever the off-chain code classifies two blocks as an equivocation, the proof it builds from its records is accepted by the dispute contract and slashes the equivocating participant.',
  IH, 'all pairs of conflicting blocks and their order of arrival', 'Crosses the language boundary; no test feeds off-chain evidence to the contract.',
  ['src/ProofManager.ts', F], [['createDoubleSignProof', 'src/ProofManager.ts'], ['applyDoubleSignProof', F]]);
P('T04', 'Confirmations count only genuine, distinct participants',
  'A block counts as signed by everyone only if each current participant\'s genuine signature over that exact block is held; foreign, repeated or wrong-block confirmations never count, and the reported set of missing signers is exactly the participants whose signature is not held.',
  IH, 'all confirmation sequences up to the stated length with arbitrary signers and messages', 'Multiset and ordering of confirmations.',
  [AM + 'AgreementManager.ts', AM + 'SignatureService.ts', 'src/utils/SignatureCollectionMap.ts'], [['didEveryoneSignBlock', AM + 'AgreementManager.ts'], ['confirmBlock', AM + 'AgreementManager.ts']]);
P('T05', 'Evidence collected off chain is accepted by the contract',
  'The finalized state, latest state and chain of blocks a participant submits in a dispute satisfy the contract\'s acceptance check whenever the participant\'s records contain enough signatures, and the latest state is the newest agreed one.',
  IH, 'all agreed chains up to the stated length and all held signature sets', 'Crosses the language boundary over arbitrary histories.',
  [AM + 'AgreementManager.ts', F], [['getFinalizedAndLatestWithVotes', AM + 'AgreementManager.ts'], ['isFinalizedAndLatest', F]]);
P('T06', 'The on-chain posting tracker returns what was posted',
  'For every fork, height and participant the tracker reports a posting exactly if one was collected, with the latest collected chain time up to a height equal to the maximum over the collected postings.',
  IH, 'all sequences of collected postings up to the stated length', 'Arbitrary orders and repeats.',
  [AM + 'OnChainTracker.ts'], [['OnChainTracker', AM + 'OnChainTracker.ts']]);
P('T07', 'Early blocks and confirmations are queued without loss',
  'A block or confirmation that arrives early is kept and handed out exactly once when its fork and height come up, in any arrival order, and queued items of other heights and forks are untouched. Per fork, height and signer one item is kept: the latest. A node that receives blocks and confirmations early ends up with the same chain and confirmations as if they had arrived in order.',
  IH, 'all arrival and retrieval sequences up to the stated length', 'Order and duplication.',
  [AM + 'QueueService.ts'], [['QueueService', AM + 'QueueService.ts']]);
P('T08', 'A node adopts only valid blocks',
  'A node adopts and confirms a received block exactly if it belongs to the open channel and to the current, undisputed fork, directly follows the agreed chain, is signed by its stated author who is next to act, has a timestamp not before the latest agreed time and at most the peer-to-peer window after the latest reference time (agreed block or its chain posting), and re-executing its transaction on the agreed state yields exactly the state it claims, its bytes are the standard encoding of the block (the one records and proofs are built from), and its signature is in the one form the contracts read (65 bytes, v of 27 or 28); a confirmation in another form never counts and never takes the place of one in that form. Any other block leaves the agreed chain and the local state machine where they were.',
  ['inputs', 'fault_sequences'], 'all received blocks with arbitrary fields and signers, all outcomes of the state machine', 'Invalid blocks come in unbounded variety; tests send valid ones.',
  [SMG + 'StateManager.ts', SMG + 'ValidationService.ts'], [['onSignedBlock', SMG + 'StateManager.ts'], ['validation chain', SMG + 'ValidationService.ts']]);
P('T09', 'A node never signs two different blocks for one height',
  'Whatever the interleaving of local moves and received blocks, an honest node never produces signatures over two different blocks at the same height of the same fork, neither as author nor as confirmer.',
  S, 'all interleavings of concurrent local transactions and received blocks up to the stated number', 'Depends on interleavings tests do not control.',
  [SMG + 'StateManager.ts', 'src/evm/P2pSigner.ts'], [['playTransaction', SMG + 'StateManager.ts'], ['mutex', 'src/utils/Mutex.ts']]);
P('T10', 'Processing never leaves the node locked',
  'After handling any block, confirmation or local transaction, however it ends, the node\'s processing lock is released, so later work is always processed.',
  ['inputs', 'fault_sequences'], 'all outcomes, including failures, of every step of processing', 'Needs failures at every internal step.',
  [SMG + 'StateManager.ts', 'src/utils/Mutex.ts'], [['lock handling', SMG + 'StateManager.ts']]);
P('T11', 'Blocks a node authors are acceptable to honest peers',
  'A block a node authors for a valid local transaction in its turn is sent to the others once and accepted and confirmed by every peer with the same agreed chain: it carries the right channel, fork, height, author, transaction and state commitments and a timestamp inside the peer\'s window; a block that is later than that is posted on chain before anybody gets it, and an in-time block somebody did not confirm after the time to agree. A transaction that fails or is refused, at whatever step, is reported and leaves the agreed chain and the state machine where they were, so that the next attempt is acceptable again; once the block is agreed to locally it is sent, whatever hooks do.',
  IH, 'all clocks, previous timestamps and transactions within the stated bounds', 'Two-party consistency over all clocks.',
  [SMG + 'StateManager.ts', SMG + 'ValidationService.ts', 'src/utils/timestamp.ts'], [['applyTransaction', SMG + 'StateManager.ts']]);
P('T12', 'A node times out a peer only when the contract would agree',
  'A node raises a timeout against a peer only in the current fork, only for the participant next to act, never against itself, only if no block or on-chain posting for the awaited height has reached it, and not before the full window has passed since the latest agreed block and the latest posting known to it. If nothing arrives, it does raise the timeout.',
  ['inputs', 'schedules'], 'all arrival orders of blocks, postings and timers', 'Race between timers and messages.',
  [SMG + 'StateManager.ts'], [['tryTimeoutParticipant', SMG + 'StateManager.ts']]);
P('T13', 'Disputes and rechallenges carry current data',
  'A dispute or challenge submitted by a node always names the fork and the challenge number current when it was decided on, and only carries proofs that are still useful; a submission overtaken by somebody else is retried against the new dispute as long as the node\'s records contradict it, never against a stale one, and a dispute the records do not contradict is left alone. Evidence the node holds is used against any dispute of its fork, and a submission that fails never breaks the handling of anything else.',
  ['histories', 'fault_sequences'], 'all sequences of dispute updates and failures up to the stated length', 'Races between competing challengers.',
  ['src/DisputeHandler.ts', F], [['rechallenge', 'src/DisputeHandler.ts']]);
P('T14', 'Locally built and kept proofs are ones the contract can verify',
  'Every proof a node builds about blocks linked to its agreed chain is encoded as the contract decodes it, names the right blocks in the right roles, and filtering the kept proofs for a dispute keeps exactly those that can succeed against it.',
  IH, 'all block pairs, heights and dispute contents within the stated bounds', 'Crosses the language boundary.',
  ['src/ProofManager.ts', 'src/types/disputes.ts'], [['ProofManager', 'src/ProofManager.ts']]);
P('T16', 'Handshake authenticates the peer that answers',
  'A peer is registered under an address only after it signed the challenge this node issued for that very connection; replayed, reflected or cross-connection answers never register an address, whatever the order of messages. Two honest nodes with clocks that agree do register each other, and answering a challenge never signs anything that is valid elsewhere (such as a block).',
  ['schedules', 'inputs'], 'all message orders of up to the stated number of concurrent handshakes', 'Concurrent handshakes interleave.',
  ['src/rpc/services/InitHandshakeService.ts'], [['handshake', 'src/rpc/services/InitHandshakeService.ts']]);
P('T18', 'Peer tables stay consistent',
  'At all times each connected peer is reachable under exactly the identities it registered, a replaced or removed peer is gone from every table, and removing one peer never removes another. A message sent to all reaches every open connection although others fail, and nothing is heard from a connection that was removed.',
  IH, 'all sequences of connect, register, replace and remove up to the stated length', 'Sequences of table operations.',
  ['src/ProfileManager.ts', 'src/P2PManager.ts', 'src/PeerProfile.ts'], [['ProfileManager', 'src/ProfileManager.ts']]);
P('T19', 'Malformed or foreign messages are contained',
  'A message from a peer invokes at most the named public method of a registered service with its own arguments; malformed, unknown or internal names are ignored, and a failure while handling one message never prevents handling the next.',
  I, 'all message shapes and names of the stated kinds', 'Adversarial messages.',
  ['src/rpc/RpcHandler.ts', 'src/rpc/RpcProxy.ts'], [['RpcHandler', 'src/rpc/RpcHandler.ts']]);
P('T20', 'Off-chain and on-chain encodings agree',
  'Every structure that is exchanged with or presented to the contracts is encoded off chain with the same field order and types with which the contracts decode it, and decoding an encoded value gives it back.',
  I, 'all field values of every exchanged structure', 'Tests round-trip a few values within one language.',
  ['src/utils/EvmUtils.ts', 'src/types/ethers.ts', 'src/types/disputes.ts', 'contracts/V1/DataTypes.sol', 'contracts/V1/DisputeTypes.sol'], [['EvmUtils', 'src/utils/EvmUtils.ts'], ['type descriptions', 'src/types/']]);
P('T22', 'The synchronized clock never runs ahead of or behind what it measured',
  'After initialization the node\'s channel clock reports whole seconds of its local clock plus a fixed whole offset: it equals chain time at the last measurement if no average block time is estimated, is otherwise never more than two average block times behind it, the offset never exceeds the largest lead of the chain it measured, and adjusting it with an estimate never moves reported time backwards.',
  I, 'all local and chain times within the stated bounds', 'Arithmetic over all clocks.',
  ['src/Clock.ts'], [['Clock', 'src/Clock.ts']]);
P('T23', 'Retries are bounded and faithful',
  'A retried operation is attempted at most the configured number of times, stops at the first success and returns its result, and reports failure only after the last attempt failed, whatever the pattern of failures.',
  ['fault_sequences'], 'all success/failure patterns up to the stated number of attempts', 'All failure patterns.',
  ['src/utils/retry.ts'], [['retry', 'src/utils/retry.ts']]);
P('T24', 'The lock gives mutual exclusion and is first-come first-served',
  'At most one holder owns the lock at any time, every waiter eventually gets it once earlier holders release it, in order of arrival, and releasing it never wakes two waiters.',
  S, 'all interleavings of the stated number of lockers', 'All interleavings.',
  ['src/utils/Mutex.ts'], [['Mutex', 'src/utils/Mutex.ts']]);
P('T26', 'Set helpers compute set operations',
  'Union, difference, intersection, symmetric difference and subset tests on collections agree with their mathematical meaning and never modify their inputs.',
  I, 'all sets up to the stated size over symbolic elements', 'All overlaps.',
  ['src/utils/set.ts'], [['set helpers', 'src/utils/set.ts']]);
P('T28', 'The timing verdict is consistent',
  'The verdict whether a block\'s timestamp is acceptable is monotone: it is accepted inside the allowed window, rejected outside, and the reported reason matches the violated bound, for every clock and reference time.',
  I, 'all timestamps, reference times and clocks', 'Boundary arithmetic over all values.',
  ['src/utils/timestamp.ts', SMG + 'ValidationService.ts'], [['timing checks', SMG + 'ValidationService.ts']]);
P('T29', 'The embedded EVM restores and executes faithfully',
  'Running a transition inside a node gives the same outcome as the deployed state machine contract would.',
  I, 'all states and transactions', 'Depends on a third-party EVM over all inputs.',
  ['src/evm/EvmStateMachine.ts'], [['EvmStateMachine', 'src/evm/EvmStateMachine.ts']]);
P('T30', 'The state machine inside a node is called one call at a time',
  'Calls a node makes to its embedded state machine never overlap (an overlapping one would share, and undo, the other\'s changes) and a failing call never blocks the ones after it; only a set state and a successful transition change the machine\'s state, so that reading it or calling a view leaves it as it was; a set state, the participants, the next writer and the result of a view are passed on unchanged, a failed view is reported, a transition reports exactly whether it ran, and its events are shown to the application only once asked for, only if it ran, completely, in order and also when one of them cannot be decoded.',
  S, 'all pairs (thorough: triples) of calls, overlapping or not, and all outcomes', 'Interleavings and failures of asynchronous calls.',
  ['src/evm/ContractExecuter.ts', 'src/evm/EvmStateMachine.ts'], [['EvmStateMachine', 'src/evm/EvmStateMachine.ts'], ['ContractExecuter', 'src/evm/ContractExecuter.ts']]);
P('T31', 'What the chain announces reaches the node, and application hooks cannot stop it',
  'While a node is on a channel, exactly that channel\'s state, posting and dispute events reach it, once each and with the announced values; switching channels (repeatedly, or while an earlier switch is under way) or disposing leaves no other subscription behind. An application hook that fails keeps no event from being handled and no posting or dispute from being submitted, and neither it nor a failing machine or contract call ends in an unhandled rejection; a hook set later is the one called; a disposed node raises no timeout.',
  S, 'all values and channels, orders of completion and failing hooks or calls within the stated bounds', 'Interleavings of subscriptions with events, and failures inside callbacks nobody awaits.',
  ['src/StateChannelEventListener.ts', SMG + 'StateManager.ts'], [['StateChannelEventListener', 'src/StateChannelEventListener.ts'], ['StateManager', SMG + 'StateManager.ts']]);
P('T32', 'Consent to a join is only given and counted where it belongs',
  'A node signs a request to join only if it is for its own channel, in the standard encoding, signed by the participant it names in a form the contracts read, and before its deadline; nothing it signs that way can be read as a block. It consents to and announces a request at most once while it is valid, and passes it on exactly once, exactly when every current participant\'s genuine signature, its own included, was collected, with one signature of each and the joiner\'s genuine one. Forged or foreign requests and confirmations change nothing, expired requests are ignored, and one far in the future is kept.',
  S, 'all requests, signatures, deadlines and message orders within the stated bounds', 'Adversarial messages in any order, with signing under way.',
  ['src/rpc/services/JoinChannelService.ts', 'src/utils/SignatureCollectionMap.ts'], [['JoinChannelService', 'src/rpc/services/JoinChannelService.ts'], ['SignatureCollectionMap', 'src/utils/SignatureCollectionMap.ts']]);
P('T33', 'Setting up WebRTC stays between the two peers',
  'Every offer, answer and network candidate a node makes for one peer is sent to that peer, on a connection of its own, whatever else arrives in the meantime; what an authenticated peer sends is passed on to that peer\'s own negotiation and to no other, and what anybody else sends negotiates nothing. Once two peers have authenticated each other, exactly one of them starts if either wants WebRTC, and none otherwise. An operation of the WebRTC stack that fails ends only that step, without an unhandled rejection. A data channel that opens is a connection like any other: its peer is challenged, what arrives on it is answered on it, and once closed it is neither used nor heard.',
  ['schedules', 'fault_sequences'], 'all contents, orders of messages and completions, and failing operations within the stated bounds', 'Several negotiations at once, with operations completing or failing at any time; tests set up none.',
  ['src/rpc/services/WebRTCSetupService.ts', 'src/transport/WebRTCTransport.ts'], [['WebRTCSetupService', 'src/rpc/services/WebRTCSetupService.ts'], ['WebRTCTransport', 'src/transport/WebRTCTransport.ts']]);
P('T34', 'A node stays reachable on the network in use until it is disposed',
  'Every topic a node has joined is joined on the network it uses, also after its relay was replaced by another, and on none once it is disposed; a peer that connects becomes a connection of the node exactly once, and never of a node that was disposed, not even when a relay of that node fails later. As long as there is a relay that has not failed, exactly one is used and whoever uses the network is told about it; one that failed, or cannot be connected to, is not used again. Without any relay, joining and disposing still work.',
  ['schedules', 'fault_sequences'], 'all topics, random picks and orders of joins, connections, relay failures, disposal and renewal within the stated bounds', 'Needs failing relays at particular moments of a node\'s life; no test touches the discovery.',
  ['src/Holepunch.ts', 'src/HolepunchRelay.ts'], [['Holepunch', 'src/Holepunch.ts'], ['HolepunchRelay', 'src/HolepunchRelay.ts']]);
P('T35', 'A node acts for exactly the channel it was told',
  'Once a node was told its channel, it adopts, signs and counts exactly the messages of that channel and refuses those of any other; its own blocks, its dispute calls and its subscriptions are for that channel. Nodes that connect to a channel look for each other under one topic, and under different topics if their channels differ. None of this depends on how the id is written (letters in either case, or bytes). A node that is set up reckons with the times of its contract, and a state machine that cannot be deployed is reported instead of used.',
  IH, 'all channel ids and times, in every notation the interface allows, within the stated bounds', 'The tests use one id per test, in one notation; ids that are alike, or written differently, are never brought together.',
  [SMG + 'StateManager.ts', 'src/evm/P2pSigner.ts', 'src/P2PManager.ts', 'src/evm/EvmStateMachine.ts'], [['setChannelId', SMG + 'StateManager.ts'], ['connectToChannel', 'src/evm/P2pSigner.ts'], ['topics', 'src/P2PManager.ts'], ['set-up', 'src/evm/EvmStateMachine.ts']]);
if (require.main === module) { fs.writeFileSync(__dirname + '/../properties.jsonl', out.map(o => JSON.stringify(o)).join('\n') + '\n'); console.log(out.length); }
module.exports = out;
