From d87d65a413603ef73f438d8820cf5d097671340b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:47 +0000
Subject: [PATCH 01/69] fix: a dispute without votes can only carry the
 finalized state itself

---
 .../V1/StateChannelDiamondProxy/DisputeManagerFacet.sol     | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
index 0955b4b..349de0d 100644
--- a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
+++ b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
@@ -931,6 +931,12 @@ contract DisputeManagerFacet is StateChannelCommon {
             previousStateHash = _block.stateHash;
         }
 
+        //without votes the only justified state is the finalized one
+        if (
+            virtualVotingBlocks.length == 0 &&
+            keccak256(encodedLatestCorrectState) != finalizedStateHash
+        ) return false;
+
         return isGenesis || countThreshold == thresholdSingers.length;
     }
 
-- 
2.43.0


From 8c26d3774e6eec3a9c4e90760cbfc4bc7c23405a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:47 +0000
Subject: [PATCH 02/69] fix: disputes on the genesis state can be challenged

---
 .../DisputeManagerFacet.sol                   | 33 +++++++++++--------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
index 349de0d..08db35f 100644
--- a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
+++ b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
@@ -264,19 +264,26 @@ contract DisputeManagerFacet is StateChannelCommon {
             ),
             ErrorLatestFinalizedBlock()
         );
-        Block memory oldBlock = abi.decode(
-            dispute.virtualVotingBlocks[0].encodedBlock,
-            (Block)
-        );
-        Block memory newBlock = abi.decode(
-            virtualVotingBlocks[0].encodedBlock,
-            (Block)
-        );
-        require(
-            newBlock.transaction.header.transactionCnt >=
-                oldBlock.transaction.header.transactionCnt,
-            ErrorChallengeNewFinalizedBeforeOldFinalized()
-        );
+        //a dispute on the genesis state has no blocks
+        if (dispute.virtualVotingBlocks.length > 0) {
+            require(
+                virtualVotingBlocks.length > 0,
+                ErrorChallengeNewFinalizedBeforeOldFinalized()
+            );
+            Block memory oldBlock = abi.decode(
+                dispute.virtualVotingBlocks[0].encodedBlock,
+                (Block)
+            );
+            Block memory newBlock = abi.decode(
+                virtualVotingBlocks[0].encodedBlock,
+                (Block)
+            );
+            require(
+                newBlock.transaction.header.transactionCnt >=
+                    oldBlock.transaction.header.transactionCnt,
+                ErrorChallengeNewFinalizedBeforeOldFinalized()
+            );
+        }
         copyConfirmedBlockArrayIntoStorage(
             dispute.virtualVotingBlocks,
             virtualVotingBlocks
-- 
2.43.0


From 12ae06fb6bbab6c11873124b78a1610f980aa190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:47 +0000
Subject: [PATCH 03/69] fix: replace the chain of a dispute instead of
 appending to it

---
 contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol | 1 +
 1 file changed, 1 insertion(+)

diff --git a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
index 08db35f..e869742 100644
--- a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
+++ b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
@@ -951,6 +951,7 @@ contract DisputeManagerFacet is StateChannelCommon {
         ConfirmedBlock[] storage _storage,
         ConfirmedBlock[] memory _memory
     ) internal {
+        while (_storage.length > 0) _storage.pop();
         for (uint i = 0; i < _memory.length; i++) {
             _storage.push(_memory[i]);
         }
-- 
2.43.0


From fa5eee889669c65f1f72fe80860ba674dcbef1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:47 +0000
Subject: [PATCH 04/69] fix: a new dispute starts without the verdicts of the
 previous one

---
 .../StateChannelDiamondProxy/DisputeManagerFacet.sol   | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
index e869742..aed7da5 100644
--- a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
+++ b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
@@ -198,10 +198,14 @@ contract DisputeManagerFacet is StateChannelCommon {
         dispute.encodedLatestFinalizedState = encodedLatestFinalizedState;
         dispute.encodedLatestCorrectState = encodedLatestCorrectState;
         dispute.timedoutParticipant = timedoutParticipant;
-        if (dispute.timedoutParticipant != address(0))
-            dispute.timeoutDisputer = msg.sender;
+        dispute.timeoutDisputer = dispute.timedoutParticipant != address(0)
+            ? msg.sender
+            : address(0);
         dispute.postedStateDisputer = msg.sender;
-        // dispute.slashedParticipants = []; //default empty array
+        //a previous dispute on this channel must not leak into this one
+        delete dispute.slashedParticipants;
+        delete dispute.joinChannelParticipants;
+        delete dispute.leaveChannelParticipants;
         dispute.participants = participants;
         dispute.creationTimestamp = block.timestamp;
         dispute.deadlineTimestamp = block.timestamp + getChallengeTime();
-- 
2.43.0


From c98ab614da57af4774ab59c3e9fab7b1dbdf22d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:47 +0000
Subject: [PATCH 05/69] fix: a fold rechallenge needs a pending timeout

---
 contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
index aed7da5..67bdacf 100644
--- a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
+++ b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
@@ -463,6 +463,10 @@ contract DisputeManagerFacet is StateChannelCommon {
             foldRechallengeProof.signatures
         );
         require(succeeds, ErrorSignatureInvalid());
+        require(
+            dispute.timedoutParticipant != address(0),
+            ErrorDisputeInvalid()
+        );
         dispute.timedoutParticipant = address(0); //Undo the fold
         return
             insertIfNotExist(
-- 
2.43.0


From ff4535703cb95d811566319fde2a9626570fcdd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:47 +0000
Subject: [PATCH 06/69] fix: double sign proofs only concern participants

---
 .../V1/StateChannelDiamondProxy/DisputeManagerFacet.sol    | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
index 67bdacf..6cff6e6 100644
--- a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
+++ b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
@@ -521,6 +521,13 @@ contract DisputeManagerFacet is StateChannelCommon {
                 doubleSign.block2.signature
             );
             require(retrived1 == retrived2, ErrorDoubleSignSignersNotTheSame());
+            require(
+                StateChannelUtilLibrary.isAddressInArray(
+                    dispute.participants,
+                    retrived1
+                ),
+                ErrorNotParticipant()
+            );
             //If we're here - the proof is valid
             success =
                 insertIfNotExist(dispute.slashedParticipants, retrived1) ||
-- 
2.43.0


From 4adc053a5927b780c3d6088d783a5c470ae1c11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:47 +0000
Subject: [PATCH 07/69] fix: incorrect data proofs check the heights and
 authors of their blocks

---
 .../DisputeManagerFacet.sol                   | 20 +++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
index 6cff6e6..3556da4 100644
--- a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
+++ b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
@@ -577,9 +577,17 @@ contract DisputeManagerFacet is StateChannelCommon {
                 block2.transaction.header.forkCnt == dispute.forkCnt,
             ErrorDisputeForkMismatch()
         );
+        require(
+            StateChannelUtilLibrary.isAddressInArray(
+                dispute.participants,
+                retrived2
+            ),
+            ErrorNotParticipant()
+        );
         uint previousTimestamp;
         //If encodedState is genesis => Block2 is first block and block1 is just a copy of block2 and is ignored
         if (
+            block2.transaction.header.transactionCnt == 0 &&
             isGenesisState(
                 dispute.channelId,
                 dispute.forkCnt,
@@ -599,6 +607,18 @@ contract DisputeManagerFacet is StateChannelCommon {
         } else {
             //Not genesis - block2 builds on block1
             //Check linked
+            require(
+                StateChannelUtilLibrary.isAddressInArray(
+                    dispute.participants,
+                    retrived1
+                ),
+                ErrorNotParticipant()
+            );
+            require(
+                block1.transaction.header.transactionCnt + 1 ==
+                    block2.transaction.header.transactionCnt,
+                ErrorTransactionCountMismatch()
+            );
             require(
                 block2.previousStateHash == block1.stateHash,
                 ErrorIncorrectDataBlocksNotLinked()
-- 
2.43.0


From 4054f0ce1fc238726a178682550df86556804b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:47 +0000
Subject: [PATCH 08/69] fix: newer state proofs need a block above the posted
 chain

---
 .../DisputeManagerFacet.sol                   | 25 +++++++++++--------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
index 3556da4..262f84c 100644
--- a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
+++ b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
@@ -684,17 +684,20 @@ contract DisputeManagerFacet is StateChannelCommon {
             retrivedAddress == dispute.postedStateDisputer,
             ErrorNewerStateConfirmationInvalid()
         );
-        Block memory latestKnownBlock = abi.decode(
-            dispute
-                .virtualVotingBlocks[dispute.virtualVotingBlocks.length - 1]
-                .encodedBlock,
-            (Block)
-        );
-        require(
-            _block.transaction.header.transactionCnt >=
-                latestKnownBlock.transaction.header.transactionCnt,
-            ErrorTransactionCountMismatch()
-        );
+        //without blocks the genesis state was posted and every block is newer
+        if (dispute.virtualVotingBlocks.length > 0) {
+            Block memory latestKnownBlock = abi.decode(
+                dispute
+                    .virtualVotingBlocks[dispute.virtualVotingBlocks.length - 1]
+                    .encodedBlock,
+                (Block)
+            );
+            require(
+                _block.transaction.header.transactionCnt >
+                    latestKnownBlock.transaction.header.transactionCnt,
+                ErrorTransactionCountMismatch()
+            );
+        }
         return
             insertIfNotExist(
                 dispute.slashedParticipants,
-- 
2.43.0


From 188668e0e09979fe50b7a06fdc3ecca184a5fbae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:47 +0000
Subject: [PATCH 09/69] fix: a prior block proof times out the author of the
 named block

---
 .../V1/StateChannelDiamondProxy/DisputeManagerFacet.sol      | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
index 262f84c..ecd40c0 100644
--- a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
+++ b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
@@ -719,7 +719,10 @@ contract DisputeManagerFacet is StateChannelCommon {
             if (
                 _block.transaction.header.transactionCnt ==
                 foldPriorBlockProof.transactionCnt
-            ) isTransactionCntInVirtualVotes = true;
+            ) {
+                isTransactionCntInVirtualVotes = true;
+                break;
+            }
         }
         require(
             isTransactionCntInVirtualVotes,
-- 
2.43.0


From a6753c4ed7f6417a99ee6914858d0cc8f501f3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:47 +0000
Subject: [PATCH 10/69] fix: join proofs are rejected after, not before, their
 deadline

---
 contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
index ecd40c0..b976080 100644
--- a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
+++ b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
@@ -837,7 +837,7 @@ contract DisputeManagerFacet is StateChannelCommon {
         );
         require(!isParticipant, ErrorJoinChannelAlreadyInChannel());
         require(
-            block.timestamp > jc.deadlineTimestamp,
+            jc.deadlineTimestamp > block.timestamp,
             ErrorJoinChannelExpired()
         );
         require(
-- 
2.43.0


From bce1a33af2131bff3252e256ee63062d350e7c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:47 +0000
Subject: [PATCH 11/69] fix: joining with agreement uses the internal state
 machine hook

---
 .../V1/StateChannelDiamondProxy/AStateChannelManagerProxy.sol   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contracts/V1/StateChannelDiamondProxy/AStateChannelManagerProxy.sol b/contracts/V1/StateChannelDiamondProxy/AStateChannelManagerProxy.sol
index 9ee6327..d3cf59f 100644
--- a/contracts/V1/StateChannelDiamondProxy/AStateChannelManagerProxy.sol
+++ b/contracts/V1/StateChannelDiamondProxy/AStateChannelManagerProxy.sol
@@ -133,7 +133,7 @@ abstract contract AStateChannelManagerProxy is
         JoinChannel[] memory joinCahnnels = new JoinChannel[](1);
         joinCahnnels[0] = joinChannel;
         uint successCnt;
-        (encodedState, successCnt) = applyJoinChannelToStateMachine(
+        (encodedState, successCnt) = _applyJoinChannelToStateMachine(
             encodedState,
             joinCahnnels
         );
-- 
2.43.0


From 65103456af6cf731c17d44e5fbbec3d6870d575a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:47 +0000
Subject: [PATCH 12/69] fix: leaving with agreement uses the internal state
 machine hook

---
 .../V1/StateChannelDiamondProxy/AStateChannelManagerProxy.sol   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contracts/V1/StateChannelDiamondProxy/AStateChannelManagerProxy.sol b/contracts/V1/StateChannelDiamondProxy/AStateChannelManagerProxy.sol
index d3cf59f..1d54bb9 100644
--- a/contracts/V1/StateChannelDiamondProxy/AStateChannelManagerProxy.sol
+++ b/contracts/V1/StateChannelDiamondProxy/AStateChannelManagerProxy.sol
@@ -206,7 +206,7 @@ abstract contract AStateChannelManagerProxy is
             bytes memory encodedState,
             ProcessExit[] memory pe,
             uint successCnt
-        ) = removeParticipantsFromStateMachine(encodedState, p);
+        ) = _removeParticipantsFromStateMachine(encodedState, p);
         require(
             successCnt == 1,
             "AStateChannelManager: leaveChannelWithAgreement - removeParticipantsFromStateMachine failed"
-- 
2.43.0


From 3aae645dc3d8ccfb0dad6a2df08499998e0ac3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:47 +0000
Subject: [PATCH 13/69] fix: a timeout at height zero is only possible on the
 genesis state

---
 .../V1/StateChannelDiamondProxy/DisputeManagerFacet.sol     | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
index b976080..15d306a 100644
--- a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
+++ b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
@@ -150,7 +150,11 @@ contract DisputeManagerFacet is StateChannelCommon {
                     ErrorTimeoutNotLinkedToPreviousBlock()
                 );
                 latestTimestamp = lastBlock.transaction.header.timestamp;
-            }
+            } else
+                require(
+                    virtualVotingBlocks.length == 0,
+                    ErrorTimeoutNotLinkedToPreviousBlock()
+                );
             require(
                 timedoutParticipant ==
                     getNextToWrite(channelId, encodedLatestCorrectState),
-- 
2.43.0


From a516ea95510b32a023929c2a1b9f30fd2921b2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:47 +0000
Subject: [PATCH 14/69] fix: a new dispute does not drop the exits of the
 previous one

---
 .../V1/StateChannelDiamondProxy/DisputeManagerFacet.sol      | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
index 15d306a..4e1365b 100644
--- a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
+++ b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
@@ -191,6 +191,11 @@ contract DisputeManagerFacet is StateChannelCommon {
             require(timedoutParticipant != msg.sender, ErrorTimeoutSelf());
         }
         Dispute storage dispute = disputes[channelId];
+        //the exits of the previous dispute are final now, they would be lost below
+        ProcessExit[] memory oldExits = dispute.processExits;
+        delete dispute.processExits;
+        for (uint i = 0; i < oldExits.length; i++)
+            removeParticipantComposable(channelId, oldExits[i]);
         dispute.channelId = channelId;
         dispute.forkCnt = forkCnt;
         dispute.challengeCnt = 0; //this can be removed - default value
-- 
2.43.0


From 90a4556b3363bb17c06b2a513b19af1db2c097a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:04 +0000
Subject: [PATCH 15/69] fix: blocks enter a fork only at its next height

---
 src/agreementManager/ForkService.ts | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/agreementManager/ForkService.ts b/src/agreementManager/ForkService.ts
index e82388c..be9a04b 100644
--- a/src/agreementManager/ForkService.ts
+++ b/src/agreementManager/ForkService.ts
@@ -55,6 +55,12 @@ export default class ForkService {
                 "AgreementManager - addBlock - double sign or incorrect data"
             );
 
+        if (BlockUtils.getHeight(block) !== this.forks[forkCnt].agreements.length)
+            // agreements are indexed by height - a gap would misplace the block
+            throw new Error(
+                "AgreementManager - addBlock - height is not the next height"
+            );
+
         this.addAgreement(forkCnt, {
             block,
             blockSignatures: [originalSignature],
-- 
2.43.0


From 1ae24fadf082ebe332aa9f4df214503ad40edd64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:26 +0000
Subject: [PATCH 16/69] fix: dispute proofs are encoded with the types the
 contract decodes

---
 src/types/disputes.ts | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/types/disputes.ts b/src/types/disputes.ts
index bb79ad7..4039b69 100644
--- a/src/types/disputes.ts
+++ b/src/types/disputes.ts
@@ -1,7 +1,7 @@
 import { SignedBlockEthersType } from "./ethers";
 
 export const FoldRechallengeProofEthersType = `tuple(
-    string encodedBlock,
+    bytes encodedBlock,
     bytes[] signatures
     )`;
 
@@ -11,14 +11,14 @@ export const DoubleSignProofEthersType = `tuple(
 export const IncorrectDataProofEthersType = `tuple(
     ${SignedBlockEthersType} block1,
     ${SignedBlockEthersType} block2,
-    string encodedState
+    bytes encodedState
     )`;
 export const NewerStateProofEthersType = `tuple(
-    string encodedBlock,
-    string confirmationSignature
+    bytes encodedBlock,
+    bytes confirmationSignature
     )`;
 export const FoldPriorBlockProofEthersType = `tuple(
-    uint moveCnt
+    uint transactionCnt
     )`;
 export const BlockTooFarInFutureProofEthersType = `tuple(
     ${SignedBlockEthersType} block1
-- 
2.43.0


From 73fa2e99bdf9596da9ec4dfe03ec8b2b34a35402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:26 +0000
Subject: [PATCH 17/69] fix: a join agreement is encoded with the fields of the
 contract

---
 src/types/ethers.ts | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/types/ethers.ts b/src/types/ethers.ts
index d974dba..181becc 100644
--- a/src/types/ethers.ts
+++ b/src/types/ethers.ts
@@ -35,8 +35,10 @@ export const SignedJoinChannelEthersType = `tuple(
 
 export const JoinChannelAgreementEthersType = `tuple(
                   ${SignedJoinChannelEthersType} signedJoinChannel,
-                  uint nextTransactionCnt,
-                  bytes32 latestStateHash)`;
+                  address submitter,
+                  uint forkCnt,
+                  uint transactionCnt,
+                  bytes32 previousStateHash)`;
 
 export const ConfirmedJoinChannelAgreementEthersType = `tuple(
                     bytes encodedJoinChannelAgreement,
-- 
2.43.0


From 2da0ad334d57f2d459771ffe8442e99ad3e30a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:45 +0000
Subject: [PATCH 18/69] fix: a block whose validation fails is neither
 confirmed nor leaves the node locked

---
 src/stateManager/StateManager.ts | 26 +++++++-------------------
 1 file changed, 7 insertions(+), 19 deletions(-)

diff --git a/src/stateManager/StateManager.ts b/src/stateManager/StateManager.ts
index ab76248..a82dc2d 100644
--- a/src/stateManager/StateManager.ts
+++ b/src/stateManager/StateManager.ts
@@ -231,37 +231,25 @@ class StateManager {
         signedBlock: SignedBlockStruct,
         block?: BlockStruct
     ): Promise<ExecutionFlags> {
-        // Default everything to SUCCESS + no AgreementFlag
-        let finalExecutionFlag: ExecutionFlags = ExecutionFlags.SUCCESS;
-        let finalAgreementFlag: AgreementFlag | undefined = undefined;
         const decodedBlock =
             block ?? EvmUtils.decodeBlock(signedBlock.encodedBlock);
 
+        await this.mutex.lock();
         try {
-            await this.mutex.lock();
             const result = await this.validationService.validateSignedBlock(
                 signedBlock,
                 decodedBlock
             );
 
-            finalExecutionFlag = result.flag;
-            finalAgreementFlag = result.agreementFlag;
-
-            return finalExecutionFlag;
-        } finally {
-            // Safety check: must have an execution flag
-            if (finalExecutionFlag === undefined) {
-                throw new Error(
-                    "StateManager - onSignedBlock - Internal Error - flag undefined"
-                );
-            }
-
-            // Process the final decision
+            // Process the final decision - only a completed validation may be acted upon
             await this.processExecutionDecision(
                 signedBlock,
-                finalExecutionFlag,
-                finalAgreementFlag
+                result.flag,
+                result.agreementFlag
             );
+
+            return result.flag;
+        } finally {
             this.mutex.unlock();
         }
     }
-- 
2.43.0


From 0b1c372d6571d50dba91cea48b3d6f7dae1568d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:18 +0000
Subject: [PATCH 19/69] fix: a block with a timestamp before the agreed chain
 is judged incorrect

---
 src/stateManager/ValidationService.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/stateManager/ValidationService.ts b/src/stateManager/ValidationService.ts
index dd8f32f..fb5d839 100644
--- a/src/stateManager/ValidationService.ts
+++ b/src/stateManager/ValidationService.ts
@@ -222,7 +222,8 @@ export default class ValidationService {
             blockHeight
         );
 
-        if (blockTimestamp < latestTxTs) throw new Error("Not implemented");
+        // timestamps never go back - the contract judges such a block as incorrect
+        if (blockTimestamp < latestTxTs) return false;
 
         if (blockTimestamp > initialReferenceTime + this.timeCfg.p2pTime) {
             const chainTs = Number(
-- 
2.43.0


From f7874f0f13c51799bec17dbcd28d8e7661310811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:27 +0000
Subject: [PATCH 20/69] fix: a refused block leaves the state machine at the
 agreed state

---
 src/stateManager/ValidationService.ts | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/stateManager/ValidationService.ts b/src/stateManager/ValidationService.ts
index fb5d839..a746fea 100644
--- a/src/stateManager/ValidationService.ts
+++ b/src/stateManager/ValidationService.ts
@@ -165,9 +165,8 @@ export default class ValidationService {
         block: BlockStruct,
         signed: SignedBlockStruct
     ): Promise<ValidationResult> {
-        const previousStateHash = await this.stateMachine
-            .getState()
-            .then(ethers.keccak256);
+        const previousState = await this.stateMachine.getState();
+        const previousStateHash = ethers.keccak256(previousState);
         let { success: txOK, successCallback } =
             await this.stateMachine.stateTransition(block.transaction);
 
@@ -178,7 +177,11 @@ export default class ValidationService {
             stateHash === block.stateHash &&
             previousStateHash === block.previousStateHash;
 
-        if (!txOK || !hashOK) return dispute(AgreementFlag.INCORRECT_DATA);
+        if (!txOK || !hashOK) {
+            // the block is not adopted - neither is its state
+            if (txOK) await this.stateMachine.setState(previousState);
+            return dispute(AgreementFlag.INCORRECT_DATA);
+        }
 
         this.agreementManager.addBlock(
             block,
-- 
2.43.0


From 8167f5a173af2e18fff7949811f3e1687ad015cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:18 +0000
Subject: [PATCH 21/69] fix: a dispute raised during validation does not fail
 the processing of the block

---
 src/stateManager/processExecutionDecisionHandlers.ts | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/stateManager/processExecutionDecisionHandlers.ts b/src/stateManager/processExecutionDecisionHandlers.ts
index 117cb4e..93daa28 100644
--- a/src/stateManager/processExecutionDecisionHandlers.ts
+++ b/src/stateManager/processExecutionDecisionHandlers.ts
@@ -48,11 +48,8 @@ export const executionDecisionHandlers: Record<
     [ExecutionFlags.DISCONNECT]: async () => {},
 
     [ExecutionFlags.DISPUTE]: async (signedBlock, agreementFlag, ctx) => {
-        if (agreementFlag == null) {
-            throw new Error(
-                `ExecutionFlags.DISPUTE triggered but no agreementFlag provided`
-            );
-        }
+        // without an agreementFlag the validation has already raised the dispute
+        if (agreementFlag == null) return;
 
         const disputeHandlerFn = disputeHandlers[agreementFlag];
         if (!disputeHandlerFn) {
-- 
2.43.0


From c184e8564d84c7bdeec9e4386b047e85d8516f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:56 +0000
Subject: [PATCH 22/69] fix: a stale transaction is not authored as a second
 block of its height

---
 src/stateManager/StateManager.ts | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/stateManager/StateManager.ts b/src/stateManager/StateManager.ts
index a82dc2d..a0b9215 100644
--- a/src/stateManager/StateManager.ts
+++ b/src/stateManager/StateManager.ts
@@ -327,6 +327,15 @@ class StateManager {
             if (!this.isChannelOpen()) {
                 throw new Error("Channel not open");
             }
+            // The transaction may have been prepared before another block got agreed to
+            if (
+                Number(tx.header.forkCnt) !== this.getForkCnt() ||
+                Number(tx.header.transactionCnt) !== this.getNextBlockHeight()
+            ) {
+                throw new Error(
+                    "Transaction is not the next one of the latest fork"
+                );
+            }
             if (!(await this.isMyTurn())) {
                 throw new Error(
                     `Not player turn - myAddress: ${String(this.signerAddress)} - nextToWrite: ${await this.stateMachine.getNextToWrite()}`
-- 
2.43.0


From 60859b49fd034ef92c544a42f1ecfeed5abcf884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:03 +0000
Subject: [PATCH 23/69] fix: a new state is taken over atomically and only for
 the next fork

---
 src/stateManager/StateManager.ts | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/stateManager/StateManager.ts b/src/stateManager/StateManager.ts
index a0b9215..fbbf893 100644
--- a/src/stateManager/StateManager.ts
+++ b/src/stateManager/StateManager.ts
@@ -213,17 +213,24 @@ class StateManager {
         _timestamp: BigNumberish
     ): Promise<void> {
         console.log("StateManager - SetState", _forkCnt, _timestamp);
-        await this.stateMachine.setState(encodedState);
-        this.agreementManager.newFork(
-            encodedState,
-            await this.stateMachine.getParticipants(),
-            Number(_forkCnt),
-            Number(_timestamp)
-        );
+        await this.mutex.lock();
+        try {
+            // Only the next fork may replace the current state
+            if (Number(_forkCnt) !== this.getForkCnt() + 1) return;
+            await this.stateMachine.setState(encodedState);
+            this.agreementManager.newFork(
+                encodedState,
+                await this.stateMachine.getParticipants(),
+                Number(_forkCnt),
+                Number(_timestamp)
+            );
 
-        //Try timeout next participant
-        this.p2pEventHooks.onSetState?.();
-        return this.onSuccessCommon();
+            //Try timeout next participant
+            this.p2pEventHooks.onSetState?.();
+            await this.onSuccessCommon();
+        } finally {
+            this.mutex.unlock();
+        }
     }
 
     // Passes the signedBlock through a verification pipeline and returns an execution flag based on the outcome
-- 
2.43.0


From f4b73f46b53c5ec420d8dc735351b3573c89430b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:18 +0000
Subject: [PATCH 24/69] fix: early block confirmations are queued in the
 agreement manager

---
 src/stateManager/StateManager.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/stateManager/StateManager.ts b/src/stateManager/StateManager.ts
index fbbf893..fdc6473 100644
--- a/src/stateManager/StateManager.ts
+++ b/src/stateManager/StateManager.ts
@@ -549,8 +549,9 @@ class StateManager {
         const ctx: ConfirmationDecisionContext = {
             isDisposed: this.isDisposed,
             tryConfirmFromQueue: this.tryConfirmFromQueue.bind(this),
-            queueConfirmation:
-                this.agreementManager.queueConfirmation.bind(this)
+            queueConfirmation: this.agreementManager.queueConfirmation.bind(
+                this.agreementManager
+            )
         };
 
         await processConfirmationDecision(
-- 
2.43.0


From a7ab300bdfd608b2a805b3003cfa9aabd1a1c64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:37 +0000
Subject: [PATCH 25/69] fix: votes never finalize a state equal to the genesis
 state of a fork

---
 src/agreementManager/AgreementManager.ts | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/agreementManager/AgreementManager.ts b/src/agreementManager/AgreementManager.ts
index 83dee02..25f6ed7 100644
--- a/src/agreementManager/AgreementManager.ts
+++ b/src/agreementManager/AgreementManager.ts
@@ -311,8 +311,12 @@ class AgreementManager {
                 signersAddresses
             );
 
-            // Check if we found a finalized state
-            if (requiredSignatures.size === 0) {
+            // Check if we found a finalized state - the contract takes a state equal to
+            // the genesis state for the start of the fork, so the votes must go on to there
+            if (
+                requiredSignatures.size === 0 &&
+                agreement.encodedState !== fork.forkGenesisStateEncoded
+            ) {
                 encodedLatestFinalizedState = agreement.encodedState;
                 // found a finalized state - break the loop
                 break;
-- 
2.43.0


From cca1f958a7ea073887eb0fd5f43c79f01f3e76d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:07 +0000
Subject: [PATCH 26/69] fix: a dispute without a timeout names the zero address

---
 src/DisputeHandler.ts                 | 2 +-
 src/stateManager/StateManager.ts      | 4 ++--
 src/stateManager/ValidationService.ts | 9 ++++++---
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/DisputeHandler.ts b/src/DisputeHandler.ts
index e2b34d7..5a5e4e8 100644
--- a/src/DisputeHandler.ts
+++ b/src/DisputeHandler.ts
@@ -13,7 +13,7 @@ import ProofManager from "./ProofManager";
 let DEBUG_DISPUTE_HANDLER = true;
 
 // Constants for commonly used values
-const NO_PARTICIPANT_TO_FOLD = "0x00";
+const NO_PARTICIPANT_TO_FOLD = ethers.ZeroAddress;
 const INITIAL_TRANSACTION_COUNT = 0;
 
 type ForkCnt = number;
diff --git a/src/stateManager/StateManager.ts b/src/stateManager/StateManager.ts
index fdc6473..b3b5c6b 100644
--- a/src/stateManager/StateManager.ts
+++ b/src/stateManager/StateManager.ts
@@ -147,7 +147,7 @@ class StateManager {
                 ]);
             this.disputeHandler.createDispute(
                 block.transaction.header.forkCnt,
-                "0x00",
+                ethers.ZeroAddress,
                 0,
                 [disputeProof]
             );
@@ -159,7 +159,7 @@ class StateManager {
                 );
             this.disputeHandler.createDispute(
                 block.transaction.header.forkCnt,
-                "0x00",
+                ethers.ZeroAddress,
                 0,
                 [disputeProof]
             );
diff --git a/src/stateManager/ValidationService.ts b/src/stateManager/ValidationService.ts
index a746fea..bb0450f 100644
--- a/src/stateManager/ValidationService.ts
+++ b/src/stateManager/ValidationService.ts
@@ -205,9 +205,12 @@ export default class ValidationService {
         );
         if (flag === ExecutionFlags.DISPUTE) {
             const proof = ProofManager.createBlockTooFarInFutureProof(signed);
-            this.disputeHandler.createDispute(this.getForkCnt(), "0x00", 0, [
-                proof
-            ]);
+            this.disputeHandler.createDispute(
+                this.getForkCnt(),
+                ethers.ZeroAddress,
+                0,
+                [proof]
+            );
         }
         return flag;
     }
-- 
2.43.0


From 0ac813d61f320d6cdaec29763d6878efabbd5273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:54 +0000
Subject: [PATCH 27/69] fix: a timeout is rechallenged whatever the number type
 of its height

---
 src/ProofManager.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ProofManager.ts b/src/ProofManager.ts
index 47774df..4a219a4 100644
--- a/src/ProofManager.ts
+++ b/src/ProofManager.ts
@@ -217,7 +217,7 @@ class ProofManager {
         const block = EvmUtils.decodeBlock(foldRechallengeProof.encodedBlock);
         const sameTransactionCnt =
             Number(block.transaction.header.transactionCnt) ===
-            dispute.foldedTransactionCnt;
+            Number(dispute.foldedTransactionCnt);
         const sameParticipant =
             block.transaction.header.participant ===
             dispute.timedoutParticipant;
-- 
2.43.0


From aadd75793f9650a198835f20553f0134a4bc8159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:54 +0000
Subject: [PATCH 28/69] fix: an incorrect block is proven against its agreed
 predecessor

---
 src/ProofManager.ts | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/ProofManager.ts b/src/ProofManager.ts
index 4a219a4..4ab5e96 100644
--- a/src/ProofManager.ts
+++ b/src/ProofManager.ts
@@ -408,21 +408,22 @@ class ProofManager {
 
         const priorEncodedState = this.agreementManager.getEncodedState(
             forkCnt,
-            transactionCnt
+            transactionCnt - 1
         );
 
         if (!priorEncodedState) {
             throw new Error(
-                `Prior encoded state not found for fork ${forkCnt}, transaction ${transactionCnt}`
+                `Prior encoded state not found for fork ${forkCnt}, transaction ${transactionCnt - 1}`
             );
         }
 
+        // block2 is the incorrect block, it builds on the state of block1
         return {
-            block1: incorrectBlockSigned,
-            block2: {
+            block1: {
                 encodedBlock: EvmUtils.encodeBlock(priorBlock),
                 signature: priorBlockOriginalSignature as string
             },
+            block2: incorrectBlockSigned,
             encodedState: priorEncodedState
         };
     }
-- 
2.43.0


From 92976ecfc6c6c6378e6828c5e2429a6b1459d5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:31 +0000
Subject: [PATCH 29/69] fix: newer state proofs are kept for the confirmer and
 against a genesis state

---
 src/DisputeHandler.ts |  3 ++-
 src/ProofManager.ts   | 31 +++++++++++++++++++++----------
 2 files changed, 23 insertions(+), 11 deletions(-)

diff --git a/src/DisputeHandler.ts b/src/DisputeHandler.ts
index 5a5e4e8..77ab70a 100644
--- a/src/DisputeHandler.ts
+++ b/src/DisputeHandler.ts
@@ -333,7 +333,8 @@ class DisputeHandler {
     }
 
     private getLastTransactionCount(dispute: DisputeStruct): number {
-        if (dispute.virtualVotingBlocks.length === 0) return 0;
+        // the genesis state precedes the first block
+        if (dispute.virtualVotingBlocks.length === 0) return -1;
 
         // Extract from the last block
         const lastBlock = EvmUtils.decodeBlock(
diff --git a/src/ProofManager.ts b/src/ProofManager.ts
index 4ab5e96..8d17bd6 100644
--- a/src/ProofManager.ts
+++ b/src/ProofManager.ts
@@ -1,4 +1,10 @@
-import { ethers, AddressLike, BigNumberish, BytesLike } from "ethers";
+import {
+    ethers,
+    AddressLike,
+    BigNumberish,
+    BytesLike,
+    SignatureLike
+} from "ethers";
 import * as dt from "@typechain-types/contracts/V1/DisputeTypes";
 import { SignedBlockStruct } from "@typechain-types/contracts/V1/DataTypes";
 import { getEthersTypeForDisputeProof, ProofType } from "@/types/disputes";
@@ -270,8 +276,20 @@ class ProofManager {
         ) as dt.NewerStateProofStruct;
 
         const block = EvmUtils.decodeBlock(newerStateProof.encodedBlock);
+        // the proof concerns the confirmer of the block, whoever authored it
+        const confirmer = EvmUtils.retrieveSignerAddressBlock(
+            block,
+            newerStateProof.confirmationSignature as SignatureLike
+        );
+
+        if (
+            confirmer !== dispute.postedStateDisputer ||
+            dispute.slashedParticipants.includes(confirmer)
+        )
+            return false;
 
-        if (dispute.virtualVotingBlocks.length === 0) return false;
+        // without blocks the genesis state was posted and every block is newer
+        if (dispute.virtualVotingBlocks.length === 0) return true;
 
         const latestBlock = EvmUtils.decodeBlock(
             dispute.virtualVotingBlocks[dispute.virtualVotingBlocks.length - 1]
@@ -285,14 +303,7 @@ class ProofManager {
             block.transaction.header.transactionCnt
         );
 
-        return (
-            !dispute.slashedParticipants.includes(
-                block.transaction.header.participant
-            ) &&
-            block.transaction.header.participant ===
-                dispute.postedStateDisputer &&
-            currentTransactionCnt > latestTransactionCnt
-        );
+        return currentTransactionCnt > latestTransactionCnt;
     }
 
     public static isFoldPriorBlockValid(
-- 
2.43.0


From 4bef4bad4174e36732bd5687994d10357eff06cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:17 +0000
Subject: [PATCH 30/69] fix: a prior block proof is not kept once it had its
 effect

---
 src/ProofManager.ts | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/ProofManager.ts b/src/ProofManager.ts
index 8d17bd6..94168aa 100644
--- a/src/ProofManager.ts
+++ b/src/ProofManager.ts
@@ -315,7 +315,19 @@ class ProofManager {
             proof.encodedProof
         ) as dt.FoldPriorBlockProofStruct;
 
+        const priorBlock = dispute.virtualVotingBlocks
+            .map((confirmed) => EvmUtils.decodeBlock(confirmed.encodedBlock))
+            .find(
+                (block) =>
+                    Number(block.transaction.header.transactionCnt) ===
+                    Number(foldPriorBlockProof.transactionCnt)
+            );
+
+        // timing out the same participant again changes nothing
         return (
+            priorBlock !== undefined &&
+            priorBlock.transaction.header.participant !==
+                dispute.timedoutParticipant &&
             foldPriorBlockProof.transactionCnt < dispute.foldedTransactionCnt &&
             dispute.timedoutParticipant !== ethers.ZeroAddress
         );
-- 
2.43.0


From 6d3571269e03cfa9ea8a52ac732d3f97cdb3aab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:14 +0000
Subject: [PATCH 31/69] fix: a challenge names the current challenge number of
 the dispute

---
 src/DisputeHandler.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DisputeHandler.ts b/src/DisputeHandler.ts
index 77ab70a..cbf6ffb 100644
--- a/src/DisputeHandler.ts
+++ b/src/DisputeHandler.ts
@@ -281,7 +281,7 @@ class DisputeHandler {
                 .challengeDispute(
                     this.channelId,
                     dispute.forkCnt,
-                    Number(dispute.challengeCnt) + 1,
+                    dispute.challengeCnt,
                     proofs,
                     virtualVotingBlocks,
                     encodedLatestFinalizedState,
-- 
2.43.0


From 881a094c1e63abcd7835a936fcd52dbd1dd7b6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:44 +0000
Subject: [PATCH 32/69] fix: a slashed participant does not challenge the
 dispute

---
 src/DisputeHandler.ts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/DisputeHandler.ts b/src/DisputeHandler.ts
index cbf6ffb..e6fff26 100644
--- a/src/DisputeHandler.ts
+++ b/src/DisputeHandler.ts
@@ -264,6 +264,9 @@ class DisputeHandler {
             return; // Early return if we already have a newer dispute
         }
 
+        // a slashed participant can't challenge
+        if (dispute.slashedParticipants.includes(this.signerAddress)) return;
+
         //proofs
         const proofs = this.extractProofs(dispute);
         if (proofs.length == 0) return; //no proofs - no need to rechallenge
-- 
2.43.0


From 824ff1f6f55b56649970bf2fae8cf9c7a118aa8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:34 +0000
Subject: [PATCH 33/69] fix: a timeout is undone even if the party that raised
 it is already slashed

---
 .../V1/StateChannelDiamondProxy/DisputeManagerFacet.sol   | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
index 4e1365b..be9f608 100644
--- a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
+++ b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
@@ -477,11 +477,9 @@ contract DisputeManagerFacet is StateChannelCommon {
             ErrorDisputeInvalid()
         );
         dispute.timedoutParticipant = address(0); //Undo the fold
-        return
-            insertIfNotExist(
-                dispute.slashedParticipants,
-                dispute.timeoutDisputer
-            );
+        insertIfNotExist(dispute.slashedParticipants, dispute.timeoutDisputer);
+        //undoing the fold is a success, even if its disputer is already slashed
+        return true;
     }
 
     function applyDoubleSignProof(
-- 
2.43.0


From a27fc8639c7563aceaf32d6c99e3e07101a814f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:38 +0000
Subject: [PATCH 34/69] fix: proofs derived from the records are submitted once
 and first

---
 src/DisputeHandler.ts | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/src/DisputeHandler.ts b/src/DisputeHandler.ts
index e6fff26..bc81216 100644
--- a/src/DisputeHandler.ts
+++ b/src/DisputeHandler.ts
@@ -310,6 +310,8 @@ class DisputeHandler {
     private extractProofs(dispute: DisputeStruct): ProofStruct[] {
         const forkCnt = Number(dispute.forkCnt);
         const transactionCnt = Number(dispute.foldedTransactionCnt);
+        // proofs derived from the records come first and are not kept - submitting them twice fails
+        const proofs: ProofStruct[] = [];
 
         // Can challenge timeout?
         if (dispute.timedoutParticipant !== ethers.ZeroAddress) {
@@ -317,9 +319,7 @@ class DisputeHandler {
                 forkCnt,
                 transactionCnt
             );
-            if (timeoutProof) {
-                this.addProof(forkCnt, timeoutProof);
-            }
+            if (timeoutProof) proofs.push(timeoutProof);
         }
         // Handle newer state proof
         const lastTransactionCnt = this.getLastTransactionCount(dispute);
@@ -329,10 +329,13 @@ class DisputeHandler {
             lastTransactionCnt
         );
 
-        if (newerStateProof) this.addProof(forkCnt, newerStateProof);
+        if (newerStateProof) proofs.push(newerStateProof);
 
         // Return filtered proofs
-        return this.filterProofs(dispute);
+        return ProofManager.filterValidProofs(dispute, [
+            ...proofs,
+            ...(this.localProofs.get(forkCnt) ?? [])
+        ]);
     }
 
     private getLastTransactionCount(dispute: DisputeStruct): number {
@@ -345,14 +348,6 @@ class DisputeHandler {
         );
         return Number(lastBlock.transaction.header.transactionCnt);
     }
-
-    // Filters valid proofs
-    private filterProofs(dispute: DisputeStruct): ProofStruct[] {
-        return ProofManager.filterValidProofs(
-            dispute,
-            this.localProofs.get(Number(dispute.forkCnt))
-        );
-    }
 }
 
 export default DisputeHandler;
-- 
2.43.0


From f1dcfe98882a103f82d65622d28fd0e41314ffe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:09 +0000
Subject: [PATCH 35/69] fix: evidence is used when somebody else's dispute came
 first

---
 src/DisputeHandler.ts | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/DisputeHandler.ts b/src/DisputeHandler.ts
index bc81216..4943de3 100644
--- a/src/DisputeHandler.ts
+++ b/src/DisputeHandler.ts
@@ -160,24 +160,35 @@ class DisputeHandler {
         proofs.forEach((proof) => this.addProof(forkCntNumber, proof));
         const _dispute = this.disputes.get(forkCntNumber);
         if (!_dispute) {
-            await this.createNewDispute(
-                forkCnt,
-                foldedParticipant,
-                foldedTransactionCnt,
-                proofs
-            );
+            try {
+                await this.createNewDispute(
+                    forkCnt,
+                    foldedParticipant,
+                    foldedTransactionCnt,
+                    proofs
+                );
+            } catch (e) {
+                // somebody else may have been first - then the proofs challenge their dispute
+                console.log("DisputeHandler - createDispute - failed", e);
+            }
         }
 
         const newDispute = await this.stateChannelManagerContract.getDispute(
             this.channelId
         );
         //TODO! check newDispute 0000 bytes
-        if (newDispute.channelId == ethers.ZeroHash) {
+        if (
+            newDispute.channelId == ethers.ZeroHash ||
+            Number(newDispute.forkCnt) !== forkCntNumber
+        ) {
             throw new Error(
                 "DisputeHandler - createDispute - no dispute created"
             );
         }
-        await this.rechallengeRecursive(newDispute);
+        if (this.updateDisputeIfNewer(newDispute) || _dispute) {
+            // the proofs are new even if the dispute isn't
+            await this.challenge(newDispute);
+        }
     }
 
     private async createNewDispute(
@@ -263,7 +274,10 @@ class DisputeHandler {
         if (!this.updateDisputeIfNewer(dispute)) {
             return; // Early return if we already have a newer dispute
         }
+        return this.challenge(dispute);
+    }
 
+    private async challenge(dispute: DisputeStruct): Promise<void> {
         // a slashed participant can't challenge
         if (dispute.slashedParticipants.includes(this.signerAddress)) return;
 
-- 
2.43.0


From d8338a7593f44af8f3e55080b512ec89b43d5e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:53 +0000
Subject: [PATCH 36/69] fix: a dispute that fails in the background is
 contained

---
 src/stateManager/StateManager.ts              | 52 +++++++------------
 src/stateManager/ValidationService.ts         | 13 ++---
 .../processExecutionDecisionHandlers.ts       | 13 ++++-
 3 files changed, 36 insertions(+), 42 deletions(-)

diff --git a/src/stateManager/StateManager.ts b/src/stateManager/StateManager.ts
index b3b5c6b..6aeb572 100644
--- a/src/stateManager/StateManager.ts
+++ b/src/stateManager/StateManager.ts
@@ -13,10 +13,7 @@ import {
 import AgreementManager from "../agreementManager/AgreementManager";
 import { AgreementFlag, ExecutionFlags, TimeConfig } from "@/types";
 import { AStateChannelManagerProxy } from "@typechain-types";
-import {
-    ProofStruct,
-    DisputeStruct
-} from "@typechain-types/contracts/V1/DisputeTypes";
+import { DisputeStruct } from "@typechain-types/contracts/V1/DisputeTypes";
 import Clock from "@/Clock";
 import DisputeHandler from "@/DisputeHandler";
 import P2PManager from "@/P2PManager";
@@ -124,7 +121,9 @@ class StateManager {
     }
     //Triggered by the On-chain Event Listener when a dispute is emitted on-chain
     public onDisputeUpdate(dispute: DisputeStruct) {
-        this.disputeHandler.onDispute(dispute);
+        this.disputeHandler.onDispute(dispute).catch((error) => {
+            console.log("Error challenging dispute", error);
+        });
         this.p2pEventHooks.onDisputeUpdate?.(dispute);
     }
     //Triggered by the On-chain Event Listener when block calldata is posted on-chain
@@ -137,33 +136,18 @@ class StateManager {
             signedBlock,
             Number(timestamp)
         );
-        let block = EvmUtils.decodeBlock(signedBlock.encodedBlock);
-        let disputeProof: ProofStruct;
+        // the dispute is raised in the background - a failure doesn't concern the posting
+        let dispute: Promise<void> | undefined;
         if (flag == AgreementFlag.DOUBLE_SIGN) {
             console.log("StateManager - collectOnChainBlock - double sign");
-            disputeProof =
-                this.disputeHandler.proofManager.createDoubleSignProof([
-                    signedBlock
-                ]);
-            this.disputeHandler.createDispute(
-                block.transaction.header.forkCnt,
-                ethers.ZeroAddress,
-                0,
-                [disputeProof]
-            );
+            dispute = this.disputeHandler.disputeDoubleSign([signedBlock]);
         } else if (flag == AgreementFlag.INCORRECT_DATA) {
             console.log("StateManager - collectOnChainBlock - incorrect data");
-            disputeProof =
-                this.disputeHandler.proofManager.createIncorrectDataProof(
-                    signedBlock
-                );
-            this.disputeHandler.createDispute(
-                block.transaction.header.forkCnt,
-                ethers.ZeroAddress,
-                0,
-                [disputeProof]
-            );
+            dispute = this.disputeHandler.disputeIncorrectData(signedBlock);
         }
+        dispute?.catch((error) => {
+            console.log("Error disputing posted block", error);
+        });
         console.log("StateManager - collectOnChainBlock - done");
         this.onSuccessCommon();
     }
@@ -459,26 +443,26 @@ class StateManager {
             (Clock.getTimeInSeconds() -
                 this.agreementManager.getLatestBlockTimestamp(forkCnt));
         if (delayTimeSeconds < 0) {
-            this.disputeHandler.createDispute(
+            console.log("Timeout participant!");
+            await this.disputeHandler.createDispute(
                 forkCnt,
                 participantAdr,
                 transactionCnt,
                 []
             );
-            console.log("Timeout participant!");
         } else {
             scheduleTask(
                 async () => {
-                    this.disputeHandler.createDispute(
+                    console.log(
+                        "Timeout participant! - delayed",
+                        delayTimeSeconds
+                    );
+                    await this.disputeHandler.createDispute(
                         forkCnt,
                         participantAdr,
                         transactionCnt,
                         []
                     );
-                    console.log(
-                        "Timeout participant! - delayed",
-                        delayTimeSeconds
-                    );
                 },
                 delayTimeSeconds * 1000,
                 "timeoutParticipantDelayed"
diff --git a/src/stateManager/ValidationService.ts b/src/stateManager/ValidationService.ts
index bb0450f..28b2121 100644
--- a/src/stateManager/ValidationService.ts
+++ b/src/stateManager/ValidationService.ts
@@ -205,12 +205,13 @@ export default class ValidationService {
         );
         if (flag === ExecutionFlags.DISPUTE) {
             const proof = ProofManager.createBlockTooFarInFutureProof(signed);
-            this.disputeHandler.createDispute(
-                this.getForkCnt(),
-                ethers.ZeroAddress,
-                0,
-                [proof]
-            );
+            this.disputeHandler
+                .createDispute(this.getForkCnt(), ethers.ZeroAddress, 0, [
+                    proof
+                ])
+                .catch((error) => {
+                    console.log("Error disputing block timestamp", error);
+                });
         }
         return flag;
     }
diff --git a/src/stateManager/processExecutionDecisionHandlers.ts b/src/stateManager/processExecutionDecisionHandlers.ts
index 93daa28..2bad9d9 100644
--- a/src/stateManager/processExecutionDecisionHandlers.ts
+++ b/src/stateManager/processExecutionDecisionHandlers.ts
@@ -12,6 +12,11 @@ export interface DecisionContext {
     forkCount: number;
 }
 
+// the dispute is raised in the background - a failure doesn't concern the block
+const logDisputeError = (error: unknown) => {
+    console.log("Error disputing block", error);
+};
+
 const disputeHandlers: Partial<
     Record<
         AgreementFlag,
@@ -19,10 +24,14 @@ const disputeHandlers: Partial<
     >
 > = {
     [AgreementFlag.DOUBLE_SIGN]: async (signedBlock, ctx) => {
-        ctx.disputeHandler.disputeDoubleSign([signedBlock]);
+        ctx.disputeHandler
+            .disputeDoubleSign([signedBlock])
+            .catch(logDisputeError);
     },
     [AgreementFlag.INCORRECT_DATA]: async (signedBlock, ctx) => {
-        ctx.disputeHandler.disputeIncorrectData(signedBlock);
+        ctx.disputeHandler
+            .disputeIncorrectData(signedBlock)
+            .catch(logDisputeError);
     }
 };
 
-- 
2.43.0


From 84a8a302960a84c1813a792b910afedb6228f530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:19 +0000
Subject: [PATCH 37/69] fix: a timeout is decided on what is known when it is
 raised

---
 src/stateManager/StateManager.ts | 102 +++++++++++++++++--------------
 1 file changed, 57 insertions(+), 45 deletions(-)

diff --git a/src/stateManager/StateManager.ts b/src/stateManager/StateManager.ts
index 6aeb572..fa41ac3 100644
--- a/src/stateManager/StateManager.ts
+++ b/src/stateManager/StateManager.ts
@@ -407,27 +407,7 @@ class StateManager {
         participantAdr: string
     ) {
         if (participantAdr == this.signerAddress) return;
-        const block = this.agreementManager.getBlock(forkCnt, transactionCnt);
-        if (block) {
-            if (this.agreementManager.didEveryoneSignBlock(block)) return;
-        }
-        //if there is no block -> check if player posted on chain and try timeout
-        if (
-            this.agreementManager.didParticipantPostOnChain(
-                forkCnt,
-                transactionCnt,
-                participantAdr
-            )
-        )
-            return;
-        if (
-            Clock.getTimeInSeconds() <
-            this.agreementManager.getChainLatestBlockTimestamp(
-                forkCnt,
-                transactionCnt
-            ) +
-                this.getTimeoutWaitTimeSeconds()
-        )
+        if (!this.isBlockMissing(forkCnt, transactionCnt, participantAdr))
             return;
         const response =
             await this.stateChannelManagerContract.getBlockCallData(
@@ -437,37 +417,69 @@ class StateManager {
                 participantAdr
             );
         if (response.found) return;
-        //This should be enough since Clock should always lag behind DLT clock
-        const delayTimeSeconds =
-            this.getTimeoutWaitTimeSeconds() -
-            (Clock.getTimeInSeconds() -
-                this.agreementManager.getLatestBlockTimestamp(forkCnt));
-        if (delayTimeSeconds < 0) {
+
+        let dispute: Promise<void>;
+        await this.mutex.lock();
+        try {
+            // the block may have arrived in the meantime
+            if (
+                !this.isBlockMissing(forkCnt, transactionCnt, participantAdr) ||
+                (await this.stateMachine.getNextToWrite()) !== participantAdr
+            )
+                return;
+            //This should be enough since Clock should always lag behind DLT clock
+            const delayTimeSeconds =
+                Math.max(
+                    this.agreementManager.getLatestBlockTimestamp(forkCnt),
+                    this.agreementManager.getChainLatestBlockTimestamp(
+                        forkCnt,
+                        transactionCnt
+                    )
+                ) +
+                this.getTimeoutWaitTimeSeconds() -
+                Clock.getTimeInSeconds();
+            if (delayTimeSeconds > 0) {
+                // everything is checked again after the delay
+                scheduleTask(
+                    () =>
+                        this.tryTimeoutParticipant(
+                            forkCnt,
+                            transactionCnt,
+                            participantAdr
+                        ),
+                    delayTimeSeconds * 1000,
+                    "timeoutParticipantDelayed"
+                );
+                return;
+            }
             console.log("Timeout participant!");
-            await this.disputeHandler.createDispute(
+            dispute = this.disputeHandler.createDispute(
                 forkCnt,
                 participantAdr,
                 transactionCnt,
                 []
             );
-        } else {
-            scheduleTask(
-                async () => {
-                    console.log(
-                        "Timeout participant! - delayed",
-                        delayTimeSeconds
-                    );
-                    await this.disputeHandler.createDispute(
-                        forkCnt,
-                        participantAdr,
-                        transactionCnt,
-                        []
-                    );
-                },
-                delayTimeSeconds * 1000,
-                "timeoutParticipantDelayed"
-            );
+        } finally {
+            this.mutex.unlock();
         }
+        await dispute;
+    }
+
+    // Is the block still awaited - neither agreed to nor posted on chain
+    private isBlockMissing(
+        forkCnt: number,
+        transactionCnt: number,
+        participantAdr: string
+    ): boolean {
+        return (
+            forkCnt === this.getForkCnt() &&
+            !this.agreementManager.getBlock(forkCnt, transactionCnt) &&
+            !this.agreementManager.didParticipantPostOnChain(
+                forkCnt,
+                transactionCnt,
+                participantAdr
+            )
+        );
     }
 
     private async onSuccessCommon() {
-- 
2.43.0


From 87737266fae953ff21d33314eaf86e73a0e8d156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:55 +0000
Subject: [PATCH 38/69] fix: answering a handshake challenge signs nothing but
 a handshake

---
 src/rpc/services/InitHandshakeService.ts | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/rpc/services/InitHandshakeService.ts b/src/rpc/services/InitHandshakeService.ts
index 8450d8b..aeb0ccc 100644
--- a/src/rpc/services/InitHandshakeService.ts
+++ b/src/rpc/services/InitHandshakeService.ts
@@ -51,10 +51,9 @@ class InitHandshakeService extends ARpcService {
         console.log(
             `onInitHandshakeRequest - localTime:${localTime} time:${time}`
         );
-        let challengeHashBytes = ethers.getBytes(challengeHash);
         let signature =
             await this.mainRpcService.p2pManager.p2pSigner.signMessage(
-                challengeHashBytes
+                this.getHandshakeMessage(challengeHash)
             );
         console.log(`onInitHandshakeRequest - done`);
         this.mainRpcService.rpcProxy
@@ -99,8 +98,10 @@ class InitHandshakeService extends ARpcService {
             return;
         }
         //verify signature
-        let challengeHashBytes = ethers.getBytes(challenge.randomChallengeHash);
-        let signerAddress = ethers.verifyMessage(challengeHashBytes, signature);
+        let signerAddress = ethers.verifyMessage(
+            this.getHandshakeMessage(challenge.randomChallengeHash),
+            signature
+        );
         // let p =
         //     this.p2pManager.profileManager.getProfileByEvmAddress(
         //         signerAddress
@@ -152,6 +153,15 @@ class InitHandshakeService extends ARpcService {
         //     .broadcast();
     }
 
+    // The challenge is chosen by the peer - what is signed must never be a valid signature for anything else (e.g. a block)
+    private getHandshakeMessage(challengeHash: string): Uint8Array {
+        return ethers.getBytes(
+            ethers.concat([
+                ethers.toUtf8Bytes("StateChannel - InitHandshake"),
+                challengeHash
+            ])
+        );
+    }
     private setChallenge(
         transport: ATransport,
         challenge: ConnectionChallenge
-- 
2.43.0


From 712a3dd2ab5228b339bef824792a4359c977c448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:59 +0000
Subject: [PATCH 39/69] fix: a handshake is answered on the connection that
 asked

---
 src/rpc/services/InitHandshakeService.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rpc/services/InitHandshakeService.ts b/src/rpc/services/InitHandshakeService.ts
index aeb0ccc..00d157e 100644
--- a/src/rpc/services/InitHandshakeService.ts
+++ b/src/rpc/services/InitHandshakeService.ts
@@ -31,6 +31,7 @@ class InitHandshakeService extends ARpcService {
     }
 
     public async onInitHandshakeRequest(challengeHash: string, time: number) {
+        let senderTransport = this.mainRpcService.senderTransport; // catch it here since async call below
         let localTime = Clock.getTimeInSeconds();
         if (
             Math.abs(time - localTime) >
@@ -62,7 +63,7 @@ class InitHandshakeService extends ARpcService {
                 localTime,
                 this.mainRpcService.p2pManager.preferredTransport
             )
-            .sendOne(this.mainRpcService.senderTransport!);
+            .sendOne(senderTransport!);
     }
 
     public async onInitHandshakeResponse(
-- 
2.43.0


From a3fbc467399d7cee91d9674938737d7bdb877789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:04 +0000
Subject: [PATCH 40/69] fix: a handshake challenge is neither reused nor
 reflected

---
 src/rpc/services/InitHandshakeService.ts | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/rpc/services/InitHandshakeService.ts b/src/rpc/services/InitHandshakeService.ts
index 00d157e..5718a0a 100644
--- a/src/rpc/services/InitHandshakeService.ts
+++ b/src/rpc/services/InitHandshakeService.ts
@@ -80,6 +80,8 @@ class InitHandshakeService extends ARpcService {
             this.mainRpcService.p2pManager.removeConnection(senderTransport);
             return;
         }
+        // every challenge is answered once
+        this.mapTransportToChallenge.delete(senderTransport);
         let localTime = Clock.getTimeInSeconds();
         let rtt = localTime - challenge.initTime;
         if (
@@ -103,6 +105,14 @@ class InitHandshakeService extends ARpcService {
             this.getHandshakeMessage(challenge.randomChallengeHash),
             signature
         );
+        // a reflected challenge - this node doesn't connect to itself
+        if (
+            signerAddress ===
+            this.mainRpcService.p2pManager.p2pSigner.signerAddress
+        ) {
+            this.mainRpcService.p2pManager.removeConnection(senderTransport);
+            return;
+        }
         // let p =
         //     this.p2pManager.profileManager.getProfileByEvmAddress(
         //         signerAddress
-- 
2.43.0


From 57929417fa37d326b7d8caaf91bd017037383478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:09 +0000
Subject: [PATCH 41/69] fix: a handshake needs the time of the peer

---
 src/rpc/services/InitHandshakeService.ts | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/rpc/services/InitHandshakeService.ts b/src/rpc/services/InitHandshakeService.ts
index 5718a0a..ea24f69 100644
--- a/src/rpc/services/InitHandshakeService.ts
+++ b/src/rpc/services/InitHandshakeService.ts
@@ -34,8 +34,10 @@ class InitHandshakeService extends ARpcService {
         let senderTransport = this.mainRpcService.senderTransport; // catch it here since async call below
         let localTime = Clock.getTimeInSeconds();
         if (
+            !Number.isFinite(time) ||
             Math.abs(time - localTime) >
-            this.mainRpcService.p2pManager.stateManager.timeConfig.agreementTime
+                this.mainRpcService.p2pManager.stateManager.timeConfig
+                    .agreementTime
         ) {
             //TODO!
             //Disconnect & resolve(false)
@@ -93,8 +95,10 @@ class InitHandshakeService extends ARpcService {
             return;
         }
         if (
+            !Number.isFinite(responseTime) ||
             Math.abs(responseTime - challenge.initTime) >
-            this.mainRpcService.p2pManager.stateManager.timeConfig.agreementTime
+                this.mainRpcService.p2pManager.stateManager.timeConfig
+                    .agreementTime
         ) {
             // TODO! Disconnect
             this.mainRpcService.p2pManager.removeConnection(senderTransport);
-- 
2.43.0


From 750549d83f3cda23460d77cc8085ce8704d02826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:42 +0000
Subject: [PATCH 42/69] fix: a removed connection is closed and no longer heard

---
 src/P2PManager.ts                   | 2 ++
 src/transport/HolepunchTransport.ts | 1 +
 src/transport/LocalTransport.ts     | 3 ++-
 src/transport/WebRTCTransport.ts    | 1 +
 4 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/P2PManager.ts b/src/P2PManager.ts
index 210c330..43c855a 100644
--- a/src/P2PManager.ts
+++ b/src/P2PManager.ts
@@ -91,6 +91,8 @@ class P2PManager implements IOnMessage {
         );
         let profile = this.profileManager.getProfileByTransport(transport);
         profile && this.profileManager.removeTransport(transport);
+        // also without a profile (e.g. a failed handshake)
+        transport.close();
     }
     public disconnectAll() {
         for (let transport of this.openConnections) {
diff --git a/src/transport/HolepunchTransport.ts b/src/transport/HolepunchTransport.ts
index 42e955a..96a5cc4 100644
--- a/src/transport/HolepunchTransport.ts
+++ b/src/transport/HolepunchTransport.ts
@@ -34,6 +34,7 @@ class HolepunchTransport extends ATransport {
         this.holepunchSocket.write(serializedRPC);
     }
     onMessage(data: any): void {
+        if (this.isClosed) return;
         this.p2pManager.localRpcService.senderTransport = this;
         let serializedRPC = data.toString();
         console.log("RECEIVED RPC", serializedRPC);
diff --git a/src/transport/LocalTransport.ts b/src/transport/LocalTransport.ts
index 0358cdc..6a59dd9 100644
--- a/src/transport/LocalTransport.ts
+++ b/src/transport/LocalTransport.ts
@@ -18,12 +18,13 @@ class LocalTransport extends ATransport {
         this.ws.send(serializedRPC);
     }
     onMessage(data: any): void {
+        if (this.isClosed) return;
         this.p2pManager.localRpcService.senderTransport = this;
         let serializedRPC = data.toString();
         this.p2pManager.onRpc(serializedRPC);
     }
     _close(): void {
-        throw new Error("Method not implemented."); //TODO!S
+        this.ws.close();
     }
 }
 export default LocalTransport;
diff --git a/src/transport/WebRTCTransport.ts b/src/transport/WebRTCTransport.ts
index eb7e5fa..a3c72ef 100644
--- a/src/transport/WebRTCTransport.ts
+++ b/src/transport/WebRTCTransport.ts
@@ -28,6 +28,7 @@ class WebRTCTransport extends ATransport {
         this.webRTCChannel.send(serializedRPC);
     }
     onMessage(data: any): void {
+        if (this.isClosed) return;
         this.p2pManager.localRpcService.senderTransport = this;
         if (data instanceof Uint8Array) data = Buffer.from(data);
         if (data instanceof Buffer) data = data.toString();
-- 
2.43.0


From f607ea62fbd22acebc7128b539973d5f385b4f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:39 +0000
Subject: [PATCH 43/69] fix: a peer profile only holds its own entries in the
 peer tables

---
 src/ProfileManager.ts | 36 +++++++++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/src/ProfileManager.ts b/src/ProfileManager.ts
index d47d212..9925271 100644
--- a/src/ProfileManager.ts
+++ b/src/ProfileManager.ts
@@ -14,39 +14,57 @@ class ProfileManager {
     >();
 
     public registerProfile(profile: PeerProfile) {
-        let transport = profile.getTransport();
-        if (transport) this.mapTransportToProfile.set(transport, profile);
         let evmAddress = profile.getEvmAddress();
-        if (evmAddress)
+        if (evmAddress) {
+            let replaced = this.getProfileByEvmAddress(evmAddress.toString());
+            if (replaced && replaced !== profile)
+                this.unregisterProfile(replaced);
             this.mapEvmAddressToProfile.set(evmAddress.toString(), profile);
+        }
+        let transport = profile.getTransport();
+        if (transport) this.assignTransport(transport, profile);
         let hpAddress = profile.getHpAddress();
         if (hpAddress) {
             this.mapHpAddressToProfile.set(hpAddress, profile);
         }
     }
     public unregisterProfile(profile: PeerProfile) {
+        // an entry may belong to another profile by now
         let transport = profile.getTransport();
-        if (transport) this.mapTransportToProfile.delete(transport);
+        if (transport && this.getProfileByTransport(transport) === profile)
+            this.mapTransportToProfile.delete(transport);
         let evmAddress = profile.getEvmAddress();
-        if (evmAddress)
+        if (
+            evmAddress &&
+            this.getProfileByEvmAddress(evmAddress.toString()) === profile
+        )
             this.mapEvmAddressToProfile.delete(evmAddress.toString());
         let hpAddress = profile.getHpAddress();
-        if (hpAddress) this.mapHpAddressToProfile.delete(hpAddress);
+        if (hpAddress && this.getProfileByHpAddress(hpAddress) === profile)
+            this.mapHpAddressToProfile.delete(hpAddress);
     }
     public updateTransport(profileAddress: string, newTransport: ATransport) {
         let profile = this.mapEvmAddressToProfile.get(profileAddress);
         if (!profile) return;
         let oldTransport = profile.getTransport();
-        if (oldTransport) this.removeTransport(oldTransport);
-        profile.setTransport(newTransport);
-        this.mapTransportToProfile.set(newTransport, profile);
+        if (oldTransport && oldTransport !== newTransport)
+            this.removeTransport(oldTransport);
+        this.assignTransport(newTransport, profile);
     }
     public removeTransport(transport: ATransport) {
         let profile = this.mapTransportToProfile.get(transport);
         if (!profile) return;
         this.mapTransportToProfile.delete(transport);
+        profile.removeTransport();
         transport.close();
     }
+    // A transport belongs to one profile
+    private assignTransport(transport: ATransport, profile: PeerProfile) {
+        let previous = this.mapTransportToProfile.get(transport);
+        if (previous && previous !== profile) previous.removeTransport();
+        profile.setTransport(transport);
+        this.mapTransportToProfile.set(transport, profile);
+    }
     public getProfileByTransport(
         transport: ATransport
     ): PeerProfile | undefined {
-- 
2.43.0


From 45ed0e212aa6523566a9c97f8fa718f0dc473128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:01 +0000
Subject: [PATCH 44/69] fix: a failing connection does not stop a broadcast

---
 src/P2PManager.ts | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/P2PManager.ts b/src/P2PManager.ts
index 43c855a..14dfdf2 100644
--- a/src/P2PManager.ts
+++ b/src/P2PManager.ts
@@ -50,7 +50,12 @@ class P2PManager implements IOnMessage {
     public broadcastRpc(serializedRPC: string) {
         // BroadcastLocal.broadcast(serializedRPC);
         for (let transport of this.openConnections) {
-            transport.send(serializedRPC);
+            try {
+                transport.send(serializedRPC);
+            } catch (e) {
+                // the others still receive it
+                console.log("Error broadcasting to a peer", e);
+            }
         }
     }
     public onRpc(serializedRpc: string) {
-- 
2.43.0


From 1d5d6596918d6fa15f04dadb168750d33099b061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:53 +0000
Subject: [PATCH 45/69] fix: a failure while handling a message is contained

---
 src/P2PManager.ts         |  4 +++-
 src/rpc/MainRpcService.ts | 25 ++++++++++++++-----------
 2 files changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/P2PManager.ts b/src/P2PManager.ts
index 14dfdf2..5ac2109 100644
--- a/src/P2PManager.ts
+++ b/src/P2PManager.ts
@@ -70,7 +70,9 @@ class P2PManager implements IOnMessage {
                 return;
             }
             //TODO! set context - calling socket/profile (ATransport)!
-            this.localRpcService[rpc.method](...rpc.params);
+            const result = this.localRpcService[rpc.method](...rpc.params);
+            // a failure only concerns this message
+            Promise.resolve(result).catch((e) => console.error(e));
         } catch (e) {
             //TODO - disconnect from peer
             console.error(e);
diff --git a/src/rpc/MainRpcService.ts b/src/rpc/MainRpcService.ts
index bf715a8..29683d9 100644
--- a/src/rpc/MainRpcService.ts
+++ b/src/rpc/MainRpcService.ts
@@ -51,7 +51,10 @@ class MainRpcService {
     // ********************* InitHandskaheService *********************
 
     public async onInitHandshakeRequest(challengeHash: string, time: number) {
-        this.initHandshakeService.onInitHandshakeRequest(challengeHash, time);
+        await this.initHandshakeService.onInitHandshakeRequest(
+            challengeHash,
+            time
+        );
     }
 
     public async onInitHandshakeResponse(
@@ -59,7 +62,7 @@ class MainRpcService {
         responseTime: number,
         preferredTransport: TransportType
     ) {
-        this.initHandshakeService.onInitHandshakeResponse(
+        await this.initHandshakeService.onInitHandshakeResponse(
             signature,
             responseTime,
             preferredTransport
@@ -68,33 +71,33 @@ class MainRpcService {
 
     // ********************* WebRTCSetupService *********************
     public async onOfferWebRTC(offer: string) {
-        this.webRTCSetunService.onOfferWebRTC(offer);
+        await this.webRTCSetunService.onOfferWebRTC(offer);
     }
 
     public async onAnswerWebRTC(answer: string) {
-        this.webRTCSetunService.onAnswerWebRTC(answer);
+        await this.webRTCSetunService.onAnswerWebRTC(answer);
     }
 
     public async onIceCandidate(serializedCandidate: string) {
-        this.webRTCSetunService.onIceCandidate(serializedCandidate);
+        await this.webRTCSetunService.onIceCandidate(serializedCandidate);
     }
 
     // ********************* TESTJoinChannelService - TODO! TEST this is only for test *********************
     public async onSignJoinChannelTEST(jcEncoded: string, jcSignature: string) {
-        this.testJoinChannelService.onSignJoinChannelTEST(
+        await this.testJoinChannelService.onSignJoinChannelTEST(
             jcEncoded,
             jcSignature
         );
     }
     // ********************* DHTDiscoveryService - DHT discovery, common topic, leader introduction to specific channelID *********************
     public async onCanJoinLeaderRequest() {
-        this.dhtDiscoveryService.onCanJoinLeaderRequest();
+        await this.dhtDiscoveryService.onCanJoinLeaderRequest();
     }
     public async onCanJoinLeaderResponse(
         channelId: BytesLike,
         participants: AddressLike[]
     ) {
-        this.dhtDiscoveryService.onCanJoinLeaderResponse(
+        await this.dhtDiscoveryService.onCanJoinLeaderResponse(
             channelId,
             participants
         );
@@ -104,7 +107,7 @@ class MainRpcService {
         signedJoinChannel: SignedJoinChannelStruct,
         confirmationSignature?: SignatureLike
     ) {
-        this.joinChannelService.onJoinChannelRequest(
+        await this.joinChannelService.onJoinChannelRequest(
             signedJoinChannel,
             confirmationSignature
         );
@@ -112,14 +115,14 @@ class MainRpcService {
 
     // ********************* StateTransitionService *********************
     public async onSignedBlock(signedBlock: SignedBlockStruct) {
-        this.stateTransitionService.onSignedBlock(signedBlock);
+        await this.stateTransitionService.onSignedBlock(signedBlock);
     }
 
     public async onBlockConfirmation(
         originalSignedBlock: SignedBlockStruct,
         confirmationSignature: BytesLike
     ) {
-        this.stateTransitionService.onBlockConfirmation(
+        await this.stateTransitionService.onBlockConfirmation(
             originalSignedBlock,
             confirmationSignature
         );
-- 
2.43.0


From f2bb2b81239aca42ccb9a723b492feae9f95c750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:57 +0000
Subject: [PATCH 46/69] fix: the parameters of a message are a list

---
 src/rpc/Rpc.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/rpc/Rpc.ts b/src/rpc/Rpc.ts
index a1921c2..9e4a888 100644
--- a/src/rpc/Rpc.ts
+++ b/src/rpc/Rpc.ts
@@ -8,7 +8,11 @@ export function serializeRpc(rpc: Rpc): string {
 export function deserializeRpc(serializedRpc: string): Rpc | undefined {
     try {
         let rpc = JSON.parse(serializedRpc);
-        if (!rpc || typeof rpc.method !== "string" || !rpc.params) {
+        if (
+            !rpc ||
+            typeof rpc.method !== "string" ||
+            !Array.isArray(rpc.params)
+        ) {
             return undefined;
         }
         return rpc as Rpc;
-- 
2.43.0


From c5e64501dfaf9e0b9470517ae69f101712558324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:00 +0000
Subject: [PATCH 47/69] fix: the first state of a channel opens it

---
 src/agreementManager/AgreementManager.ts | 3 +++
 src/stateManager/StateManager.ts         | 3 ++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/agreementManager/AgreementManager.ts b/src/agreementManager/AgreementManager.ts
index 25f6ed7..551df22 100644
--- a/src/agreementManager/AgreementManager.ts
+++ b/src/agreementManager/AgreementManager.ts
@@ -89,6 +89,9 @@ class AgreementManager {
     public getLatestForkCnt(): number {
         return this.forkService.getLatestForkCnt();
     }
+    public getNextForkCnt(): number {
+        return this.forkService.getNextForkIndex();
+    }
     public getNextBlockHeight(): number {
         return this.forkService.getNextBlockHeight();
     }
diff --git a/src/stateManager/StateManager.ts b/src/stateManager/StateManager.ts
index fa41ac3..cfb8901 100644
--- a/src/stateManager/StateManager.ts
+++ b/src/stateManager/StateManager.ts
@@ -200,7 +200,8 @@ class StateManager {
         await this.mutex.lock();
         try {
             // Only the next fork may replace the current state
-            if (Number(_forkCnt) !== this.getForkCnt() + 1) return;
+            if (Number(_forkCnt) !== this.agreementManager.getNextForkCnt())
+                return;
             await this.stateMachine.setState(encodedState);
             this.agreementManager.newFork(
                 encodedState,
-- 
2.43.0


From 3844c6a5881cdde204a0fe0505b990520ec965eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:03 +0000
Subject: [PATCH 48/69] fix: a channel without a state is not open yet

---
 src/stateManager/StateManager.ts      | 2 +-
 src/stateManager/ValidationService.ts | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/stateManager/StateManager.ts b/src/stateManager/StateManager.ts
index cfb8901..835e7e5 100644
--- a/src/stateManager/StateManager.ts
+++ b/src/stateManager/StateManager.ts
@@ -600,7 +600,7 @@ class StateManager {
     // ----- Private validation helper methods -----
 
     private isChannelOpen(): boolean {
-        return this.getForkCnt() !== -1;
+        return this.agreementManager.getNextForkCnt() > 0;
     }
 }
 
diff --git a/src/stateManager/ValidationService.ts b/src/stateManager/ValidationService.ts
index 28b2121..9524227 100644
--- a/src/stateManager/ValidationService.ts
+++ b/src/stateManager/ValidationService.ts
@@ -256,7 +256,7 @@ export default class ValidationService {
         return this.agreementManager.getLatestForkCnt();
     }
     private isChannelOpen(): boolean {
-        return this.getForkCnt() >= 0;
+        return this.agreementManager.getNextForkCnt() > 0;
     }
     private isPastFork(f: number): boolean {
         return f < this.getForkCnt();
-- 
2.43.0


From c8b5ee7d25cb41bd0e600f4d505963a8aab14ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:07 +0000
Subject: [PATCH 49/69] fix: nothing unauthentic is queued before the channel
 opens

---
 src/stateManager/ValidationService.ts | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/stateManager/ValidationService.ts b/src/stateManager/ValidationService.ts
index 9524227..f011eae 100644
--- a/src/stateManager/ValidationService.ts
+++ b/src/stateManager/ValidationService.ts
@@ -48,12 +48,12 @@ export default class ValidationService {
         const forkCnt = BlockUtils.getFork(blk);
         const height = BlockUtils.getHeight(blk);
 
-        if (!this.isChannelOpen()) return notReady();
-
         // Validate block
         if (!this.isSignedBlockAuthentic(signedBlock, blk, this.getChannelId()))
             return disconnect();
 
+        if (!this.isChannelOpen()) return notReady();
+
         // Check fork status
         if (
             this.isPastFork(forkCnt) ||
@@ -119,9 +119,9 @@ export default class ValidationService {
     ): Promise<ValidationResult> {
         const blk = block ?? EvmUtils.decodeBlock(signed.encodedBlock);
 
-        if (!this.isChannelOpen()) return notReady();
         if (!this.isSignedBlockAuthentic(signed, blk, this.getChannelId()))
             return disconnect();
+        if (!this.isChannelOpen()) return notReady();
         if (this.isPastFork(BlockUtils.getFork(blk))) return pastFork();
 
         // Ensure block in chain
-- 
2.43.0


From 6e8480d6dcbecc8f15be6348d6ac86d74d410b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:01 +0000
Subject: [PATCH 50/69] fix: closing a local transport does not cut off what
 was asked before

---
 src/transport/LocalTransport.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transport/LocalTransport.ts b/src/transport/LocalTransport.ts
index 6a59dd9..bea50c9 100644
--- a/src/transport/LocalTransport.ts
+++ b/src/transport/LocalTransport.ts
@@ -24,7 +24,7 @@ class LocalTransport extends ATransport {
         this.p2pManager.onRpc(serializedRPC);
     }
     _close(): void {
-        this.ws.close();
+        // the socket is kept - others may still wait for an answer sent on it
     }
 }
 export default LocalTransport;
-- 
2.43.0


From dbf8fa74a35f0d6c637f93d337e2806fefe748d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:16 +0000
Subject: [PATCH 51/69] fix: a confirmation before the channel opens keeps its
 block

---
 src/stateManager/ValidationService.ts | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/stateManager/ValidationService.ts b/src/stateManager/ValidationService.ts
index f011eae..ee23aaa 100644
--- a/src/stateManager/ValidationService.ts
+++ b/src/stateManager/ValidationService.ts
@@ -121,7 +121,6 @@ export default class ValidationService {
 
         if (!this.isSignedBlockAuthentic(signed, blk, this.getChannelId()))
             return disconnect();
-        if (!this.isChannelOpen()) return notReady();
         if (this.isPastFork(BlockUtils.getFork(blk))) return pastFork();
 
         // Ensure block in chain
-- 
2.43.0


From 23b250fb037fdb713bc56e40fbbdb81bbe3af348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:40 +0000
Subject: [PATCH 52/69] fix: a block only counts in the encoding its records
 and proofs use

---
 src/stateManager/ValidationService.ts | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/stateManager/ValidationService.ts b/src/stateManager/ValidationService.ts
index ee23aaa..fe4ddcb 100644
--- a/src/stateManager/ValidationService.ts
+++ b/src/stateManager/ValidationService.ts
@@ -277,6 +277,10 @@ export default class ValidationService {
     ): boolean {
         if (BlockUtils.getChannelId(block) !== expectedChannelId) return false;
 
+        // records and proofs hold the block encoded anew - a signature over other bytes is none there
+        if (ethers.hexlify(signed.encodedBlock) !== EvmUtils.encodeBlock(block))
+            return false;
+
         const h = ethers.keccak256(signed.encodedBlock);
         const signer = ethers.verifyMessage(
             ethers.getBytes(h),
-- 
2.43.0


From 49e2018b29c65774ea03c441660e21941c246ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:53 +0000
Subject: [PATCH 53/69] fix: a failing queued message does not stop the others

---
 src/stateManager/StateManager.ts | 34 +++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/src/stateManager/StateManager.ts b/src/stateManager/StateManager.ts
index 835e7e5..17a4a59 100644
--- a/src/stateManager/StateManager.ts
+++ b/src/stateManager/StateManager.ts
@@ -159,11 +159,16 @@ class StateManager {
 
         for (const signedBlock of signedBlocks) {
             console.log("tryExecuteFromQueue - executing");
-            if (
-                (await this.onSignedBlock(signedBlock)) ==
-                ExecutionFlags.DISPUTE
-            ) {
-                break;
+            try {
+                if (
+                    (await this.onSignedBlock(signedBlock)) ==
+                    ExecutionFlags.DISPUTE
+                ) {
+                    break;
+                }
+            } catch (error) {
+                // one failing block doesn't concern the others
+                console.log("Error executing queued block", error);
             }
         }
     }
@@ -175,13 +180,18 @@ class StateManager {
         );
 
         for (const confirmation of confirmations) {
-            if (
-                (await this.onBlockConfirmation(
-                    confirmation.originalSignedBlock,
-                    confirmation.confirmationSignature as string
-                )) == ExecutionFlags.DISPUTE
-            ) {
-                break;
+            try {
+                if (
+                    (await this.onBlockConfirmation(
+                        confirmation.originalSignedBlock,
+                        confirmation.confirmationSignature as string
+                    )) == ExecutionFlags.DISPUTE
+                ) {
+                    break;
+                }
+            } catch (error) {
+                // one failing confirmation doesn't concern the others
+                console.log("Error processing queued confirmation", error);
             }
         }
     }
-- 
2.43.0


From d468fd141777c1931dbe036a1b9b2a152833d1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:00 +0000
Subject: [PATCH 54/69] fix: a transaction that fails halfway leaves the state
 machine where it was

---
 src/stateManager/StateManager.ts | 42 ++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 18 deletions(-)

diff --git a/src/stateManager/StateManager.ts b/src/stateManager/StateManager.ts
index 17a4a59..3538b52 100644
--- a/src/stateManager/StateManager.ts
+++ b/src/stateManager/StateManager.ts
@@ -345,27 +345,33 @@ class StateManager {
             }
             this.adjustTimestampIfNeeded(tx);
 
-            const {
-                success,
-                encodedState,
-                previousStateHash,
-                successCallback
-            } = await this.applyTransaction(tx);
+            const previousState = await this.getEncodedState();
+            let block: BlockStruct,
+                signedBlock: SignedBlockStruct,
+                successCallback: () => void;
+            try {
+                const result = await this.applyTransaction(tx);
+                successCallback = result.successCallback;
 
-            if (!success) {
-                throw new Error(
-                    "CreateAndApplyTransaction - Internal error - Transaction not successful"
-                );
-            }
+                if (!result.success) {
+                    throw new Error(
+                        "CreateAndApplyTransaction - Internal error - Transaction not successful"
+                    );
+                }
 
-            const block = await this.createBlock(tx, previousStateHash);
-            const signedBlock = await this.signBlock(block);
+                block = await this.createBlock(tx, result.previousStateHash);
+                signedBlock = await this.signBlock(block);
 
-            this.agreementManager.addBlock(
-                block,
-                signedBlock.signature as SignatureLike,
-                encodedState
-            );
+                this.agreementManager.addBlock(
+                    block,
+                    signedBlock.signature as SignatureLike,
+                    result.encodedState
+                );
+            } catch (error) {
+                // the block is not authored - neither is its state
+                await this.stateMachine.setState(previousState);
+                throw error;
+            }
 
             successCallback();
             await this.onSuccessCommon();
-- 
2.43.0


From 0f78cfd77fee7f0cfa09c6672283bed4d972f851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:55 +0000
Subject: [PATCH 55/69] fix: a late block is on chain before the others get it

---
 src/stateManager/StateManager.ts      | 24 ++++++++++++++++++------
 src/stateManager/ValidationService.ts |  2 +-
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/stateManager/StateManager.ts b/src/stateManager/StateManager.ts
index 3538b52..770d8e4 100644
--- a/src/stateManager/StateManager.ts
+++ b/src/stateManager/StateManager.ts
@@ -348,7 +348,8 @@ class StateManager {
             const previousState = await this.getEncodedState();
             let block: BlockStruct,
                 signedBlock: SignedBlockStruct,
-                successCallback: () => void;
+                successCallback: () => void,
+                isLate: boolean;
             try {
                 const result = await this.applyTransaction(tx);
                 successCallback = result.successCallback;
@@ -362,6 +363,15 @@ class StateManager {
                 block = await this.createBlock(tx, result.previousStateHash);
                 signedBlock = await this.signBlock(block);
 
+                // later than the others accept - the block is only good once it is on chain
+                isLate = !(await this.validationService.isGoodTimestamp(block));
+                if (isLate) {
+                    this.p2pEventHooks.onPostingCalldata?.();
+                    await this.stateChannelManagerContract
+                        .postBlockCalldata(signedBlock)
+                        .then((txResponse) => txResponse.wait());
+                }
+
                 this.agreementManager.addBlock(
                     block,
                     signedBlock.signature as SignatureLike,
@@ -376,11 +386,13 @@ class StateManager {
             successCallback();
             await this.onSuccessCommon();
 
-            scheduleTask(
-                () => this.maybePostBlockOnChain(block, signedBlock),
-                this.timeConfig.agreementTime * 1000,
-                "maybePostBlockOnChain"
-            );
+            if (!isLate) {
+                scheduleTask(
+                    () => this.maybePostBlockOnChain(block, signedBlock),
+                    this.timeConfig.agreementTime * 1000,
+                    "maybePostBlockOnChain"
+                );
+            }
 
             return signedBlock;
         } finally {
diff --git a/src/stateManager/ValidationService.ts b/src/stateManager/ValidationService.ts
index fe4ddcb..34fb31b 100644
--- a/src/stateManager/ValidationService.ts
+++ b/src/stateManager/ValidationService.ts
@@ -216,7 +216,7 @@ export default class ValidationService {
     }
 
     /* objective / chain timestamp */
-    private async isGoodTimestamp(blk: BlockStruct): Promise<boolean> {
+    public async isGoodTimestamp(blk: BlockStruct): Promise<boolean> {
         const forkCnt = BlockUtils.getFork(blk);
         const blockHeight = BlockUtils.getHeight(blk);
         const blockTimestamp = BlockUtils.getTimestamp(blk);
-- 
2.43.0


From 9591e9598339da2f365a6daf139164ea68baf69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:59 +0000
Subject: [PATCH 56/69] fix: an authored block reaches the others whatever the
 hooks do

---
 src/stateManager/StateManager.ts | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/stateManager/StateManager.ts b/src/stateManager/StateManager.ts
index 770d8e4..7ed7abf 100644
--- a/src/stateManager/StateManager.ts
+++ b/src/stateManager/StateManager.ts
@@ -383,9 +383,6 @@ class StateManager {
                 throw error;
             }
 
-            successCallback();
-            await this.onSuccessCommon();
-
             if (!isLate) {
                 scheduleTask(
                     () => this.maybePostBlockOnChain(block, signedBlock),
@@ -394,6 +391,14 @@ class StateManager {
                 );
             }
 
+            try {
+                successCallback();
+                await this.onSuccessCommon();
+            } catch (error) {
+                // the block is agreed to - it has to reach the others
+                console.log("Error after playing transaction", error);
+            }
+
             return signedBlock;
         } finally {
             this.mutex.unlock();
-- 
2.43.0


From 8fda5e270dcfc00f248adcf7f5e52ff8b1e040d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:55 +0000
Subject: [PATCH 57/69] fix: calls of the embedded state machine do not overlap

---
 src/evm/ContractExecuter.ts | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/evm/ContractExecuter.ts b/src/evm/ContractExecuter.ts
index 8c2f88e..fc12a4c 100644
--- a/src/evm/ContractExecuter.ts
+++ b/src/evm/ContractExecuter.ts
@@ -1,10 +1,13 @@
 import { EVM, EVMResult, ExecResult } from "@ethereumjs/evm";
 import { Address } from "@ethereumjs/util";
 import { BytesLike, ethers } from "ethers";
+import { Mutex } from "@/utils";
 
 export default class ContractExecuter {
     private readonly evm: EVM;
     private readonly contractAddress: Address;
+    // overlapping calls would share the journal of the EVM - a failing one undoes the others
+    private readonly mutex = new Mutex();
 
     constructor(evm: EVM, contractAddress: Address) {
         this.evm = evm;
@@ -12,16 +15,21 @@ export default class ContractExecuter {
     }
 
     async executeCall(data: BytesLike): Promise<ExecResult> {
-        const result = await this.evm.runCall({
-            data: ethers.getBytes(data),
-            to: this.contractAddress
-        });
+        await this.mutex.lock();
+        try {
+            const result = await this.evm.runCall({
+                data: ethers.getBytes(data),
+                to: this.contractAddress
+            });
 
-        if (result.execResult.exceptionError) {
-            throw this.decodeError(result);
-        }
+            if (result.execResult.exceptionError) {
+                throw this.decodeError(result);
+            }
 
-        return result.execResult;
+            return result.execResult;
+        } finally {
+            this.mutex.unlock();
+        }
     }
 
     private decodeError(result: EVMResult): Error {
-- 
2.43.0


From 2da9a42d611ff6b142a8ae298d758b752c1357d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:15 +0000
Subject: [PATCH 58/69] fix: a view does not change the state machine

---
 src/evm/ContractExecuter.ts | 5 +++--
 src/evm/EvmStateMachine.ts  | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/evm/ContractExecuter.ts b/src/evm/ContractExecuter.ts
index fc12a4c..e467b38 100644
--- a/src/evm/ContractExecuter.ts
+++ b/src/evm/ContractExecuter.ts
@@ -14,12 +14,13 @@ export default class ContractExecuter {
         this.contractAddress = contractAddress;
     }
 
-    async executeCall(data: BytesLike): Promise<ExecResult> {
+    async executeCall(data: BytesLike, isStatic = false): Promise<ExecResult> {
         await this.mutex.lock();
         try {
             const result = await this.evm.runCall({
                 data: ethers.getBytes(data),
-                to: this.contractAddress
+                to: this.contractAddress,
+                isStatic
             });
 
             if (result.execResult.exceptionError) {
diff --git a/src/evm/EvmStateMachine.ts b/src/evm/EvmStateMachine.ts
index bc2cd6e..ad5580b 100644
--- a/src/evm/EvmStateMachine.ts
+++ b/src/evm/EvmStateMachine.ts
@@ -102,7 +102,8 @@ class EvmStateMachine extends AStateMachine {
     async runView(tx: ethers.TransactionRequest): Promise<string> {
         try {
             const result = await this.contractExecuter.executeCall(
-                tx.data as BytesLike
+                tx.data as BytesLike,
+                true // a view never changes the state
             );
             return hexlify(result.returnValue);
         } catch (error) {
-- 
2.43.0


From 3dc5fceda474029f8980b2537d26f2ef1de4d995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:48 +0000
Subject: [PATCH 59/69] fix: a signature only counts in the form the contracts
 read

---
 src/stateManager/ValidationService.ts |  6 ++++++
 src/utils/EvmUtils.ts                 | 13 +++++++++++++
 2 files changed, 19 insertions(+)

diff --git a/src/stateManager/ValidationService.ts b/src/stateManager/ValidationService.ts
index 34fb31b..f2851c5 100644
--- a/src/stateManager/ValidationService.ts
+++ b/src/stateManager/ValidationService.ts
@@ -121,6 +121,8 @@ export default class ValidationService {
 
         if (!this.isSignedBlockAuthentic(signed, blk, this.getChannelId()))
             return disconnect();
+        if (!EvmUtils.isStandardSignature(confirmationSig as SignatureLike))
+            return disconnect();
         if (this.isPastFork(BlockUtils.getFork(blk))) return pastFork();
 
         // Ensure block in chain
@@ -281,6 +283,10 @@ export default class ValidationService {
         if (ethers.hexlify(signed.encodedBlock) !== EvmUtils.encodeBlock(block))
             return false;
 
+        // the contracts read one form only - in any other the block can't be proven to them
+        if (!EvmUtils.isStandardSignature(signed.signature as SignatureLike))
+            return false;
+
         const h = ethers.keccak256(signed.encodedBlock);
         const signer = ethers.verifyMessage(
             ethers.getBytes(h),
diff --git a/src/utils/EvmUtils.ts b/src/utils/EvmUtils.ts
index c6dfcb9..7199b91 100644
--- a/src/utils/EvmUtils.ts
+++ b/src/utils/EvmUtils.ts
@@ -73,6 +73,19 @@ export class EvmUtils {
         return { encodedBlock: encodedBlock, signature };
     }
 
+    /** Is the signature in the one form the contracts read: 65 bytes, v of 27 or 28, low s? */
+    public static isStandardSignature(signature: SignatureLike): boolean {
+        try {
+            return (
+                typeof signature === "string" &&
+                ethers.Signature.from(signature).serialized ===
+                    ethers.hexlify(signature)
+            );
+        } catch {
+            return false;
+        }
+    }
+
     public static retrieveSignerAddressBlock(
         block: BlockStruct,
         signature: SignatureLike
-- 
2.43.0


From 546552229e35aa4b265480edf5133c21823a5c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:14 +0000
Subject: [PATCH 60/69] fix: a failing hook does not get in the way of the node

---
 src/stateManager/StateManager.ts |  8 ++++----
 src/utils/guardHooks.ts          | 21 +++++++++++++++++++++
 src/utils/index.ts               |  1 +
 3 files changed, 26 insertions(+), 4 deletions(-)
 create mode 100644 src/utils/guardHooks.ts

diff --git a/src/stateManager/StateManager.ts b/src/stateManager/StateManager.ts
index 7ed7abf..dfe4ec8 100644
--- a/src/stateManager/StateManager.ts
+++ b/src/stateManager/StateManager.ts
@@ -19,7 +19,7 @@ import DisputeHandler from "@/DisputeHandler";
 import P2PManager from "@/P2PManager";
 
 import AStateMachine from "@/AStateMachine";
-import { EvmUtils, DebugProxy, Mutex, scheduleTask } from "@/utils";
+import { EvmUtils, DebugProxy, guardHooks, Mutex, scheduleTask } from "@/utils";
 import StateChannelEventListener from "@/StateChannelEventListener";
 
 import P2pEventHooks from "@/P2pEventHooks";
@@ -59,7 +59,7 @@ class StateManager {
     ) {
         this.signerAddress = signerAddress;
         this.stateMachine = stateMachine;
-        this.p2pEventHooks = p2pEventHooks;
+        this.p2pEventHooks = guardHooks(p2pEventHooks);
         this.timeConfig = timeConfig;
         this.stateChannelManagerContract = stateChannelManagerContract;
         this.stateChannelEventListener = new StateChannelEventListener(
@@ -95,8 +95,8 @@ class StateManager {
         await this.p2pManager.dispose();
     }
     public setP2pEventHooks(p2pEventHooks: P2pEventHooks) {
-        this.p2pEventHooks = p2pEventHooks;
-        this.disputeHandler.setP2pEventHooks(p2pEventHooks);
+        this.p2pEventHooks = guardHooks(p2pEventHooks);
+        this.disputeHandler.setP2pEventHooks(this.p2pEventHooks);
     }
     public setChannelId(channelId: BytesLike) {
         this.channelId = channelId;
diff --git a/src/utils/guardHooks.ts b/src/utils/guardHooks.ts
new file mode 100644
index 0000000..3ff855f
--- /dev/null
+++ b/src/utils/guardHooks.ts
@@ -0,0 +1,21 @@
+/**
+ * Application hooks are told what happens - a failing one never gets in the way of it
+ */
+export function guardHooks<T extends object>(hooks: T): T {
+    return new Proxy(hooks, {
+        get(target, key) {
+            const hook = Reflect.get(target, key);
+            if (typeof hook !== "function") return hook;
+            return (...args: unknown[]) => {
+                const logError = (error: unknown) =>
+                    console.log(`Error in hook ${String(key)}`, error);
+                try {
+                    const result = hook.apply(target, args);
+                    if (result instanceof Promise) result.catch(logError);
+                } catch (error) {
+                    logError(error);
+                }
+            };
+        }
+    });
+}
diff --git a/src/utils/index.ts b/src/utils/index.ts
index a61ee9d..e0dfec7 100644
--- a/src/utils/index.ts
+++ b/src/utils/index.ts
@@ -4,6 +4,7 @@ export * from "./BroadcastLocal";
 export * from "./DebugProxy";
 export * from "./DeployUtils";
 export * from "./EvmUtils";
+export * from "./guardHooks";
 export * from "./LocalDiscoveryServer";
 export * from "./Mutex";
 export * from "./retry";
-- 
2.43.0


From f86250a23e38e9f84c7f324df22ea4f5202558d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:08 +0000
Subject: [PATCH 61/69] fix: the chain events of exactly the current channel
 reach the node

---
 src/StateChannelEventListener.ts | 67 ++++++++++++++++++++++++--------
 src/stateManager/StateManager.ts |  5 +--
 2 files changed, 53 insertions(+), 19 deletions(-)

diff --git a/src/StateChannelEventListener.ts b/src/StateChannelEventListener.ts
index 618b59f..c781304 100644
--- a/src/StateChannelEventListener.ts
+++ b/src/StateChannelEventListener.ts
@@ -3,41 +3,76 @@ import { AStateChannelManagerProxy } from "@typechain-types";
 import { SignedBlockStruct } from "@typechain-types/contracts/V1/DataTypes";
 import { DisputeStruct } from "@typechain-types/contracts/V1/DisputeTypes";
 import StateManager from "@/stateManager";
-import P2pEventHooks from "@/P2pEventHooks";
+import { Mutex } from "@/utils";
 
 //TODO - made a PR to ethers.js to fix Deferred Topic Filter
 
 class StateChannelEventListener {
     stateManager: StateManager;
     stateChannelManagerContract: AStateChannelManagerProxy;
-    p2pEventHooks: P2pEventHooks;
     setStateFilter: any;
     postedBlockCallDataFilter: any;
     disputeUpdateFilter: any;
+    // changes of the subscriptions run one after another
+    private readonly mutex = new Mutex();
+    private isDisposed = false;
     constructor(
         stateManager: StateManager,
-        stateChannelManagerContract: AStateChannelManagerProxy,
-        p2pEventHooks: P2pEventHooks
+        stateChannelManagerContract: AStateChannelManagerProxy
     ) {
         this.stateManager = stateManager;
         this.stateChannelManagerContract = stateChannelManagerContract;
-        this.p2pEventHooks = p2pEventHooks;
 
         // stateChannelManagerContract.off(stateChannelManagerContract.getEvent("GameCreated"));
     }
     //Mark resources for garbage collection
-    public dispose() {
+    public async dispose() {
+        this.isDisposed = true;
+        await this.mutex.lock();
+        try {
+            await this.unsubscribe();
+        } finally {
+            this.mutex.unlock();
+        }
+    }
+    private async unsubscribe() {
         // this.stateChannelManagerContract.removeAllListeners();
         if (this.setStateFilter)
-            this.stateChannelManagerContract.off(this.setStateFilter);
+            await this.stateChannelManagerContract.off(this.setStateFilter);
         if (this.postedBlockCallDataFilter)
-            this.stateChannelManagerContract.off(
+            await this.stateChannelManagerContract.off(
                 this.postedBlockCallDataFilter
             );
         if (this.disputeUpdateFilter)
-            this.stateChannelManagerContract.off(this.disputeUpdateFilter);
+            await this.stateChannelManagerContract.off(
+                this.disputeUpdateFilter
+            );
     }
     public async setChannelId(channelId: BytesLike) {
+        await this.mutex.lock();
+        try {
+            if (!this.isDisposed) await this.subscribe(channelId);
+        } finally {
+            this.mutex.unlock();
+        }
+    }
+    // a failing handler ends neither the node nor the subscription
+    private handler(channelId: BytesLike, handle: (logObj: any) => unknown) {
+        return async (logObj: any) => {
+            // the subscription may be about to end
+            if (
+                this.isDisposed ||
+                this.stateManager.getChannelId() !== channelId
+            )
+                return;
+            try {
+                await handle(logObj);
+            } catch (error) {
+                console.log("Error handling on-chain event", error);
+            }
+        };
+    }
+    private async subscribe(channelId: BytesLike) {
         // --------- SetState event -------------
         if (this.setStateFilter)
             await this.stateChannelManagerContract.off(this.setStateFilter);
@@ -46,7 +81,7 @@ class StateChannelEventListener {
         //TODO - this will change if ethers.js accepts my PR
         await this.stateChannelManagerContract.on(
             this.setStateFilter,
-            async (logObj: any) => {
+            this.handler(channelId, async (logObj: any) => {
                 let encodedState = logObj.args.encodedState;
                 let forkCnt = logObj.args.forkCnt;
                 let timestamp = logObj.args.timestamp; //TODO? - potentially sync clock to this too
@@ -56,7 +91,7 @@ class StateChannelEventListener {
                     forkCnt,
                     timestamp
                 );
-            }
+            })
         );
         // --------- PostedBlockCalldata event -------------
         if (this.postedBlockCallDataFilter)
@@ -70,16 +105,16 @@ class StateChannelEventListener {
         //TODO - this will change if ethers.js accepts my PR
         await this.stateChannelManagerContract.on(
             this.postedBlockCallDataFilter,
-            async (logObj: any) => {
+            this.handler(channelId, async (logObj: any) => {
                 console.log("BlockCalldataPosted EVENT !!!!!!!!!!!");
-                this.p2pEventHooks.onPostedCalldata?.();
+                this.stateManager.p2pEventHooks.onPostedCalldata?.();
                 let signedBlock = logObj.args.signedBlock as SignedBlockStruct;
                 let timestamp = logObj.args.timestamp as BigNumberish;
                 await this.stateManager.collectOnChainBlock(
                     signedBlock,
                     timestamp
                 );
-            }
+            })
         );
         // --------- DisputeUpdate event -------------
         if (this.disputeUpdateFilter)
@@ -91,10 +126,10 @@ class StateChannelEventListener {
         //TODO - this will change if ethers.js accepts my PR
         await this.stateChannelManagerContract.on(
             this.disputeUpdateFilter,
-            async (logObj) => {
+            this.handler(channelId, async (logObj: any) => {
                 let dispute = logObj.args.dispute as DisputeStruct;
                 await this.stateManager.onDisputeUpdate(dispute);
-            }
+            })
         );
     }
 }
diff --git a/src/stateManager/StateManager.ts b/src/stateManager/StateManager.ts
index dfe4ec8..e7e0d5f 100644
--- a/src/stateManager/StateManager.ts
+++ b/src/stateManager/StateManager.ts
@@ -64,8 +64,7 @@ class StateManager {
         this.stateChannelManagerContract = stateChannelManagerContract;
         this.stateChannelEventListener = new StateChannelEventListener(
             this.self,
-            this.stateChannelManagerContract,
-            this.p2pEventHooks
+            this.stateChannelManagerContract
         );
         this.agreementManager = new AgreementManager();
         this.disputeHandler = new DisputeHandler(
@@ -91,7 +90,7 @@ class StateManager {
     //Mark resources for garbage collection
     public async dispose() {
         this.isDisposed = true;
-        this.stateChannelEventListener.dispose();
+        await this.stateChannelEventListener.dispose();
         await this.p2pManager.dispose();
     }
     public setP2pEventHooks(p2pEventHooks: P2pEventHooks) {
-- 
2.43.0


From f6cbb267a6cd36737a037018883b21fecbaea850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:08 +0000
Subject: [PATCH 62/69] fix: a failure after collecting a posted block is
 contained

---
 src/stateManager/StateManager.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/stateManager/StateManager.ts b/src/stateManager/StateManager.ts
index e7e0d5f..1c9b7ec 100644
--- a/src/stateManager/StateManager.ts
+++ b/src/stateManager/StateManager.ts
@@ -148,7 +148,9 @@ class StateManager {
             console.log("Error disputing posted block", error);
         });
         console.log("StateManager - collectOnChainBlock - done");
-        this.onSuccessCommon();
+        this.onSuccessCommon().catch((error) => {
+            console.log("Error after collecting posted block", error);
+        });
     }
     private async tryExecuteFromQueue() {
         let signedBlocks = this.agreementManager.tryDequeueBlocks(
-- 
2.43.0


From 8126d8d563bdf7f6f988a128c6f8b7107798e82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:35 +0000
Subject: [PATCH 63/69] fix: a disposed node raises no timeout

---
 src/stateManager/StateManager.ts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/stateManager/StateManager.ts b/src/stateManager/StateManager.ts
index 1c9b7ec..bf3a6ef 100644
--- a/src/stateManager/StateManager.ts
+++ b/src/stateManager/StateManager.ts
@@ -442,6 +442,8 @@ class StateManager {
         participantAdr: string
     ) {
         if (participantAdr == this.signerAddress) return;
+        // a disposed node hears of no more blocks
+        if (this.isDisposed) return;
         if (!this.isBlockMissing(forkCnt, transactionCnt, participantAdr))
             return;
         const response =
@@ -458,6 +460,7 @@ class StateManager {
         try {
             // the block may have arrived in the meantime
             if (
+                this.isDisposed ||
                 !this.isBlockMissing(forkCnt, transactionCnt, participantAdr) ||
                 (await this.stateMachine.getNextToWrite()) !== participantAdr
             )
-- 
2.43.0


From 7d37cbb45fffa3af5ff47a4cfd9d6ad702fb760c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:28 +0000
Subject: [PATCH 64/69] fix: a join request is only signed for the own channel
 and never as a block

---
 src/rpc/services/JoinChannelService.ts | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/rpc/services/JoinChannelService.ts b/src/rpc/services/JoinChannelService.ts
index c69272d..9bbedf4 100644
--- a/src/rpc/services/JoinChannelService.ts
+++ b/src/rpc/services/JoinChannelService.ts
@@ -1,6 +1,9 @@
-import { SignatureLike } from "ethers";
+import { ethers, SignatureLike } from "ethers";
 import { ARpcService, MainRpcService } from "@/rpc";
-import { SignedJoinChannelStruct } from "@typechain-types/contracts/V1/DataTypes";
+import {
+    JoinChannelStruct,
+    SignedJoinChannelStruct
+} from "@typechain-types/contracts/V1/DataTypes";
 import { EvmUtils, SignatureCollectionMap } from "@/utils";
 import Clock from "@/Clock";
 
@@ -36,6 +39,7 @@ class JoinChannelService extends ARpcService {
                     signedJoinChannel.signature as SignatureLike
                 );
                 if (jc.participant != retrivedAddress) return; //TODO! Disconnect from peer
+                if (!this.isSafeToSign(jc, key)) return;
                 //TODO! - analyzie retrivedAddress and apply subjectivivity to decide if to proceed or not
                 //TODO! StateObserver can be triggered for this subjectivity too
                 let mySignedJC = await EvmUtils.signJoinChannel(
@@ -84,6 +88,20 @@ class JoinChannelService extends ARpcService {
             return;
         }
     }
+
+    private isSafeToSign(
+        jc: JoinChannelStruct,
+        encodedJoinChannel: string
+    ): boolean {
+        let { stateManager } = this.mainRpcService.p2pManager;
+        if (jc.channelId !== stateManager.getChannelId()) return false;
+        //Blocks are signed the same way. Bytes that can also be read as a block could be held against this node,
+        //they have an offset within them where a request has the channel id
+        return (
+            ethers.toBigInt(jc.channelId) >=
+            ethers.dataLength(encodedJoinChannel)
+        );
+    }
 }
 
 export default JoinChannelService;
-- 
2.43.0


From c0afeb0e32edc1a16882dc700c8fa46514c9f413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:30 +0000
Subject: [PATCH 65/69] fix: a join request is passed on once, with everybody's
 own consent

---
 src/rpc/services/JoinChannelService.ts | 117 +++++++++++++++++--------
 1 file changed, 79 insertions(+), 38 deletions(-)

diff --git a/src/rpc/services/JoinChannelService.ts b/src/rpc/services/JoinChannelService.ts
index 9bbedf4..adf42b3 100644
--- a/src/rpc/services/JoinChannelService.ts
+++ b/src/rpc/services/JoinChannelService.ts
@@ -1,4 +1,4 @@
-import { ethers, SignatureLike } from "ethers";
+import { BytesLike, ethers, SignatureLike } from "ethers";
 import { ARpcService, MainRpcService } from "@/rpc";
 import {
     JoinChannelStruct,
@@ -12,9 +12,12 @@ type JoinChanenelConfirmation = {
     confirmationSignatures: SignatureLike[];
 };
 
+const MAX_TIMER_DELAY_MS = 2 ** 31 - 1; //a longer delay fires at once
+
 class JoinChannelService extends ARpcService {
     // **** part of joinChannel logic ****
     joinChannelMap = new SignatureCollectionMap();
+    joinChannelsQueued = new Set<string>();
     joinChannelQueue: JoinChanenelConfirmation[] = [];
 
     constructor(mainRpcService: MainRpcService) {
@@ -30,65 +33,73 @@ class JoinChannelService extends ARpcService {
             let jc = EvmUtils.decodeJoinChannel(
                 signedJoinChannel.encodedJoinChannel
             );
+            //every peer reads and signs the same bytes - there's only one encoding of a request
+            if (key !== EvmUtils.encodeJoinChannel(jc)) return;
+            if (this.timeRemaining(jc) <= 0) return;
+            if (!this.isAuthentic(jc, signedJoinChannel.signature)) return; //TODO! Disconnect from peer
             if (!this.joinChannelMap.has(key)) {
-                let timeRemaining =
-                    Number(jc.deadlineTimestamp) - Clock.getTimeInSeconds();
-                if (timeRemaining <= 0) return;
-                let retrivedAddress = EvmUtils.retrieveSignerAddressJoinChannel(
-                    jc,
-                    signedJoinChannel.signature as SignatureLike
-                );
-                if (jc.participant != retrivedAddress) return; //TODO! Disconnect from peer
                 if (!this.isSafeToSign(jc, key)) return;
                 //TODO! - analyzie retrivedAddress and apply subjectivivity to decide if to proceed or not
                 //TODO! StateObserver can be triggered for this subjectivity too
-                let mySignedJC = await EvmUtils.signJoinChannel(
-                    jc,
-                    this.mainRpcService.p2pManager.p2pSigner
-                );
-                this.joinChannelMap.tryInsert(key, {
-                    signerAddress: jc.participant.toString(),
-                    signature: mySignedJC.signature as SignatureLike
-                });
-                this.mainRpcService.rpcProxy
-                    .onJoinChannelRequest(
-                        signedJoinChannel,
-                        mySignedJC.signature as SignatureLike
-                    )
-                    .broadcast();
-                setTimeout(() => {
-                    this.joinChannelMap.delete(key); // prune expired
-                }, timeRemaining * 1000);
-                return;
+                await this.consent(key, jc, signedJoinChannel);
             }
             //confirmation logic
-            if (!confirmationSignature) return;
-            let retrivedAddress = EvmUtils.retrieveSignerAddressJoinChannel(
-                jc,
-                confirmationSignature
-            );
             let currentParticipants =
                 await this.mainRpcService.p2pManager.stateManager.getParticipantsCurrent();
-            if (!currentParticipants.includes(retrivedAddress)) return;
-            this.joinChannelMap.tryInsert(key, {
-                signerAddress: retrivedAddress,
-                signature: confirmationSignature
-            });
+            if (!this.joinChannelMap.has(key)) return; //expired in the meantime
+            if (
+                confirmationSignature &&
+                EvmUtils.isStandardSignature(confirmationSignature)
+            ) {
+                let retrivedAddress = EvmUtils.retrieveSignerAddressJoinChannel(
+                    jc,
+                    confirmationSignature
+                );
+                if (currentParticipants.includes(retrivedAddress))
+                    this.joinChannelMap.tryInsert(key, {
+                        signerAddress: retrivedAddress,
+                        signature: confirmationSignature
+                    });
+            }
 
+            if (this.joinChannelsQueued.has(key)) return;
             if (!this.joinChannelMap.didEveryoneSign(key, currentParticipants))
                 return;
+            this.joinChannelsQueued.add(key);
             this.joinChannelQueue.push({
                 signedJoinChannel,
                 confirmationSignatures: this.joinChannelMap
                     .get(key)
+                    .filter((x) =>
+                        currentParticipants.includes(x.signerAddress)
+                    )
                     .map((x) => x.signature)
-            }); //TODO! only pick signatures of current participants
+            });
         } catch (e) {
             console.log(e);
             return;
         }
     }
 
+    private timeRemaining(jc: JoinChannelStruct): number {
+        return Number(jc.deadlineTimestamp) - Clock.getTimeInSeconds();
+    }
+
+    //signed by the one who wants to join
+    private isAuthentic(
+        jc: JoinChannelStruct,
+        signature: SignatureLike | BytesLike
+    ): boolean {
+        return (
+            EvmUtils.isStandardSignature(signature as SignatureLike) &&
+            jc.participant ===
+                EvmUtils.retrieveSignerAddressJoinChannel(
+                    jc,
+                    signature as SignatureLike
+                )
+        );
+    }
+
     private isSafeToSign(
         jc: JoinChannelStruct,
         encodedJoinChannel: string
@@ -102,6 +113,36 @@ class JoinChannelService extends ARpcService {
             ethers.dataLength(encodedJoinChannel)
         );
     }
+
+    private async consent(
+        key: string,
+        jc: JoinChannelStruct,
+        signedJoinChannel: SignedJoinChannelStruct
+    ) {
+        let { p2pSigner } = this.mainRpcService.p2pManager;
+        let mySignedJC = await EvmUtils.signJoinChannel(jc, p2pSigner);
+        let signature = mySignedJC.signature as SignatureLike;
+        let signerAddress = await p2pSigner.getAddress();
+        if (this.joinChannelMap.has(key)) return; //the same request arrived in the meantime
+        this.joinChannelMap.tryInsert(key, { signerAddress, signature });
+        this.mainRpcService.rpcProxy
+            .onJoinChannelRequest(signedJoinChannel, signature)
+            .broadcast();
+        this.pruneWhenExpired(key, jc);
+    }
+
+    private pruneWhenExpired(key: string, jc: JoinChannelStruct) {
+        let timeRemaining = this.timeRemaining(jc);
+        if (timeRemaining <= 0) {
+            this.joinChannelMap.delete(key);
+            this.joinChannelsQueued.delete(key);
+            return;
+        }
+        setTimeout(
+            () => this.pruneWhenExpired(key, jc),
+            Math.min(timeRemaining * 1000, MAX_TIMER_DELAY_MS)
+        );
+    }
 }
 
 export default JoinChannelService;
-- 
2.43.0


From 266b1bc876aa202c2c0869aee4eaf8c7dc4a25dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:11 +0000
Subject: [PATCH 66/69] fix: WebRTC candidates go to the peer the connection is
 for

The candidates of a connection were sent to whoever the node had last
heard from, and a failure to set the offer was an unhandled rejection.
---
 src/rpc/services/WebRTCSetupService.ts | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/rpc/services/WebRTCSetupService.ts b/src/rpc/services/WebRTCSetupService.ts
index c6d88ce..b2d6ad7 100644
--- a/src/rpc/services/WebRTCSetupService.ts
+++ b/src/rpc/services/WebRTCSetupService.ts
@@ -22,19 +22,19 @@ class WebRTCSetupService extends ARpcService {
                 this.mainRpcService.p2pManager
             );
 
+            let senderTransport = this.mainRpcService.senderTransport; // catch it here since async call below
             // Handle ICE candidates
             connection.onicecandidate = (event: any) => {
                 if (event.candidate) {
                     let serializedCandidate = JSON.stringify(event.candidate);
                     this.mainRpcService.rpcProxy
                         .onIceCandidate(serializedCandidate)
-                        .sendOne(this.mainRpcService.senderTransport!);
+                        .sendOne(senderTransport!);
                 }
             };
 
-            let senderTransport = this.mainRpcService.senderTransport; // catch it here since async call below
             let offer = await connection.createOffer();
-            connection.setLocalDescription(offer);
+            await connection.setLocalDescription(offer);
             let adr =
                 this.mainRpcService.p2pManager.profileManager.getProfileByTransport(
                     senderTransport!
@@ -54,13 +54,14 @@ class WebRTCSetupService extends ARpcService {
     public async onOfferWebRTC(serializedOffer: string) {
         try {
             let connection = new RTCPeerConnection();
+            let senderTransport = this.mainRpcService.senderTransport; // catch it here since async call below
             // Handle ICE candidates
             connection.onicecandidate = (event: any) => {
                 if (event.candidate) {
                     let serializedCandidate = JSON.stringify(event.candidate);
                     this.mainRpcService.rpcProxy
                         .onIceCandidate(serializedCandidate)
-                        .sendOne(this.mainRpcService.senderTransport!);
+                        .sendOne(senderTransport!);
                 }
             };
             connection.ondatachannel = (event: any) => {
@@ -70,7 +71,6 @@ class WebRTCSetupService extends ARpcService {
                     this.mainRpcService.p2pManager
                 );
             };
-            let senderTransport = this.mainRpcService.senderTransport; // catch it here since async call below
             let adr =
                 this.mainRpcService.p2pManager.profileManager.getProfileByTransport(
                     senderTransport!
-- 
2.43.0


From 0d6b5d32d50420a05bc5fd3e83e6e4b164ee3286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:10 +0000
Subject: [PATCH 67/69] fix: a disposed node leaves the network to others

A relay of a disposed node that failed made it take the connections of
the node that came after it, and peers that still connected to it were
answered; without any relay joining and disposing failed.
---
 src/Holepunch.ts | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/Holepunch.ts b/src/Holepunch.ts
index 9e1a71f..a8f4405 100644
--- a/src/Holepunch.ts
+++ b/src/Holepunch.ts
@@ -14,13 +14,16 @@ class Holepunch {
     p2pManager: P2PManager;
     topics: Buffer[] = [];
     connectionCount = 0;
+    private isDisposed = false;
     constructor(p2pManager: P2PManager) {
         this.p2pManager = p2pManager;
         console.log("Holepunch - constructor");
         let setup = () => {
+            if (this.isDisposed) return; // the network is used by others by now
             // console.log("Holepunch - setup - swarm", this.swarm);
             this.swarm.removeAllListeners(["connection"]); // since hyperwarm is injected into the runtime, creating a new Holepunch object still holds the same refrence to hyperwarm
             this.swarm.on("connection", (socket: any, info: any) => {
+                if (this.isDisposed) return socket.end();
                 console.log("new connection", ++this.connectionCount);
                 console.log("PeerInfo", info);
                 console.trace();
@@ -56,11 +59,13 @@ class Holepunch {
     }
     //Mark resources for garbage collection
     public async dispose() {
+        this.isDisposed = true;
         this.leaveTopics();
     }
     public async join(topic: Buffer) {
         this.topics.push(topic);
-        let discovery = this.swarm.join(topic, { server: true, client: true });
+        // without a relay there is no swarm (yet)
+        this.swarm?.join(topic, { server: true, client: true });
         console.log("joined topic", topic);
         return;
     }
@@ -77,7 +82,7 @@ class Holepunch {
 
     private leaveTopics() {
         for (let topic of this.topics) {
-            this.swarm.leave(topic);
+            this.swarm?.leave(topic);
             console.log("LEFT TOPIC", topic);
         }
         this.topics = [];
-- 
2.43.0


From 843bfbaff665163c76ee6596fa1a880c1a7f07c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:05 +0000
Subject: [PATCH 68/69] fix: a channel is the same however its id is written

---
 src/evm/P2pSigner.ts             | 4 +++-
 src/stateManager/StateManager.ts | 7 ++++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/evm/P2pSigner.ts b/src/evm/P2pSigner.ts
index c4f0b09..7da1111 100644
--- a/src/evm/P2pSigner.ts
+++ b/src/evm/P2pSigner.ts
@@ -145,7 +145,9 @@ class P2pSigner implements Signer {
 
     public async connectToChannel(channelId: ethers.BytesLike) {
         this.setChannelId(channelId);
-        await this.p2pManager.tryOpenConnectionToChannel(channelId.toString());
+        await this.p2pManager.tryOpenConnectionToChannel(
+            ethers.hexlify(channelId)
+        );
     }
 
     public disconnectFromPeers() {
diff --git a/src/stateManager/StateManager.ts b/src/stateManager/StateManager.ts
index bf3a6ef..a3e47e7 100644
--- a/src/stateManager/StateManager.ts
+++ b/src/stateManager/StateManager.ts
@@ -98,9 +98,10 @@ class StateManager {
         this.disputeHandler.setP2pEventHooks(this.p2pEventHooks);
     }
     public setChannelId(channelId: BytesLike) {
-        this.channelId = channelId;
-        this.disputeHandler.setChannelId(channelId);
-        this.stateChannelEventListener.setChannelId(channelId);
+        // the form the ids in decoded blocks have
+        this.channelId = ethers.hexlify(channelId);
+        this.disputeHandler.setChannelId(this.channelId);
+        this.stateChannelEventListener.setChannelId(this.channelId);
     }
     public getChannelId(): BytesLike {
         return this.channelId;
-- 
2.43.0


From aabd955201a7450955cffc8b5a82d9cbb31ebb0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:09 +0000
Subject: [PATCH 69/69] fix: channels with similar ids do not share a topic

---
 src/P2PManager.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/P2PManager.ts b/src/P2PManager.ts
index 5ac2109..5c030de 100644
--- a/src/P2PManager.ts
+++ b/src/P2PManager.ts
@@ -85,7 +85,8 @@ class P2PManager implements IOnMessage {
             LocalDiscoveryServer.connectToPeers(this.self, channelId);
             return;
         }
-        const topic = Buffer.alloc(32).fill(channelId);
+        // the whole id - as text only its first half would fit
+        const topic = Buffer.alloc(32).fill(ethers.getBytes(channelId));
         await this.holepunch.join(topic);
     }
     public addConnection(transport: ATransport) {
-- 
2.43.0

