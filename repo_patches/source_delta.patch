From 5a66303c56f2f5e05b8ad3776f4775fae47d9993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:49 +0000
Subject: [PATCH 01/43] fix: double sign proof must incriminate a dispute
 participant

---
 .../V1/StateChannelDiamondProxy/DisputeManagerFacet.sol    | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
index 0955b4b..5865fff 100644
--- a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
+++ b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
@@ -506,6 +506,13 @@ contract DisputeManagerFacet is StateChannelCommon {
                 doubleSign.block2.signature
             );
             require(retrived1 == retrived2, ErrorDoubleSignSignersNotTheSame());
+            require(
+                StateChannelUtilLibrary.isAddressInArray(
+                    dispute.participants,
+                    retrived1
+                ),
+                ErrorNotParticipant()
+            );
             //If we're here - the proof is valid
             success =
                 insertIfNotExist(dispute.slashedParticipants, retrived1) ||
-- 
2.43.0


From bedf1a4b6244b084dabc8ab0a7642538afb24501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:49 +0000
Subject: [PATCH 02/43] fix: incorrect data proof must incriminate a dispute
 participant

---
 .../V1/StateChannelDiamondProxy/DisputeManagerFacet.sol    | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
index 5865fff..559d0c2 100644
--- a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
+++ b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
@@ -552,6 +552,13 @@ contract DisputeManagerFacet is StateChannelCommon {
                 retrived2 == block2.transaction.header.participant,
             ErrorSignatureInvalid()
         );
+        require(
+            StateChannelUtilLibrary.isAddressInArray(
+                dispute.participants,
+                retrived2
+            ),
+            ErrorNotParticipant()
+        );
         require(
             block1.transaction.header.channelId == dispute.channelId &&
                 block2.transaction.header.channelId == dispute.channelId,
-- 
2.43.0


From 92a757614dbd8ea06547ad4fb1c9ae64eeff6118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:49 +0000
Subject: [PATCH 03/43] fix: join channel proof is valid before the deadline,
 not after it

---
 contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
index 559d0c2..f8e2cce 100644
--- a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
+++ b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
@@ -803,7 +803,7 @@ contract DisputeManagerFacet is StateChannelCommon {
         );
         require(!isParticipant, ErrorJoinChannelAlreadyInChannel());
         require(
-            block.timestamp > jc.deadlineTimestamp,
+            jc.deadlineTimestamp > block.timestamp,
             ErrorJoinChannelExpired()
         );
         require(
-- 
2.43.0


From a33a962b6c0dc34d59eaa78792ef5a216f57efdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:49 +0000
Subject: [PATCH 04/43] fix: enforce the signed deadline in
 join/leaveChannelWithAgreement

---
 .../AStateChannelManagerProxy.sol                         | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/contracts/V1/StateChannelDiamondProxy/AStateChannelManagerProxy.sol b/contracts/V1/StateChannelDiamondProxy/AStateChannelManagerProxy.sol
index 9ee6327..27db380 100644
--- a/contracts/V1/StateChannelDiamondProxy/AStateChannelManagerProxy.sol
+++ b/contracts/V1/StateChannelDiamondProxy/AStateChannelManagerProxy.sol
@@ -121,6 +121,10 @@ abstract contract AStateChannelManagerProxy is
             success,
             "AStateChannelManager: joinChannelWithAgreement - initial signature invalid"
         );
+        require(
+            joinChannel.deadlineTimestamp > block.timestamp,
+            "AStateChannelManager: joinChannelWithAgreement - deadline expired"
+        );
 
         //apply joinChannelComposable
         success = _addParticipantComposable(joinChannel);
@@ -199,6 +203,10 @@ abstract contract AStateChannelManagerProxy is
             success,
             "AStateChannelManager: leaveChannelWithAgreement - signatures invalid"
         );
+        require(
+            leaveChannel.deadlineTimestamp > block.timestamp,
+            "AStateChannelManager: leaveChannelWithAgreement - deadline expired"
+        );
 
         address[] memory p = new address[](1);
         p[0] = leaveChannel.participant;
-- 
2.43.0


From 286c13291555bc97d2d3f6b9652663bd5dc6cdbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:49 +0000
Subject: [PATCH 05/43] fix: join/leaveChannelWithAgreement called onlySelf
 wrappers and always reverted

---
 .../AStateChannelManagerProxy.sol                   | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/contracts/V1/StateChannelDiamondProxy/AStateChannelManagerProxy.sol b/contracts/V1/StateChannelDiamondProxy/AStateChannelManagerProxy.sol
index 27db380..fe20ceb 100644
--- a/contracts/V1/StateChannelDiamondProxy/AStateChannelManagerProxy.sol
+++ b/contracts/V1/StateChannelDiamondProxy/AStateChannelManagerProxy.sol
@@ -137,7 +137,7 @@ abstract contract AStateChannelManagerProxy is
         JoinChannel[] memory joinCahnnels = new JoinChannel[](1);
         joinCahnnels[0] = joinChannel;
         uint successCnt;
-        (encodedState, successCnt) = applyJoinChannelToStateMachine(
+        (encodedState, successCnt) = _applyJoinChannelToStateMachine(
             encodedState,
             joinCahnnels
         );
@@ -210,11 +210,12 @@ abstract contract AStateChannelManagerProxy is
 
         address[] memory p = new address[](1);
         p[0] = leaveChannel.participant;
-        (
-            bytes memory encodedState,
-            ProcessExit[] memory pe,
-            uint successCnt
-        ) = removeParticipantsFromStateMachine(encodedState, p);
+        ProcessExit[] memory pe;
+        uint successCnt;
+        (encodedState, pe, successCnt) = _removeParticipantsFromStateMachine(
+            encodedState,
+            p
+        );
         require(
             successCnt == 1,
             "AStateChannelManager: leaveChannelWithAgreement - removeParticipantsFromStateMachine failed"
-- 
2.43.0


From 14e12d3bad7b1d13bc5466ef91b3595d0408e16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:49 +0000
Subject: [PATCH 06/43] fix: a new dispute started from the record of the
 previous one

---
 .../V1/StateChannelDiamondProxy/DisputeManagerFacet.sol      | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
index f8e2cce..61f14c5 100644
--- a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
+++ b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
@@ -187,6 +187,11 @@ contract DisputeManagerFacet is StateChannelCommon {
             require(timedoutParticipant != msg.sender, ErrorTimeoutSelf());
         }
         Dispute storage dispute = disputes[channelId];
+        //Pay out the exits of the previous (expired) dispute before its record is reused
+        for (uint i = 0; i < dispute.processExits.length; i++) {
+            removeParticipantComposable(channelId, dispute.processExits[i]);
+        }
+        delete disputes[channelId];
         dispute.channelId = channelId;
         dispute.forkCnt = forkCnt;
         dispute.challengeCnt = 0; //this can be removed - default value
-- 
2.43.0


From eadba014cf2fe0b054357896a89c6dab0a358b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:49 +0000
Subject: [PATCH 07/43] fix: a challenge appended its voting blocks to the ones
 it replaces

---
 contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol | 1 +
 1 file changed, 1 insertion(+)

diff --git a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
index 61f14c5..1508ca8 100644
--- a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
+++ b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
@@ -957,6 +957,7 @@ contract DisputeManagerFacet is StateChannelCommon {
         ConfirmedBlock[] storage _storage,
         ConfirmedBlock[] memory _memory
     ) internal {
+        while (_storage.length > 0) _storage.pop();
         for (uint i = 0; i < _memory.length; i++) {
             _storage.push(_memory[i]);
         }
-- 
2.43.0


From e1f8f9f086fdc64339a3b906c55bc75a9d402e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:49 +0000
Subject: [PATCH 08/43] fix: a dispute created at genesis could not be
 challenged

---
 .../DisputeManagerFacet.sol                   | 32 +++++++++++--------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
index 1508ca8..c6e8c65 100644
--- a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
+++ b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
@@ -269,19 +269,25 @@ contract DisputeManagerFacet is StateChannelCommon {
             ),
             ErrorLatestFinalizedBlock()
         );
-        Block memory oldBlock = abi.decode(
-            dispute.virtualVotingBlocks[0].encodedBlock,
-            (Block)
-        );
-        Block memory newBlock = abi.decode(
-            virtualVotingBlocks[0].encodedBlock,
-            (Block)
-        );
-        require(
-            newBlock.transaction.header.transactionCnt >=
-                oldBlock.transaction.header.transactionCnt,
-            ErrorChallengeNewFinalizedBeforeOldFinalized()
-        );
+        if (dispute.virtualVotingBlocks.length > 0) {
+            require(
+                virtualVotingBlocks.length > 0,
+                ErrorChallengeNewFinalizedBeforeOldFinalized()
+            );
+            Block memory oldBlock = abi.decode(
+                dispute.virtualVotingBlocks[0].encodedBlock,
+                (Block)
+            );
+            Block memory newBlock = abi.decode(
+                virtualVotingBlocks[0].encodedBlock,
+                (Block)
+            );
+            require(
+                newBlock.transaction.header.transactionCnt >=
+                    oldBlock.transaction.header.transactionCnt,
+                ErrorChallengeNewFinalizedBeforeOldFinalized()
+            );
+        }
         copyConfirmedBlockArrayIntoStorage(
             dispute.virtualVotingBlocks,
             virtualVotingBlocks
-- 
2.43.0


From f5ee615ca798efb9d88f1e69f45027b94795718d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:49 +0000
Subject: [PATCH 09/43] fix: newer state proof must be strictly newer and must
 work at genesis

---
 .../DisputeManagerFacet.sol                   | 25 +++++++++++--------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
index c6e8c65..d6210e5 100644
--- a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
+++ b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
@@ -667,17 +667,20 @@ contract DisputeManagerFacet is StateChannelCommon {
             retrivedAddress == dispute.postedStateDisputer,
             ErrorNewerStateConfirmationInvalid()
         );
-        Block memory latestKnownBlock = abi.decode(
-            dispute
-                .virtualVotingBlocks[dispute.virtualVotingBlocks.length - 1]
-                .encodedBlock,
-            (Block)
-        );
-        require(
-            _block.transaction.header.transactionCnt >=
-                latestKnownBlock.transaction.header.transactionCnt,
-            ErrorTransactionCountMismatch()
-        );
+        //No voting blocks -> the disputer claims genesis is the latest state - any block is newer
+        if (dispute.virtualVotingBlocks.length > 0) {
+            Block memory latestKnownBlock = abi.decode(
+                dispute
+                    .virtualVotingBlocks[dispute.virtualVotingBlocks.length - 1]
+                    .encodedBlock,
+                (Block)
+            );
+            require(
+                _block.transaction.header.transactionCnt >
+                    latestKnownBlock.transaction.header.transactionCnt,
+                ErrorTransactionCountMismatch()
+            );
+        }
         return
             insertIfNotExist(
                 dispute.slashedParticipants,
-- 
2.43.0


From 3254a9d0b5f056bcd4a19ae5e8753651775aa8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:49 +0000
Subject: [PATCH 10/43] fix: genesis dispute without voting blocks accepted an
 arbitrary latest state

---
 .../V1/StateChannelDiamondProxy/DisputeManagerFacet.sol     | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
index d6210e5..27bf05d 100644
--- a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
+++ b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
@@ -959,6 +959,12 @@ contract DisputeManagerFacet is StateChannelCommon {
             previousStateHash = _block.stateHash;
         }
 
+        //No voting blocks -> nothing was played on top of the finalized state
+        if (
+            virtualVotingBlocks.length == 0 &&
+            finalizedStateHash != keccak256(encodedLatestCorrectState)
+        ) return false;
+
         return isGenesis || countThreshold == thresholdSingers.length;
     }
 
-- 
2.43.0


From 36e23c64c1c011fa876697b786cc7dc8a130c527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:49 +0000
Subject: [PATCH 11/43] fix: voting blocks had to be signed by their author but
 not by a participant

---
 .../V1/StateChannelDiamondProxy/DisputeManagerFacet.sol     | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
index 27bf05d..65ac98b 100644
--- a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
+++ b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
@@ -930,7 +930,11 @@ contract DisputeManagerFacet is StateChannelCommon {
                     );
             }
             require(
-                isSignedByParticipant,
+                isSignedByParticipant &&
+                    StateChannelUtilLibrary.isAddressInArray(
+                        thresholdSingers,
+                        _block.transaction.header.participant
+                    ),
                 ErrorFinalizedAndLatestNotSignedByParticipant()
             );
             if (i == 0 && !isGenesis) {
-- 
2.43.0


From f97163a8eefb77f5facfcf90a0a8e8471a4602a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:49 +0000
Subject: [PATCH 12/43] fix: timeout at transaction 0 was accepted on top of
 later blocks

---
 .../V1/StateChannelDiamondProxy/DisputeManagerFacet.sol      | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
index 65ac98b..5f72226 100644
--- a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
+++ b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
@@ -150,6 +150,11 @@ contract DisputeManagerFacet is StateChannelCommon {
                     ErrorTimeoutNotLinkedToPreviousBlock()
                 );
                 latestTimestamp = lastBlock.transaction.header.timestamp;
+            } else {
+                require(
+                    virtualVotingBlocks.length == 0,
+                    ErrorTimeoutNotLinkedToPreviousBlock()
+                );
             }
             require(
                 timedoutParticipant ==
-- 
2.43.0


From d086cbfbbcc22812bb14b9f364234bd07a721d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:49 +0000
Subject: [PATCH 13/43] fix: fold prior block proof folded the author of the
 last voting block

---
 .../V1/StateChannelDiamondProxy/DisputeManagerFacet.sol      | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
index 5f72226..6d5ee6f 100644
--- a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
+++ b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
@@ -707,7 +707,10 @@ contract DisputeManagerFacet is StateChannelCommon {
             if (
                 _block.transaction.header.transactionCnt ==
                 foldPriorBlockProof.transactionCnt
-            ) isTransactionCntInVirtualVotes = true;
+            ) {
+                isTransactionCntInVirtualVotes = true;
+                break;
+            }
         }
         require(
             isTransactionCntInVirtualVotes,
-- 
2.43.0


From 0424ddc772b1aa847e44398546a829d15deef5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:49 +0000
Subject: [PATCH 14/43] fix: fold rechallenge proof without an active timeout

---
 contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
index 6d5ee6f..ac8d35c 100644
--- a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
+++ b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
@@ -468,6 +468,10 @@ contract DisputeManagerFacet is StateChannelCommon {
             foldRechallengeProof.signatures
         );
         require(succeeds, ErrorSignatureInvalid());
+        require(
+            dispute.timedoutParticipant != address(0),
+            ErrorTimeoutInvalid()
+        );
         dispute.timedoutParticipant = address(0); //Undo the fold
         return
             insertIfNotExist(
-- 
2.43.0


From b3ad99c9101522f7902b994cd8f7c575da09be09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:03 +0000
Subject: [PATCH 15/43] fix: incorrect data proof must compare two consecutive
 blocks

The pre-state was only linked by its hash: when a state repeats, an older block
(or genesis) with the same state hash could be passed as the preceding block, and
an honest block was reported for its timestamp.
---
 .../V1/StateChannelDiamondProxy/DisputeManagerFacet.sol     | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
index ac8d35c..6a53d7d 100644
--- a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
+++ b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
@@ -592,6 +592,7 @@ contract DisputeManagerFacet is StateChannelCommon {
         uint previousTimestamp;
         //If encodedState is genesis => Block2 is first block and block1 is just a copy of block2 and is ignored
         if (
+            block2.transaction.header.transactionCnt == 0 &&
             isGenesisState(
                 dispute.channelId,
                 dispute.forkCnt,
@@ -611,6 +612,11 @@ contract DisputeManagerFacet is StateChannelCommon {
         } else {
             //Not genesis - block2 builds on block1
             //Check linked
+            require(
+                block1.transaction.header.transactionCnt + 1 ==
+                    block2.transaction.header.transactionCnt,
+                ErrorTransactionCountMismatch()
+            );
             require(
                 block2.previousStateHash == block1.stateHash,
                 ErrorIncorrectDataBlocksNotLinked()
-- 
2.43.0


From 890720d86f7ef838aba1686189663cc923d3ccf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:20 +0000
Subject: [PATCH 16/43] fix: fold rechallenge proofs were never sent for
 disputes read from the chain

Uints decoded by ethers are bigints, so the strict comparison with a number
was always false and every proof against a wrong timeout was filtered out.
---
 src/ProofManager.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ProofManager.ts b/src/ProofManager.ts
index 47774df..4a219a4 100644
--- a/src/ProofManager.ts
+++ b/src/ProofManager.ts
@@ -217,7 +217,7 @@ class ProofManager {
         const block = EvmUtils.decodeBlock(foldRechallengeProof.encodedBlock);
         const sameTransactionCnt =
             Number(block.transaction.header.transactionCnt) ===
-            dispute.foldedTransactionCnt;
+            Number(dispute.foldedTransactionCnt);
         const sameParticipant =
             block.transaction.header.participant ===
             dispute.timedoutParticipant;
-- 
2.43.0


From 5ec5353db146bf3d71b656dde417b38b6b72ed23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:20 +0000
Subject: [PATCH 17/43] fix: challenge the dispute at its current challenge
 count

challengeDispute only accepts the current challengeCnt of the dispute, so a
challenge sent with the count plus one always reverted.
---
 src/DisputeHandler.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DisputeHandler.ts b/src/DisputeHandler.ts
index e2b34d7..12dd5a5 100644
--- a/src/DisputeHandler.ts
+++ b/src/DisputeHandler.ts
@@ -281,7 +281,7 @@ class DisputeHandler {
                 .challengeDispute(
                     this.channelId,
                     dispute.forkCnt,
-                    Number(dispute.challengeCnt) + 1,
+                    dispute.challengeCnt,
                     proofs,
                     virtualVotingBlocks,
                     encodedLatestFinalizedState,
-- 
2.43.0


From 461482c3ef343fb169ed1d8ab590ef256761a611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:20 +0000
Subject: [PATCH 18/43] fix: incorrect data proof must hold the prior block,
 then the incorrect one

The contract executes block2 on the state which block1 commits to; the blocks
were swapped and the state was the one after the incorrect block.
---
 src/ProofManager.ts | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ProofManager.ts b/src/ProofManager.ts
index 4a219a4..a77e41d 100644
--- a/src/ProofManager.ts
+++ b/src/ProofManager.ts
@@ -408,21 +408,21 @@ class ProofManager {
 
         const priorEncodedState = this.agreementManager.getEncodedState(
             forkCnt,
-            transactionCnt
+            transactionCnt - 1
         );
 
         if (!priorEncodedState) {
             throw new Error(
-                `Prior encoded state not found for fork ${forkCnt}, transaction ${transactionCnt}`
+                `Prior encoded state not found for fork ${forkCnt}, transaction ${transactionCnt - 1}`
             );
         }
 
         return {
-            block1: incorrectBlockSigned,
-            block2: {
+            block1: {
                 encodedBlock: EvmUtils.encodeBlock(priorBlock),
                 signature: priorBlockOriginalSignature as string
             },
+            block2: incorrectBlockSigned,
             encodedState: priorEncodedState
         };
     }
-- 
2.43.0


From 1879021e75429ad7cc3019b4104ab98743e656cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:20 +0000
Subject: [PATCH 19/43] fix: ethers types of proofs and join agreements must
 match the Solidity structs

---
 src/types/disputes.ts | 10 +++++-----
 src/types/ethers.ts   |  6 ++++--
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/types/disputes.ts b/src/types/disputes.ts
index bb79ad7..4039b69 100644
--- a/src/types/disputes.ts
+++ b/src/types/disputes.ts
@@ -1,7 +1,7 @@
 import { SignedBlockEthersType } from "./ethers";
 
 export const FoldRechallengeProofEthersType = `tuple(
-    string encodedBlock,
+    bytes encodedBlock,
     bytes[] signatures
     )`;
 
@@ -11,14 +11,14 @@ export const DoubleSignProofEthersType = `tuple(
 export const IncorrectDataProofEthersType = `tuple(
     ${SignedBlockEthersType} block1,
     ${SignedBlockEthersType} block2,
-    string encodedState
+    bytes encodedState
     )`;
 export const NewerStateProofEthersType = `tuple(
-    string encodedBlock,
-    string confirmationSignature
+    bytes encodedBlock,
+    bytes confirmationSignature
     )`;
 export const FoldPriorBlockProofEthersType = `tuple(
-    uint moveCnt
+    uint transactionCnt
     )`;
 export const BlockTooFarInFutureProofEthersType = `tuple(
     ${SignedBlockEthersType} block1
diff --git a/src/types/ethers.ts b/src/types/ethers.ts
index d974dba..181becc 100644
--- a/src/types/ethers.ts
+++ b/src/types/ethers.ts
@@ -35,8 +35,10 @@ export const SignedJoinChannelEthersType = `tuple(
 
 export const JoinChannelAgreementEthersType = `tuple(
                   ${SignedJoinChannelEthersType} signedJoinChannel,
-                  uint nextTransactionCnt,
-                  bytes32 latestStateHash)`;
+                  address submitter,
+                  uint forkCnt,
+                  uint transactionCnt,
+                  bytes32 previousStateHash)`;
 
 export const ConfirmedJoinChannelAgreementEthersType = `tuple(
                     bytes encodedJoinChannelAgreement,
-- 
2.43.0


From 1d445a83cb7e2f36d984192b0cca3efdf671f468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:21 +0000
Subject: [PATCH 20/43] fix: a block whose validation throws was processed as
 accepted

The decision defaulted to SUCCESS and was processed in a finally block, so a
block which made the validation throw was confirmed with our signature. The
mutex was also left locked whenever processing the decision failed.
---
 src/stateManager/StateManager.ts | 80 ++++++++++++--------------------
 1 file changed, 30 insertions(+), 50 deletions(-)

diff --git a/src/stateManager/StateManager.ts b/src/stateManager/StateManager.ts
index ab76248..a2455a8 100644
--- a/src/stateManager/StateManager.ts
+++ b/src/stateManager/StateManager.ts
@@ -231,37 +231,26 @@ class StateManager {
         signedBlock: SignedBlockStruct,
         block?: BlockStruct
     ): Promise<ExecutionFlags> {
-        // Default everything to SUCCESS + no AgreementFlag
-        let finalExecutionFlag: ExecutionFlags = ExecutionFlags.SUCCESS;
-        let finalAgreementFlag: AgreementFlag | undefined = undefined;
         const decodedBlock =
             block ?? EvmUtils.decodeBlock(signedBlock.encodedBlock);
 
+        await this.mutex.lock();
         try {
-            await this.mutex.lock();
-            const result = await this.validationService.validateSignedBlock(
-                signedBlock,
-                decodedBlock
-            );
-
-            finalExecutionFlag = result.flag;
-            finalAgreementFlag = result.agreementFlag;
-
-            return finalExecutionFlag;
-        } finally {
-            // Safety check: must have an execution flag
-            if (finalExecutionFlag === undefined) {
-                throw new Error(
-                    "StateManager - onSignedBlock - Internal Error - flag undefined"
+            // If the validation throws, there is no decision to process
+            const { flag, agreementFlag } =
+                await this.validationService.validateSignedBlock(
+                    signedBlock,
+                    decodedBlock
                 );
-            }
 
-            // Process the final decision
             await this.processExecutionDecision(
                 signedBlock,
-                finalExecutionFlag,
-                finalAgreementFlag
+                flag,
+                agreementFlag
             );
+
+            return flag;
+        } finally {
             this.mutex.unlock();
         }
     }
@@ -272,40 +261,31 @@ class StateManager {
         confirmationSignature: BytesLike,
         block?: BlockStruct
     ): Promise<ExecutionFlags> {
-        let finalExecutionFlag: ExecutionFlags = ExecutionFlags.SUCCESS; // Default to SUCCESS
         const decodedBlock =
             block ?? EvmUtils.decodeBlock(signedBlock.encodedBlock);
 
-        try {
-            const result =
-                await this.validationService.validateBlockConfirmation(
-                    signedBlock,
-                    confirmationSignature,
-                    decodedBlock
-                );
-            finalExecutionFlag = result.flag;
-
-            if (result.success) {
-                this.agreementManager.confirmBlock(
-                    decodedBlock,
-                    confirmationSignature as SignatureLike
-                );
-            }
-
-            return finalExecutionFlag;
-        } finally {
-            if (finalExecutionFlag === undefined) {
-                throw new Error(
-                    "StateManager - onBlockConfirmation - Internal Error - flag undefined"
-                );
-            }
-
-            await this.processConfirmationDecision(
+        // If the validation throws, there is no decision to process
+        const { success, flag } =
+            await this.validationService.validateBlockConfirmation(
                 signedBlock,
-                confirmationSignature as SignatureLike,
-                finalExecutionFlag
+                confirmationSignature,
+                decodedBlock
+            );
+
+        if (success) {
+            this.agreementManager.confirmBlock(
+                decodedBlock,
+                confirmationSignature as SignatureLike
             );
         }
+
+        await this.processConfirmationDecision(
+            signedBlock,
+            confirmationSignature as SignatureLike,
+            flag
+        );
+
+        return flag;
     }
 
     //Aplies a transaction to the state machine and returns the encoded state with a success callback
-- 
2.43.0


From 7ed1cb2368573af97394504c74674ea6e4f024ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:21 +0000
Subject: [PATCH 21/43] fix: queueing a confirmation used the wrong receiver
 and always threw

---
 src/stateManager/StateManager.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/stateManager/StateManager.ts b/src/stateManager/StateManager.ts
index a2455a8..ccc4545 100644
--- a/src/stateManager/StateManager.ts
+++ b/src/stateManager/StateManager.ts
@@ -525,8 +525,9 @@ class StateManager {
         const ctx: ConfirmationDecisionContext = {
             isDisposed: this.isDisposed,
             tryConfirmFromQueue: this.tryConfirmFromQueue.bind(this),
-            queueConfirmation:
-                this.agreementManager.queueConfirmation.bind(this)
+            queueConfirmation: this.agreementManager.queueConfirmation.bind(
+                this.agreementManager
+            )
         };
 
         await processConfirmationDecision(
-- 
2.43.0


From 5f685d44139f73e4a0c0f4f08d95b9682301c07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:21 +0000
Subject: [PATCH 22/43] fix: blocks received before the channel opens must be
 queued, not dropped

The latest fork count is never negative, so the channel always looked open.
---
 src/agreementManager/AgreementManager.ts |  4 ++++
 src/stateManager/StateManager.ts         |  2 +-
 src/stateManager/ValidationService.ts    | 10 +++++-----
 3 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/agreementManager/AgreementManager.ts b/src/agreementManager/AgreementManager.ts
index 83dee02..3681cc2 100644
--- a/src/agreementManager/AgreementManager.ts
+++ b/src/agreementManager/AgreementManager.ts
@@ -86,6 +86,10 @@ class AgreementManager {
 
         agreement.blockSignatures.push(confirmationSignature);
     }
+    // false until the channel is opened (the first fork is set)
+    public hasFork(): boolean {
+        return this.forkService.getNextForkIndex() > 0;
+    }
     public getLatestForkCnt(): number {
         return this.forkService.getLatestForkCnt();
     }
diff --git a/src/stateManager/StateManager.ts b/src/stateManager/StateManager.ts
index ccc4545..0a03e3a 100644
--- a/src/stateManager/StateManager.ts
+++ b/src/stateManager/StateManager.ts
@@ -579,7 +579,7 @@ class StateManager {
     // ----- Private validation helper methods -----
 
     private isChannelOpen(): boolean {
-        return this.getForkCnt() !== -1;
+        return this.agreementManager.hasFork();
     }
 }
 
diff --git a/src/stateManager/ValidationService.ts b/src/stateManager/ValidationService.ts
index dd8f32f..e89386d 100644
--- a/src/stateManager/ValidationService.ts
+++ b/src/stateManager/ValidationService.ts
@@ -48,12 +48,12 @@ export default class ValidationService {
         const forkCnt = BlockUtils.getFork(blk);
         const height = BlockUtils.getHeight(blk);
 
-        if (!this.isChannelOpen()) return notReady();
-
-        // Validate block
+        // Validate block - before anything is queued
         if (!this.isSignedBlockAuthentic(signedBlock, blk, this.getChannelId()))
             return disconnect();
 
+        if (!this.isChannelOpen()) return notReady();
+
         // Check fork status
         if (
             this.isPastFork(forkCnt) ||
@@ -119,9 +119,9 @@ export default class ValidationService {
     ): Promise<ValidationResult> {
         const blk = block ?? EvmUtils.decodeBlock(signed.encodedBlock);
 
-        if (!this.isChannelOpen()) return notReady();
         if (!this.isSignedBlockAuthentic(signed, blk, this.getChannelId()))
             return disconnect();
+        if (!this.isChannelOpen()) return notReady();
         if (this.isPastFork(BlockUtils.getFork(blk))) return pastFork();
 
         // Ensure block in chain
@@ -248,7 +248,7 @@ export default class ValidationService {
         return this.agreementManager.getLatestForkCnt();
     }
     private isChannelOpen(): boolean {
-        return this.getForkCnt() >= 0;
+        return this.agreementManager.hasFork();
     }
     private isPastFork(f: number): boolean {
         return f < this.getForkCnt();
-- 
2.43.0


From 2d7a064e9e5700dd704ee7d5102bcace4f1f65f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:21 +0000
Subject: [PATCH 23/43] fix: reject blocks signed over a non-canonical encoding

The stored block is re-encoded for confirmations and proofs, and the signature
of its author does not verify for that encoding.
---
 src/stateManager/ValidationService.ts | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/stateManager/ValidationService.ts b/src/stateManager/ValidationService.ts
index e89386d..ebc16d3 100644
--- a/src/stateManager/ValidationService.ts
+++ b/src/stateManager/ValidationService.ts
@@ -270,6 +270,11 @@ export default class ValidationService {
     ): boolean {
         if (BlockUtils.getChannelId(block) !== expectedChannelId) return false;
 
+        // the signature must also hold for the re-encoded block, which is the
+        // one that is stored, confirmed and used in proofs
+        if (ethers.hexlify(signed.encodedBlock) !== EvmUtils.encodeBlock(block))
+            return false;
+
         const h = ethers.keccak256(signed.encodedBlock);
         const signer = ethers.verifyMessage(
             ethers.getBytes(h),
-- 
2.43.0


From b4c1b158b65027ed0247c795f85d8e29a3de11f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:48 +0000
Subject: [PATCH 24/43] fix: store the own join signature under the own address

It was attributed to the joining participant, so the signature of this peer
was never counted and the channel never reached a full set of signatures.
---
 src/rpc/services/JoinChannelService.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rpc/services/JoinChannelService.ts b/src/rpc/services/JoinChannelService.ts
index c69272d..55260e0 100644
--- a/src/rpc/services/JoinChannelService.ts
+++ b/src/rpc/services/JoinChannelService.ts
@@ -43,7 +43,8 @@ class JoinChannelService extends ARpcService {
                     this.mainRpcService.p2pManager.p2pSigner
                 );
                 this.joinChannelMap.tryInsert(key, {
-                    signerAddress: jc.participant.toString(),
+                    signerAddress:
+                        this.mainRpcService.p2pManager.p2pSigner.signerAddress.toString(),
                     signature: mySignedJC.signature as SignatureLike
                 });
                 this.mainRpcService.rpcProxy
-- 
2.43.0


From f0d2c5967cbeafacfaf99ce4102b4870e6d9da3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:48 +0000
Subject: [PATCH 25/43] fix: a malformed RPC from a peer must not end in an
 unhandled rejection

The RPC methods are async and were called without waiting for them, so an
error while handling a message from a peer terminated the process.
---
 src/P2PManager.ts         |  5 ++++-
 src/rpc/MainRpcService.ts | 22 +++++++++++-----------
 2 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/P2PManager.ts b/src/P2PManager.ts
index 210c330..734fab6 100644
--- a/src/P2PManager.ts
+++ b/src/P2PManager.ts
@@ -65,7 +65,10 @@ class P2PManager implements IOnMessage {
                 return;
             }
             //TODO! set context - calling socket/profile (ATransport)!
-            this.localRpcService[rpc.method](...rpc.params);
+            // the methods are async - their rejections aren't caught by this try
+            Promise.resolve(
+                this.localRpcService[rpc.method](...rpc.params)
+            ).catch((e) => console.error(e));
         } catch (e) {
             //TODO - disconnect from peer
             console.error(e);
diff --git a/src/rpc/MainRpcService.ts b/src/rpc/MainRpcService.ts
index bf715a8..29c4b1b 100644
--- a/src/rpc/MainRpcService.ts
+++ b/src/rpc/MainRpcService.ts
@@ -51,7 +51,7 @@ class MainRpcService {
     // ********************* InitHandskaheService *********************
 
     public async onInitHandshakeRequest(challengeHash: string, time: number) {
-        this.initHandshakeService.onInitHandshakeRequest(challengeHash, time);
+        await this.initHandshakeService.onInitHandshakeRequest(challengeHash, time);
     }
 
     public async onInitHandshakeResponse(
@@ -59,7 +59,7 @@ class MainRpcService {
         responseTime: number,
         preferredTransport: TransportType
     ) {
-        this.initHandshakeService.onInitHandshakeResponse(
+        await this.initHandshakeService.onInitHandshakeResponse(
             signature,
             responseTime,
             preferredTransport
@@ -68,33 +68,33 @@ class MainRpcService {
 
     // ********************* WebRTCSetupService *********************
     public async onOfferWebRTC(offer: string) {
-        this.webRTCSetunService.onOfferWebRTC(offer);
+        await this.webRTCSetunService.onOfferWebRTC(offer);
     }
 
     public async onAnswerWebRTC(answer: string) {
-        this.webRTCSetunService.onAnswerWebRTC(answer);
+        await this.webRTCSetunService.onAnswerWebRTC(answer);
     }
 
     public async onIceCandidate(serializedCandidate: string) {
-        this.webRTCSetunService.onIceCandidate(serializedCandidate);
+        await this.webRTCSetunService.onIceCandidate(serializedCandidate);
     }
 
     // ********************* TESTJoinChannelService - TODO! TEST this is only for test *********************
     public async onSignJoinChannelTEST(jcEncoded: string, jcSignature: string) {
-        this.testJoinChannelService.onSignJoinChannelTEST(
+        await this.testJoinChannelService.onSignJoinChannelTEST(
             jcEncoded,
             jcSignature
         );
     }
     // ********************* DHTDiscoveryService - DHT discovery, common topic, leader introduction to specific channelID *********************
     public async onCanJoinLeaderRequest() {
-        this.dhtDiscoveryService.onCanJoinLeaderRequest();
+        await this.dhtDiscoveryService.onCanJoinLeaderRequest();
     }
     public async onCanJoinLeaderResponse(
         channelId: BytesLike,
         participants: AddressLike[]
     ) {
-        this.dhtDiscoveryService.onCanJoinLeaderResponse(
+        await this.dhtDiscoveryService.onCanJoinLeaderResponse(
             channelId,
             participants
         );
@@ -104,7 +104,7 @@ class MainRpcService {
         signedJoinChannel: SignedJoinChannelStruct,
         confirmationSignature?: SignatureLike
     ) {
-        this.joinChannelService.onJoinChannelRequest(
+        await this.joinChannelService.onJoinChannelRequest(
             signedJoinChannel,
             confirmationSignature
         );
@@ -112,14 +112,14 @@ class MainRpcService {
 
     // ********************* StateTransitionService *********************
     public async onSignedBlock(signedBlock: SignedBlockStruct) {
-        this.stateTransitionService.onSignedBlock(signedBlock);
+        await this.stateTransitionService.onSignedBlock(signedBlock);
     }
 
     public async onBlockConfirmation(
         originalSignedBlock: SignedBlockStruct,
         confirmationSignature: BytesLike
     ) {
-        this.stateTransitionService.onBlockConfirmation(
+        await this.stateTransitionService.onBlockConfirmation(
             originalSignedBlock,
             confirmationSignature
         );
-- 
2.43.0


From 736f9a06a62fb18fed4cdf216857da0000923da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:48 +0000
Subject: [PATCH 26/43] fix: answer the peer that sent the message, not the
 last one heard from

The sender of the current RPC was read again after an await and in later
callbacks, when another peer's message may already have replaced it.
---
 src/rpc/services/InitHandshakeService.ts | 3 ++-
 src/rpc/services/WebRTCSetupService.ts   | 8 ++++----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/rpc/services/InitHandshakeService.ts b/src/rpc/services/InitHandshakeService.ts
index 8450d8b..f61bcb9 100644
--- a/src/rpc/services/InitHandshakeService.ts
+++ b/src/rpc/services/InitHandshakeService.ts
@@ -31,6 +31,7 @@ class InitHandshakeService extends ARpcService {
     }
 
     public async onInitHandshakeRequest(challengeHash: string, time: number) {
+        let senderTransport = this.mainRpcService.senderTransport; // catch it here since async call below
         let localTime = Clock.getTimeInSeconds();
         if (
             Math.abs(time - localTime) >
@@ -63,7 +64,7 @@ class InitHandshakeService extends ARpcService {
                 localTime,
                 this.mainRpcService.p2pManager.preferredTransport
             )
-            .sendOne(this.mainRpcService.senderTransport!);
+            .sendOne(senderTransport!);
     }
 
     public async onInitHandshakeResponse(
diff --git a/src/rpc/services/WebRTCSetupService.ts b/src/rpc/services/WebRTCSetupService.ts
index c6d88ce..ae28f5e 100644
--- a/src/rpc/services/WebRTCSetupService.ts
+++ b/src/rpc/services/WebRTCSetupService.ts
@@ -22,17 +22,17 @@ class WebRTCSetupService extends ARpcService {
                 this.mainRpcService.p2pManager
             );
 
+            let senderTransport = this.mainRpcService.senderTransport; // catch it here since async call below
             // Handle ICE candidates
             connection.onicecandidate = (event: any) => {
                 if (event.candidate) {
                     let serializedCandidate = JSON.stringify(event.candidate);
                     this.mainRpcService.rpcProxy
                         .onIceCandidate(serializedCandidate)
-                        .sendOne(this.mainRpcService.senderTransport!);
+                        .sendOne(senderTransport!);
                 }
             };
 
-            let senderTransport = this.mainRpcService.senderTransport; // catch it here since async call below
             let offer = await connection.createOffer();
             connection.setLocalDescription(offer);
             let adr =
@@ -54,13 +54,14 @@ class WebRTCSetupService extends ARpcService {
     public async onOfferWebRTC(serializedOffer: string) {
         try {
             let connection = new RTCPeerConnection();
+            let senderTransport = this.mainRpcService.senderTransport; // catch it here since async call below
             // Handle ICE candidates
             connection.onicecandidate = (event: any) => {
                 if (event.candidate) {
                     let serializedCandidate = JSON.stringify(event.candidate);
                     this.mainRpcService.rpcProxy
                         .onIceCandidate(serializedCandidate)
-                        .sendOne(this.mainRpcService.senderTransport!);
+                        .sendOne(senderTransport!);
                 }
             };
             connection.ondatachannel = (event: any) => {
@@ -70,7 +71,6 @@ class WebRTCSetupService extends ARpcService {
                     this.mainRpcService.p2pManager
                 );
             };
-            let senderTransport = this.mainRpcService.senderTransport; // catch it here since async call below
             let adr =
                 this.mainRpcService.p2pManager.profileManager.getProfileByTransport(
                     senderTransport!
-- 
2.43.0


From ac1a5d3e73c99b1ebdff7ca2ddd2d81dbeb89bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:48 +0000
Subject: [PATCH 27/43] fix: removing a connection must close its transport
 without a profile too

A peer that failed the handshake, and has no profile yet, kept its connection
open and could go on sending RPCs.
---
 src/P2PManager.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/P2PManager.ts b/src/P2PManager.ts
index 734fab6..f51000a 100644
--- a/src/P2PManager.ts
+++ b/src/P2PManager.ts
@@ -93,7 +93,8 @@ class P2PManager implements IOnMessage {
             (t) => t !== transport
         );
         let profile = this.profileManager.getProfileByTransport(transport);
-        profile && this.profileManager.removeTransport(transport);
+        if (profile) this.profileManager.removeTransport(transport);
+        else transport.close();
     }
     public disconnectAll() {
         for (let transport of this.openConnections) {
-- 
2.43.0


From e283e2e17ff1e613d022980313fabb3e04e70958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:48 +0000
Subject: [PATCH 28/43] fix: the handshake must not sign a block hash chosen by
 the peer

The challenge was signed exactly like the hash of a block or join request, so
any peer could obtain a signature on a block by sending its hash.
---
 src/rpc/services/InitHandshakeService.ts | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/rpc/services/InitHandshakeService.ts b/src/rpc/services/InitHandshakeService.ts
index f61bcb9..d3095ab 100644
--- a/src/rpc/services/InitHandshakeService.ts
+++ b/src/rpc/services/InitHandshakeService.ts
@@ -52,10 +52,9 @@ class InitHandshakeService extends ARpcService {
         console.log(
             `onInitHandshakeRequest - localTime:${localTime} time:${time}`
         );
-        let challengeHashBytes = ethers.getBytes(challengeHash);
         let signature =
             await this.mainRpcService.p2pManager.p2pSigner.signMessage(
-                challengeHashBytes
+                this.getChallengeMessage(challengeHash)
             );
         console.log(`onInitHandshakeRequest - done`);
         this.mainRpcService.rpcProxy
@@ -100,8 +99,10 @@ class InitHandshakeService extends ARpcService {
             return;
         }
         //verify signature
-        let challengeHashBytes = ethers.getBytes(challenge.randomChallengeHash);
-        let signerAddress = ethers.verifyMessage(challengeHashBytes, signature);
+        let signerAddress = ethers.verifyMessage(
+            this.getChallengeMessage(challenge.randomChallengeHash),
+            signature
+        );
         // let p =
         //     this.p2pManager.profileManager.getProfileByEvmAddress(
         //         signerAddress
@@ -153,6 +154,10 @@ class InitHandshakeService extends ARpcService {
         //     .broadcast();
     }
 
+    // The challenge is chosen by the peer - what is signed must never be the hash of a block
+    private getChallengeMessage(challengeHash: string): string {
+        return `state-channels-plus handshake ${challengeHash}`;
+    }
     private setChallenge(
         transport: ATransport,
         challenge: ConnectionChallenge
-- 
2.43.0


From f986dcd37f91305f2cbefeb1450f8ca546b01212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:39 +0000
Subject: [PATCH 29/43] fix: reject signatures in a form which the contract
 cannot verify

One confirmation stored in compact form (or with v = 0 | 1) made every proof
that includes the block's signatures revert on chain.
---
 src/stateManager/ValidationService.ts | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/stateManager/ValidationService.ts b/src/stateManager/ValidationService.ts
index ebc16d3..8aa29d7 100644
--- a/src/stateManager/ValidationService.ts
+++ b/src/stateManager/ValidationService.ts
@@ -139,6 +139,9 @@ export default class ValidationService {
             }
         }
 
+        if (!this.isSignatureCanonical(confirmationSig as SignatureLike))
+            return disconnect();
+
         /* confirmer inside fork */
         const confirmer = EvmUtils.retrieveSignerAddressBlock(
             blk,
@@ -275,6 +278,9 @@ export default class ValidationService {
         if (ethers.hexlify(signed.encodedBlock) !== EvmUtils.encodeBlock(block))
             return false;
 
+        if (!this.isSignatureCanonical(signed.signature as SignatureLike))
+            return false;
+
         const h = ethers.keccak256(signed.encodedBlock);
         const signer = ethers.verifyMessage(
             ethers.getBytes(h),
@@ -283,6 +289,12 @@ export default class ValidationService {
 
         return signer === BlockUtils.getBlockAuthor(block);
     }
+
+    // ethers also verifies signature objects, compact signatures and v = 0 | 1,
+    // but the contract only accepts 65 bytes with v = 27 | 28
+    private isSignatureCanonical(signature: SignatureLike): boolean {
+        return signature === ethers.Signature.from(signature).serialized;
+    }
 }
 
 /* small helpers for clarity */
-- 
2.43.0


From 8077155c56d458948cf943c1b5974f79c772fab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:39 +0000
Subject: [PATCH 30/43] fix: a dispute without a timeout must pass the zero
 address

"0x00" isn't an address: ethers rejects it, and the dispute was never sent.
---
 src/DisputeHandler.ts                 | 2 +-
 src/stateManager/StateManager.ts      | 4 ++--
 src/stateManager/ValidationService.ts | 9 ++++++---
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/DisputeHandler.ts b/src/DisputeHandler.ts
index 12dd5a5..a55f1e9 100644
--- a/src/DisputeHandler.ts
+++ b/src/DisputeHandler.ts
@@ -13,7 +13,7 @@ import ProofManager from "./ProofManager";
 let DEBUG_DISPUTE_HANDLER = true;
 
 // Constants for commonly used values
-const NO_PARTICIPANT_TO_FOLD = "0x00";
+const NO_PARTICIPANT_TO_FOLD = ethers.ZeroAddress;
 const INITIAL_TRANSACTION_COUNT = 0;
 
 type ForkCnt = number;
diff --git a/src/stateManager/StateManager.ts b/src/stateManager/StateManager.ts
index 0a03e3a..34f6efc 100644
--- a/src/stateManager/StateManager.ts
+++ b/src/stateManager/StateManager.ts
@@ -147,7 +147,7 @@ class StateManager {
                 ]);
             this.disputeHandler.createDispute(
                 block.transaction.header.forkCnt,
-                "0x00",
+                ethers.ZeroAddress,
                 0,
                 [disputeProof]
             );
@@ -159,7 +159,7 @@ class StateManager {
                 );
             this.disputeHandler.createDispute(
                 block.transaction.header.forkCnt,
-                "0x00",
+                ethers.ZeroAddress,
                 0,
                 [disputeProof]
             );
diff --git a/src/stateManager/ValidationService.ts b/src/stateManager/ValidationService.ts
index 8aa29d7..2cfa6d6 100644
--- a/src/stateManager/ValidationService.ts
+++ b/src/stateManager/ValidationService.ts
@@ -205,9 +205,12 @@ export default class ValidationService {
         );
         if (flag === ExecutionFlags.DISPUTE) {
             const proof = ProofManager.createBlockTooFarInFutureProof(signed);
-            this.disputeHandler.createDispute(this.getForkCnt(), "0x00", 0, [
-                proof
-            ]);
+            this.disputeHandler.createDispute(
+                this.getForkCnt(),
+                ethers.ZeroAddress,
+                0,
+                [proof]
+            );
         }
         return flag;
     }
-- 
2.43.0


From 7908b11531f68c974cf6c34ef4573a41cdb3bcaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:39 +0000
Subject: [PATCH 31/43] fix: check again before a delayed timeout of a
 participant

The participant may have written the block, or posted it on chain, in the time
between the check and the delayed dispute.
---
 src/stateManager/StateManager.ts | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/stateManager/StateManager.ts b/src/stateManager/StateManager.ts
index 34f6efc..c8c4efd 100644
--- a/src/stateManager/StateManager.ts
+++ b/src/stateManager/StateManager.ts
@@ -443,20 +443,15 @@ class StateManager {
             );
             console.log("Timeout participant!");
         } else {
+            // Check everything again after the delay - the participant can still act
             scheduleTask(
-                async () => {
-                    this.disputeHandler.createDispute(
+                () =>
+                    this.tryTimeoutParticipant(
                         forkCnt,
-                        participantAdr,
                         transactionCnt,
-                        []
-                    );
-                    console.log(
-                        "Timeout participant! - delayed",
-                        delayTimeSeconds
-                    );
-                },
-                delayTimeSeconds * 1000,
+                        participantAdr
+                    ),
+                (delayTimeSeconds + 1) * 1000,
                 "timeoutParticipantDelayed"
             );
         }
-- 
2.43.0


From ccb500ed99b14b8125f0dd80426f566a37840d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:39 +0000
Subject: [PATCH 32/43] fix: new event hooks must also reach the on-chain event
 listener

---
 src/StateChannelEventListener.ts | 3 +++
 src/stateManager/StateManager.ts | 1 +
 2 files changed, 4 insertions(+)

diff --git a/src/StateChannelEventListener.ts b/src/StateChannelEventListener.ts
index 618b59f..8cbae1f 100644
--- a/src/StateChannelEventListener.ts
+++ b/src/StateChannelEventListener.ts
@@ -25,6 +25,9 @@ class StateChannelEventListener {
 
         // stateChannelManagerContract.off(stateChannelManagerContract.getEvent("GameCreated"));
     }
+    public setP2pEventHooks(p2pEventHooks: P2pEventHooks) {
+        this.p2pEventHooks = p2pEventHooks;
+    }
     //Mark resources for garbage collection
     public dispose() {
         // this.stateChannelManagerContract.removeAllListeners();
diff --git a/src/stateManager/StateManager.ts b/src/stateManager/StateManager.ts
index c8c4efd..2a33603 100644
--- a/src/stateManager/StateManager.ts
+++ b/src/stateManager/StateManager.ts
@@ -100,6 +100,7 @@ class StateManager {
     public setP2pEventHooks(p2pEventHooks: P2pEventHooks) {
         this.p2pEventHooks = p2pEventHooks;
         this.disputeHandler.setP2pEventHooks(p2pEventHooks);
+        this.stateChannelEventListener.setP2pEventHooks(p2pEventHooks);
     }
     public setChannelId(channelId: BytesLike) {
         this.channelId = channelId;
-- 
2.43.0


From 008afe87361b59ec01bb31527aa8fe5a2c8ea98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:39 +0000
Subject: [PATCH 33/43] fix: a repeated SetState event reset the state under
 the current fork

The state machine was overwritten even when the fork was ignored, and in the
middle of validating a block.
---
 src/agreementManager/AgreementManager.ts |  3 +++
 src/stateManager/StateManager.ts         | 28 +++++++++++++++---------
 2 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/agreementManager/AgreementManager.ts b/src/agreementManager/AgreementManager.ts
index 3681cc2..e698575 100644
--- a/src/agreementManager/AgreementManager.ts
+++ b/src/agreementManager/AgreementManager.ts
@@ -90,6 +90,9 @@ class AgreementManager {
     public hasFork(): boolean {
         return this.forkService.getNextForkIndex() > 0;
     }
+    public isNextFork(forkCnt: number): boolean {
+        return this.forkService.getNextForkIndex() === forkCnt;
+    }
     public getLatestForkCnt(): number {
         return this.forkService.getLatestForkCnt();
     }
diff --git a/src/stateManager/StateManager.ts b/src/stateManager/StateManager.ts
index 2a33603..35e429b 100644
--- a/src/stateManager/StateManager.ts
+++ b/src/stateManager/StateManager.ts
@@ -214,17 +214,25 @@ class StateManager {
         _timestamp: BigNumberish
     ): Promise<void> {
         console.log("StateManager - SetState", _forkCnt, _timestamp);
-        await this.stateMachine.setState(encodedState);
-        this.agreementManager.newFork(
-            encodedState,
-            await this.stateMachine.getParticipants(),
-            Number(_forkCnt),
-            Number(_timestamp)
-        );
+        await this.mutex.lock();
+        try {
+            // Only the next fork changes the state (the event can be repeated)
+            if (!this.agreementManager.isNextFork(Number(_forkCnt))) return;
 
-        //Try timeout next participant
-        this.p2pEventHooks.onSetState?.();
-        return this.onSuccessCommon();
+            await this.stateMachine.setState(encodedState);
+            this.agreementManager.newFork(
+                encodedState,
+                await this.stateMachine.getParticipants(),
+                Number(_forkCnt),
+                Number(_timestamp)
+            );
+
+            //Try timeout next participant
+            this.p2pEventHooks.onSetState?.();
+            await this.onSuccessCommon();
+        } finally {
+            this.mutex.unlock();
+        }
     }
 
     // Passes the signedBlock through a verification pipeline and returns an execution flag based on the outcome
-- 
2.43.0


From ca9f3fe636d67582e75e3937d6ccb4ae8c155e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:39 +0000
Subject: [PATCH 34/43] fix: a transaction for an outdated fork or height
 changed the state

It was applied to the state machine before adding its block failed.
---
 src/stateManager/StateManager.ts | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/stateManager/StateManager.ts b/src/stateManager/StateManager.ts
index 35e429b..f87bd92 100644
--- a/src/stateManager/StateManager.ts
+++ b/src/stateManager/StateManager.ts
@@ -333,6 +333,15 @@ class StateManager {
                     `Not player turn - myAddress: ${String(this.signerAddress)} - nextToWrite: ${await this.stateMachine.getNextToWrite()}`
                 );
             }
+            // The coordinates were read before the lock
+            if (
+                Number(tx.header.forkCnt) !== this.getForkCnt() ||
+                Number(tx.header.transactionCnt) !== this.getNextBlockHeight()
+            ) {
+                throw new Error(
+                    "Transaction isn't for the next block - the channel has advanced"
+                );
+            }
             this.adjustTimestampIfNeeded(tx);
 
             const {
-- 
2.43.0


From c79ff66c22303d997191a8f0be4d15695d2bd5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:39 +0000
Subject: [PATCH 35/43] fix: don't write blocks in a fork which is disputed

---
 src/stateManager/StateManager.ts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/stateManager/StateManager.ts b/src/stateManager/StateManager.ts
index f87bd92..ca0e225 100644
--- a/src/stateManager/StateManager.ts
+++ b/src/stateManager/StateManager.ts
@@ -328,6 +328,9 @@ class StateManager {
             if (!this.isChannelOpen()) {
                 throw new Error("Channel not open");
             }
+            if (this.disputeHandler.isForkDisputed(this.getForkCnt())) {
+                throw new Error("Fork is disputed");
+            }
             if (!(await this.isMyTurn())) {
                 throw new Error(
                     `Not player turn - myAddress: ${String(this.signerAddress)} - nextToWrite: ${await this.stateMachine.getNextToWrite()}`
-- 
2.43.0


From 43d25201adb173e51de6c2c15365f6545d5b2a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:39 +0000
Subject: [PATCH 36/43] fix: undo the state transition when its block isn't
 added

After a rejected block, or a failed signature on an own block, the state
machine was ahead of the agreed blocks.
---
 src/stateManager/StateManager.ts      | 22 +++++++++++++++-------
 src/stateManager/ValidationService.ts | 10 ++++++----
 2 files changed, 21 insertions(+), 11 deletions(-)

diff --git a/src/stateManager/StateManager.ts b/src/stateManager/StateManager.ts
index ca0e225..7be33d7 100644
--- a/src/stateManager/StateManager.ts
+++ b/src/stateManager/StateManager.ts
@@ -347,6 +347,7 @@ class StateManager {
             }
             this.adjustTimestampIfNeeded(tx);
 
+            const previousState = await this.getEncodedState();
             const {
                 success,
                 encodedState,
@@ -360,14 +361,21 @@ class StateManager {
                 );
             }
 
-            const block = await this.createBlock(tx, previousStateHash);
-            const signedBlock = await this.signBlock(block);
+            let block: BlockStruct;
+            let signedBlock: SignedBlockStruct;
+            try {
+                block = await this.createBlock(tx, previousStateHash);
+                signedBlock = await this.signBlock(block);
 
-            this.agreementManager.addBlock(
-                block,
-                signedBlock.signature as SignatureLike,
-                encodedState
-            );
+                this.agreementManager.addBlock(
+                    block,
+                    signedBlock.signature as SignatureLike,
+                    encodedState
+                );
+            } catch (error) {
+                await this.stateMachine.setState(previousState);
+                throw error;
+            }
 
             successCallback();
             await this.onSuccessCommon();
diff --git a/src/stateManager/ValidationService.ts b/src/stateManager/ValidationService.ts
index 2cfa6d6..36720b7 100644
--- a/src/stateManager/ValidationService.ts
+++ b/src/stateManager/ValidationService.ts
@@ -168,9 +168,8 @@ export default class ValidationService {
         block: BlockStruct,
         signed: SignedBlockStruct
     ): Promise<ValidationResult> {
-        const previousStateHash = await this.stateMachine
-            .getState()
-            .then(ethers.keccak256);
+        const previousState = await this.stateMachine.getState();
+        const previousStateHash = ethers.keccak256(previousState);
         let { success: txOK, successCallback } =
             await this.stateMachine.stateTransition(block.transaction);
 
@@ -181,7 +180,10 @@ export default class ValidationService {
             stateHash === block.stateHash &&
             previousStateHash === block.previousStateHash;
 
-        if (!txOK || !hashOK) return dispute(AgreementFlag.INCORRECT_DATA);
+        if (!txOK || !hashOK) {
+            await this.stateMachine.setState(previousState);
+            return dispute(AgreementFlag.INCORRECT_DATA);
+        }
 
         this.agreementManager.addBlock(
             block,
-- 
2.43.0


From 9f94f84ce56a43b6cf62a48d378d8f11ea4c022e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:39 +0000
Subject: [PATCH 37/43] fix: a block with a timestamp before the previous block
 is incorrect data

---
 src/stateManager/ValidationService.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stateManager/ValidationService.ts b/src/stateManager/ValidationService.ts
index 36720b7..10cbd24 100644
--- a/src/stateManager/ValidationService.ts
+++ b/src/stateManager/ValidationService.ts
@@ -230,7 +230,7 @@ export default class ValidationService {
             blockHeight
         );
 
-        if (blockTimestamp < latestTxTs) throw new Error("Not implemented");
+        if (blockTimestamp < latestTxTs) return false;
 
         if (blockTimestamp > initialReferenceTime + this.timeCfg.p2pTime) {
             const chainTs = Number(
-- 
2.43.0


From ae65ab8f5097f547613bbaf656db1370c9a3aa0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:53 +0000
Subject: [PATCH 38/43] fix: newer state proofs were dropped unless the
 disputer wrote the block

The proof is about the latest block the disputer signed, as author or not, and
also holds against a dispute without votes, as in the contract.
---
 src/DisputeHandler.ts |  3 ++-
 src/ProofManager.ts   | 28 ++++++++++++++--------------
 2 files changed, 16 insertions(+), 15 deletions(-)

diff --git a/src/DisputeHandler.ts b/src/DisputeHandler.ts
index a55f1e9..eede585 100644
--- a/src/DisputeHandler.ts
+++ b/src/DisputeHandler.ts
@@ -333,7 +333,8 @@ class DisputeHandler {
     }
 
     private getLastTransactionCount(dispute: DisputeStruct): number {
-        if (dispute.virtualVotingBlocks.length === 0) return 0;
+        // no votes - every block is newer
+        if (dispute.virtualVotingBlocks.length === 0) return -1;
 
         // Extract from the last block
         const lastBlock = EvmUtils.decodeBlock(
diff --git a/src/ProofManager.ts b/src/ProofManager.ts
index a77e41d..4deca27 100644
--- a/src/ProofManager.ts
+++ b/src/ProofManager.ts
@@ -271,27 +271,27 @@ class ProofManager {
 
         const block = EvmUtils.decodeBlock(newerStateProof.encodedBlock);
 
-        if (dispute.virtualVotingBlocks.length === 0) return false;
+        const confirmer = EvmUtils.retrieveSignerAddressBlock(
+            block,
+            newerStateProof.confirmationSignature as string
+        );
+        if (
+            confirmer !== dispute.postedStateDisputer ||
+            dispute.slashedParticipants.includes(confirmer)
+        )
+            return false;
+
+        // no votes - every block is newer
+        if (dispute.virtualVotingBlocks.length === 0) return true;
 
         const latestBlock = EvmUtils.decodeBlock(
             dispute.virtualVotingBlocks[dispute.virtualVotingBlocks.length - 1]
                 .encodedBlock
         );
 
-        const latestTransactionCnt = Number(
-            latestBlock.transaction.header.transactionCnt
-        );
-        const currentTransactionCnt = Number(
-            block.transaction.header.transactionCnt
-        );
-
         return (
-            !dispute.slashedParticipants.includes(
-                block.transaction.header.participant
-            ) &&
-            block.transaction.header.participant ===
-                dispute.postedStateDisputer &&
-            currentTransactionCnt > latestTransactionCnt
+            Number(block.transaction.header.transactionCnt) >
+            Number(latestBlock.transaction.header.transactionCnt)
         );
     }
 
-- 
2.43.0


From 54e754f5290df8d7c803c4b591ff423b73601f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:17 +0000
Subject: [PATCH 39/43] fix: an error in background work terminated the process

Disputes, queue processing and event handling run without anyone waiting for
them; a failed transaction was an unhandled rejection.
---
 src/StateChannelEventListener.ts              | 23 ++++---
 src/stateManager/StateManager.ts              | 65 ++++++++++++-------
 src/stateManager/ValidationService.ts         | 14 ++--
 .../processConfirmationDecisionHandlers.ts    | 13 ++--
 .../processExecutionDecisionHandlers.ts       | 11 +++-
 src/utils/scheduler.ts                        | 10 +++
 6 files changed, 95 insertions(+), 41 deletions(-)

diff --git a/src/StateChannelEventListener.ts b/src/StateChannelEventListener.ts
index 8cbae1f..5ba836f 100644
--- a/src/StateChannelEventListener.ts
+++ b/src/StateChannelEventListener.ts
@@ -4,6 +4,7 @@ import { SignedBlockStruct } from "@typechain-types/contracts/V1/DataTypes";
 import { DisputeStruct } from "@typechain-types/contracts/V1/DisputeTypes";
 import StateManager from "@/stateManager";
 import P2pEventHooks from "@/P2pEventHooks";
+import { runInBackground } from "@/utils";
 
 //TODO - made a PR to ethers.js to fix Deferred Topic Filter
 
@@ -54,10 +55,13 @@ class StateChannelEventListener {
                 let forkCnt = logObj.args.forkCnt;
                 let timestamp = logObj.args.timestamp; //TODO? - potentially sync clock to this too
                 // console.log("Game created event");
-                await this.stateManager.setState(
-                    encodedState,
-                    forkCnt,
-                    timestamp
+                runInBackground(
+                    this.stateManager.setState(
+                        encodedState,
+                        forkCnt,
+                        timestamp
+                    ),
+                    "setState"
                 );
             }
         );
@@ -78,9 +82,12 @@ class StateChannelEventListener {
                 this.p2pEventHooks.onPostedCalldata?.();
                 let signedBlock = logObj.args.signedBlock as SignedBlockStruct;
                 let timestamp = logObj.args.timestamp as BigNumberish;
-                await this.stateManager.collectOnChainBlock(
-                    signedBlock,
-                    timestamp
+                runInBackground(
+                    this.stateManager.collectOnChainBlock(
+                        signedBlock,
+                        timestamp
+                    ),
+                    "collectOnChainBlock"
                 );
             }
         );
@@ -96,7 +103,7 @@ class StateChannelEventListener {
             this.disputeUpdateFilter,
             async (logObj) => {
                 let dispute = logObj.args.dispute as DisputeStruct;
-                await this.stateManager.onDisputeUpdate(dispute);
+                this.stateManager.onDisputeUpdate(dispute);
             }
         );
     }
diff --git a/src/stateManager/StateManager.ts b/src/stateManager/StateManager.ts
index 7be33d7..bd73716 100644
--- a/src/stateManager/StateManager.ts
+++ b/src/stateManager/StateManager.ts
@@ -22,7 +22,13 @@ import DisputeHandler from "@/DisputeHandler";
 import P2PManager from "@/P2PManager";
 
 import AStateMachine from "@/AStateMachine";
-import { EvmUtils, DebugProxy, Mutex, scheduleTask } from "@/utils";
+import {
+    EvmUtils,
+    DebugProxy,
+    Mutex,
+    runInBackground,
+    scheduleTask
+} from "@/utils";
 import StateChannelEventListener from "@/StateChannelEventListener";
 
 import P2pEventHooks from "@/P2pEventHooks";
@@ -125,14 +131,14 @@ class StateManager {
     }
     //Triggered by the On-chain Event Listener when a dispute is emitted on-chain
     public onDisputeUpdate(dispute: DisputeStruct) {
-        this.disputeHandler.onDispute(dispute);
+        runInBackground(this.disputeHandler.onDispute(dispute), "onDispute");
         this.p2pEventHooks.onDisputeUpdate?.(dispute);
     }
     //Triggered by the On-chain Event Listener when block calldata is posted on-chain
-    public collectOnChainBlock(
+    public async collectOnChainBlock(
         signedBlock: SignedBlockStruct,
         timestamp: BigNumberish
-    ) {
+    ): Promise<void> {
         console.log("StateManager - collectOnChainBlock");
         let flag = this.agreementManager.collectOnChainBlock(
             signedBlock,
@@ -146,11 +152,14 @@ class StateManager {
                 this.disputeHandler.proofManager.createDoubleSignProof([
                     signedBlock
                 ]);
-            this.disputeHandler.createDispute(
-                block.transaction.header.forkCnt,
-                ethers.ZeroAddress,
-                0,
-                [disputeProof]
+            runInBackground(
+                this.disputeHandler.createDispute(
+                    block.transaction.header.forkCnt,
+                    ethers.ZeroAddress,
+                    0,
+                    [disputeProof]
+                ),
+                "disputeOnChainBlock"
             );
         } else if (flag == AgreementFlag.INCORRECT_DATA) {
             console.log("StateManager - collectOnChainBlock - incorrect data");
@@ -158,15 +167,18 @@ class StateManager {
                 this.disputeHandler.proofManager.createIncorrectDataProof(
                     signedBlock
                 );
-            this.disputeHandler.createDispute(
-                block.transaction.header.forkCnt,
-                ethers.ZeroAddress,
-                0,
-                [disputeProof]
+            runInBackground(
+                this.disputeHandler.createDispute(
+                    block.transaction.header.forkCnt,
+                    ethers.ZeroAddress,
+                    0,
+                    [disputeProof]
+                ),
+                "disputeOnChainBlock"
             );
         }
         console.log("StateManager - collectOnChainBlock - done");
-        this.onSuccessCommon();
+        runInBackground(this.onSuccessCommon(), "onSuccessCommon");
     }
     private async tryExecuteFromQueue() {
         let signedBlocks = this.agreementManager.tryDequeueBlocks(
@@ -464,11 +476,14 @@ class StateManager {
             (Clock.getTimeInSeconds() -
                 this.agreementManager.getLatestBlockTimestamp(forkCnt));
         if (delayTimeSeconds < 0) {
-            this.disputeHandler.createDispute(
-                forkCnt,
-                participantAdr,
-                transactionCnt,
-                []
+            runInBackground(
+                this.disputeHandler.createDispute(
+                    forkCnt,
+                    participantAdr,
+                    transactionCnt,
+                    []
+                ),
+                "timeoutParticipant"
             );
             console.log("Timeout participant!");
         } else {
@@ -490,8 +505,14 @@ class StateManager {
         // Immediately schedule a confirm/execute from queue on next tick
         scheduleTask(
             () => {
-                this.tryConfirmFromQueue();
-                this.tryExecuteFromQueue();
+                runInBackground(
+                    this.tryConfirmFromQueue(),
+                    "tryConfirmFromQueue"
+                );
+                runInBackground(
+                    this.tryExecuteFromQueue(),
+                    "tryExecuteFromQueue"
+                );
             },
             0,
             "queueProcessing"
diff --git a/src/stateManager/ValidationService.ts b/src/stateManager/ValidationService.ts
index 10cbd24..501cb00 100644
--- a/src/stateManager/ValidationService.ts
+++ b/src/stateManager/ValidationService.ts
@@ -10,6 +10,7 @@ import { AStateChannelManagerProxy } from "@typechain-types/contracts/V1/StateCh
 import {
     BlockUtils,
     EvmUtils,
+    runInBackground,
     scheduleTask,
     subjectiveTimingFlag
 } from "@/utils";
@@ -207,11 +208,14 @@ export default class ValidationService {
         );
         if (flag === ExecutionFlags.DISPUTE) {
             const proof = ProofManager.createBlockTooFarInFutureProof(signed);
-            this.disputeHandler.createDispute(
-                this.getForkCnt(),
-                ethers.ZeroAddress,
-                0,
-                [proof]
+            runInBackground(
+                this.disputeHandler.createDispute(
+                    this.getForkCnt(),
+                    ethers.ZeroAddress,
+                    0,
+                    [proof]
+                ),
+                "disputeBlockTooFarInFuture"
             );
         }
         return flag;
diff --git a/src/stateManager/processConfirmationDecisionHandlers.ts b/src/stateManager/processConfirmationDecisionHandlers.ts
index fdab7e9..c64cac6 100644
--- a/src/stateManager/processConfirmationDecisionHandlers.ts
+++ b/src/stateManager/processConfirmationDecisionHandlers.ts
@@ -1,4 +1,5 @@
 import { ExecutionFlags } from "@/types";
+import { scheduleTask } from "@/utils";
 import { SignedBlockStruct } from "@typechain-types/contracts/V1/DataTypes";
 import { SignatureLike } from "ethers";
 
@@ -26,10 +27,14 @@ export const confirmationDecisionHandlers: Record<
         _confirmationSignature,
         ctx
     ) => {
-        setTimeout(async () => {
-            if (ctx.isDisposed) return;
-            ctx.tryConfirmFromQueue();
-        }, 0);
+        scheduleTask(
+            async () => {
+                if (ctx.isDisposed) return;
+                await ctx.tryConfirmFromQueue();
+            },
+            0,
+            "confirmFromQueue"
+        );
     },
 
     // If not ready, queue the confirmation
diff --git a/src/stateManager/processExecutionDecisionHandlers.ts b/src/stateManager/processExecutionDecisionHandlers.ts
index 117cb4e..b543e87 100644
--- a/src/stateManager/processExecutionDecisionHandlers.ts
+++ b/src/stateManager/processExecutionDecisionHandlers.ts
@@ -1,4 +1,5 @@
 import { ExecutionFlags, AgreementFlag } from "@/types";
+import { runInBackground } from "@/utils";
 import AgreementManager from "@/agreementManager";
 import P2PManager from "@/P2PManager";
 import DisputeHandler from "@/DisputeHandler";
@@ -19,10 +20,16 @@ const disputeHandlers: Partial<
     >
 > = {
     [AgreementFlag.DOUBLE_SIGN]: async (signedBlock, ctx) => {
-        ctx.disputeHandler.disputeDoubleSign([signedBlock]);
+        runInBackground(
+            ctx.disputeHandler.disputeDoubleSign([signedBlock]),
+            "disputeDoubleSign"
+        );
     },
     [AgreementFlag.INCORRECT_DATA]: async (signedBlock, ctx) => {
-        ctx.disputeHandler.disputeIncorrectData(signedBlock);
+        runInBackground(
+            ctx.disputeHandler.disputeIncorrectData(signedBlock),
+            "disputeIncorrectData"
+        );
     }
 };
 
diff --git a/src/utils/scheduler.ts b/src/utils/scheduler.ts
index d265ac6..913ca8e 100644
--- a/src/utils/scheduler.ts
+++ b/src/utils/scheduler.ts
@@ -1,3 +1,13 @@
+/** Doesn't wait for a task, but handles its rejection */
+export function runInBackground(
+    task: Promise<unknown>,
+    taskName: string = "unnamed"
+): void {
+    task.catch((error) =>
+        console.error(`Error executing background task '${taskName}':`, error)
+    );
+}
+
 export function scheduleTask(
     task: () => void | Promise<void>,
     delayMs: number,
-- 
2.43.0


From 2b61c04704be4433d7d0f2747eae76e97d29860a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:17 +0000
Subject: [PATCH 40/43] fix: collecting an on-chain block of a fork not yet
 known here threw

---
 src/agreementManager/OnChainTracker.ts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/agreementManager/OnChainTracker.ts b/src/agreementManager/OnChainTracker.ts
index cd7ec3a..eccaafc 100644
--- a/src/agreementManager/OnChainTracker.ts
+++ b/src/agreementManager/OnChainTracker.ts
@@ -35,6 +35,9 @@ export default class OnChainTracker {
         const { forkCnt, height } = BlockUtils.getCoordinates(blk);
         const participant = BlockUtils.getBlockAuthor(blk);
 
+        // the fork isn't known here yet - the block stays queued
+        if (!this.forks.getFork(forkCnt)) return flag;
+
         if (!this.hasPosted(forkCnt, height, participant)) {
             this.forks.addChainBlock(forkCnt, height, participant, timestamp);
         }
-- 
2.43.0


From f0f70ac524935f1fbc1e17406e883ed22bb129ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:18 +0000
Subject: [PATCH 41/43] fix: a failed event subscription terminated the process

---
 src/stateManager/StateManager.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/stateManager/StateManager.ts b/src/stateManager/StateManager.ts
index bd73716..4924c4d 100644
--- a/src/stateManager/StateManager.ts
+++ b/src/stateManager/StateManager.ts
@@ -111,7 +111,10 @@ class StateManager {
     public setChannelId(channelId: BytesLike) {
         this.channelId = channelId;
         this.disputeHandler.setChannelId(channelId);
-        this.stateChannelEventListener.setChannelId(channelId);
+        runInBackground(
+            this.stateChannelEventListener.setChannelId(channelId),
+            "subscribeToChannel"
+        );
     }
     public getChannelId(): BytesLike {
         return this.channelId;
-- 
2.43.0


From 48708761204839346b8297cf7e73e16abdc17819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:35 +0000
Subject: [PATCH 42/43] fix: a view call never changes the local state

---
 src/evm/ContractExecuter.ts | 14 +++++++++++++-
 src/evm/EvmStateMachine.ts  |  2 +-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/evm/ContractExecuter.ts b/src/evm/ContractExecuter.ts
index 8c2f88e..0049e8b 100644
--- a/src/evm/ContractExecuter.ts
+++ b/src/evm/ContractExecuter.ts
@@ -12,7 +12,19 @@ export default class ContractExecuter {
     }
 
     async executeCall(data: BytesLike): Promise<ExecResult> {
-        const result = await this.evm.runCall({
+        return this.runCall(this.evm, data);
+    }
+
+    /**
+     * Executes a call on a copy of the EVM, so that nothing the call writes
+     * reaches the state of the contract
+     */
+    async simulateCall(data: BytesLike): Promise<ExecResult> {
+        return this.runCall(this.evm.shallowCopy(), data);
+    }
+
+    private async runCall(evm: EVM, data: BytesLike): Promise<ExecResult> {
+        const result = await evm.runCall({
             data: ethers.getBytes(data),
             to: this.contractAddress
         });
diff --git a/src/evm/EvmStateMachine.ts b/src/evm/EvmStateMachine.ts
index bc2cd6e..395fe36 100644
--- a/src/evm/EvmStateMachine.ts
+++ b/src/evm/EvmStateMachine.ts
@@ -101,7 +101,7 @@ class EvmStateMachine extends AStateMachine {
 
     async runView(tx: ethers.TransactionRequest): Promise<string> {
         try {
-            const result = await this.contractExecuter.executeCall(
+            const result = await this.contractExecuter.simulateCall(
                 tx.data as BytesLike
             );
             return hexlify(result.returnValue);
-- 
2.43.0


From 1adb17e5237ba116bbc5801e528a1f27097a97bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:25 +0000
Subject: [PATCH 43/43] fix: a query during a failed transition left parts of
 it in the state

The queries ran on the live EVM, whose checkpoints are not isolated between concurrent calls: the revert of a failing transition then reverted the checkpoint of the query instead of its own.
---
 src/evm/EvmStateMachine.ts | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/evm/EvmStateMachine.ts b/src/evm/EvmStateMachine.ts
index 395fe36..afc2930 100644
--- a/src/evm/EvmStateMachine.ts
+++ b/src/evm/EvmStateMachine.ts
@@ -113,7 +113,7 @@ class EvmStateMachine extends AStateMachine {
     async getParticipants(): Promise<string[]> {
         const callData = this.getEncodedCalldata("getParticipants");
 
-        let result = await this.contractExecuter.executeCall(callData);
+        let result = await this.contractExecuter.simulateCall(callData);
         const hexResult = ethers.hexlify(result.returnValue);
         const [addresses] = ethers.AbiCoder.defaultAbiCoder().decode(
             ["address[]"],
@@ -125,7 +125,7 @@ class EvmStateMachine extends AStateMachine {
     async getNextToWrite(): Promise<string> {
         const callData = this.getEncodedCalldata("getNextToWrite");
         try {
-            let result = await this.contractExecuter.executeCall(callData);
+            let result = await this.contractExecuter.simulateCall(callData);
             const hexResult = ethers.hexlify(result.returnValue);
             const [address] = ethers.AbiCoder.defaultAbiCoder().decode(
                 ["address"],
@@ -154,7 +154,7 @@ class EvmStateMachine extends AStateMachine {
         const callData = this.getEncodedCalldata("getState");
 
         try {
-            let result = await this.contractExecuter.executeCall(callData);
+            let result = await this.contractExecuter.simulateCall(callData);
             const hexResult = ethers.hexlify(result.returnValue);
             const [encodedBytes] = ethers.AbiCoder.defaultAbiCoder().decode(
                 ["bytes"],
-- 
2.43.0

