'use strict';
// behaviour-preserving edits of the client: no check may report anything
const SM = 'src/stateManager/StateManager.ts', VS = 'src/stateManager/ValidationService.ts', PE = 'src/stateManager/processExecutionDecisionHandlers.ts', PC = 'src/stateManager/processConfirmationDecisionHandlers.ts',
  AM = 'src/agreementManager/AgreementManager.ts', BV = 'src/agreementManager/BlockValidator.ts', FS = 'src/agreementManager/ForkService.ts', OC = 'src/agreementManager/OnChainTracker.ts', QS = 'src/agreementManager/QueueService.ts', SS = 'src/agreementManager/SignatureService.ts',
  DH = 'src/DisputeHandler.ts', PM = 'src/ProofManager.ts', BU = 'src/utils/BlockUtils.ts', EU = 'src/utils/EvmUtils.ts', SU = 'src/utils/set.ts';
const ALL = (process.env.PROPS || 'T01 T02 T03 T04 T05 T06 T07 T08 T09 T10 T11 T13 T14 T15 T16 T17 T18 T19 T20 T21 T22 T23 T24 T25 T26 T27 T28 T29 T30 T31').split(/[ ,]+/).filter(Boolean);
const q = (id, file, ...edits) => ({ id: 'q-' + id, file, edits, props: ALL, quiet: true });
module.exports = [
  q('sm-setstate-nest', SM, ['            if (!this.agreementManager.isNextFork(Number(_forkCnt))) return;\n\n            await this.stateMachine.setState(encodedState);\n            this.agreementManager.newFork(\n                encodedState,\n                await this.stateMachine.getParticipants(),\n                Number(_forkCnt),\n                Number(_timestamp)\n            );\n\n            //Try timeout next participant\n            this.p2pEventHooks.onSetState?.();\n            await this.onSuccessCommon();',
    `const forkCnt = Number(_forkCnt);
            if (this.agreementManager.isNextFork(forkCnt)) {
                await this.installState(encodedState, forkCnt, Number(_timestamp));
            }`], ['    // Passes the signedBlock through a verification pipeline and returns an execution flag based',
    `    private async installState(encodedState: string, forkCnt: number, timestamp: number) {
        await this.stateMachine.setState(encodedState);
        const participants = await this.stateMachine.getParticipants();
        this.agreementManager.newFork(encodedState, participants, forkCnt, timestamp);
        if (this.p2pEventHooks.onSetState) this.p2pEventHooks.onSetState();
        await this.onSuccessCommon();
    }
    // Passes the signedBlock through a verification pipeline and returns an execution flag based`]),
  q('sm-onsigned-locals', SM, ['const { flag, agreementFlag } =\n                await this.validationService.validateSignedBlock(\n                    signedBlock,\n                    decodedBlock\n                );', 'const outcome = await this.validationService.validateSignedBlock(signedBlock, decodedBlock);'],
    ['                signedBlock,\n                flag,\n                agreementFlag\n            );\n\n            return flag;', '                signedBlock,\n                outcome.flag,\n                outcome.agreementFlag\n            );\n            return outcome.flag;']),
  q('sm-withlock', SM, ['        await this.mutex.lock();\n        try {\n            // If the validation throws, there is no decision to process\n            const { flag, agreementFlag } =', '        return this.exclusively(async () => {\n            const { flag, agreementFlag } ='],
    ['            return flag;\n        } finally {\n            this.mutex.unlock();\n        }\n    }', '            return flag;\n        });\n    }\n    private async exclusively<T>(fn: () => Promise<T>): Promise<T> {\n        await this.mutex.lock();\n        try {\n            return await fn();\n        } finally {\n            this.mutex.unlock();\n        }\n    }']),
  q('sm-collect-switch', SM, ['        let disputeProof: ProofStruct;\n        if (flag == AgreementFlag.DOUBLE_SIGN) {\n            console.log("StateManager - collectOnChainBlock - double sign");\n            disputeProof =\n                this.disputeHandler.proofManager.createDoubleSignProof([\n                    signedBlock\n                ]);\n            runInBackground(\n                this.disputeHandler.createDispute(\n                    block.transaction.header.forkCnt,\n                    ethers.ZeroAddress,\n                    0,\n                    [disputeProof]\n                ),\n                "disputeOnChainBlock"\n            );\n        } else if (flag == AgreementFlag.INCORRECT_DATA) {\n            console.log("StateManager - collectOnChainBlock - incorrect data");\n            disputeProof =\n                this.disputeHandler.proofManager.createIncorrectDataProof(\n                    signedBlock\n                );\n            runInBackground(',
    `        const proofManager = this.disputeHandler.proofManager;
        let disputeProof: ProofStruct | undefined;
        switch (flag) {
            case AgreementFlag.DOUBLE_SIGN:
                disputeProof = proofManager.createDoubleSignProof([signedBlock]);
                break;
            case AgreementFlag.INCORRECT_DATA:
                disputeProof = proofManager.createIncorrectDataProof(signedBlock);
                break;
        }
        if (disputeProof !== undefined) {
            runInBackground(`]),
  q('sm-collect-helper', SM, ['            runInBackground(\n                this.disputeHandler.createDispute(\n                    block.transaction.header.forkCnt,\n                    ethers.ZeroAddress,\n                    0,\n                    [disputeProof]\n                ),\n                "disputeOnChainBlock"\n            );\n        } else if', '            this.disputeWith(block, disputeProof);\n        } else if'],
    ['            runInBackground(\n                this.disputeHandler.createDispute(\n                    block.transaction.header.forkCnt,\n                    ethers.ZeroAddress,\n                    0,\n                    [disputeProof]\n                ),\n                "disputeOnChainBlock"\n            );\n        }', '            this.disputeWith(block, disputeProof);\n        }'],
    ['    private async tryExecuteFromQueue', '    private disputeWith(block: BlockStruct, proof: ProofStruct) {\n        const forkCnt = block.transaction.header.forkCnt;\n        const dispute = this.disputeHandler.createDispute(forkCnt, ethers.ZeroAddress, 0, [proof]);\n        runInBackground(dispute, "disputeOnChainBlock");\n    }\n    private async tryExecuteFromQueue']),
  q('sm-queue-loops', SM, ['        for (const signedBlock of signedBlocks) {\n            console.log("tryExecuteFromQueue - executing");\n            if (\n                (await this.onSignedBlock(signedBlock)) ==\n                ExecutionFlags.DISPUTE\n            ) {\n                break;\n            }\n        }', '        for (let i = 0; i < signedBlocks.length; i++) {\n            const flag = await this.onSignedBlock(signedBlocks[i]);\n            if (flag === ExecutionFlags.DISPUTE) return;\n        }'],
    ['        for (const confirmation of confirmations) {\n            if (\n                (await this.onBlockConfirmation(\n                    confirmation.originalSignedBlock,\n                    confirmation.confirmationSignature as string\n                )) == ExecutionFlags.DISPUTE\n            ) {\n                break;\n            }\n        }', '        for (const { originalSignedBlock, confirmationSignature } of confirmations) {\n            const flag = await this.onBlockConfirmation(originalSignedBlock, confirmationSignature as string);\n            if (flag === ExecutionFlags.DISPUTE) break;\n        }']),
  q('sm-play-assert', SM, ['            if (!this.isChannelOpen()) {\n                throw new Error("Channel not open");\n            }\n            if (this.disputeHandler.isForkDisputed(this.getForkCnt())) {\n                throw new Error("Fork is disputed");\n            }\n            if (!(await this.isMyTurn())) {\n                throw new Error(\n                    `Not player turn - myAddress: ${String(this.signerAddress)} - nextToWrite: ${await this.stateMachine.getNextToWrite()}`\n                );\n            }\n            // The coordinates were read before the lock\n            if (\n                Number(tx.header.forkCnt) !== this.getForkCnt() ||\n                Number(tx.header.transactionCnt) !== this.getNextBlockHeight()\n            ) {\n                throw new Error(\n                    "Transaction isn\'t for the next block - the channel has advanced"\n                );\n            }\n', '            await this.assertCanAuthor(tx);\n'],
    ['    private async maybePostBlockOnChain(', '    private async assertCanAuthor(tx: TransactionStruct): Promise<void> {\n        const forkCnt = this.getForkCnt();\n        if (!this.agreementManager.hasFork()) throw new Error("Channel not open");\n        if (Number(tx.header.forkCnt) !== forkCnt) throw new Error("stale fork");\n        if (Number(tx.header.transactionCnt) !== this.getNextBlockHeight()) throw new Error("stale height");\n        if (this.disputeHandler.isForkDisputed(forkCnt)) throw new Error("Fork is disputed");\n        const myTurn = await this.isMyTurn();\n        if (!myTurn) throw new Error("Not player turn");\n    }\n\n    private async maybePostBlockOnChain(']),
  q('sm-play-inline', SM, ['            const {\n                success,\n                encodedState,\n                previousStateHash,\n                successCallback\n            } = await this.applyTransaction(tx);\n\n            if (!success) {', '            const previousStateHash = ethers.keccak256(previousState);\n            const { success, successCallback } = await this.stateMachine.stateTransition(tx);\n            const encodedState = await this.getEncodedState();\n            if (success === false) {'],
    ['block = await this.createBlock(tx, previousStateHash);', 'block = { transaction: tx, previousStateHash, stateHash: ethers.keccak256(encodedState) };']),
  q('sm-timeouts-cond', SM, ['        if (block) {\n            if (this.agreementManager.didEveryoneSignBlock(block)) return;\n        }', '        const finalized = block !== undefined && this.agreementManager.didEveryoneSignBlock(block);\n        if (finalized) return;'],
    ['if (participantAdr == this.signerAddress) return;', 'if (this.signerAddress === participantAdr) {\n            return;\n        }'],
    ['        if (\n            Clock.getTimeInSeconds() <\n            this.agreementManager.getChainLatestBlockTimestamp(\n                forkCnt,\n                transactionCnt\n            ) +\n                this.getTimeoutWaitTimeSeconds()\n        )\n            return;', '        const allowance = this.getTimeoutWaitTimeSeconds();\n        const chainTs = this.agreementManager.getChainLatestBlockTimestamp(forkCnt, transactionCnt);\n        if (!(chainTs + allowance <= Clock.getTimeInSeconds())) return;'],
    ['if (delayTimeSeconds < 0) {', 'if (0 > delayTimeSeconds) {']),
  q('sm-timeouts-invert', SM, ['        if (response.found) return;', '        const { found } = response;\n        if (found) return;'], ['        const delayTimeSeconds =\n            this.getTimeoutWaitTimeSeconds() -\n            (Clock.getTimeInSeconds() -\n                this.agreementManager.getLatestBlockTimestamp(forkCnt));', '        const delayTimeSeconds =\n            this.agreementManager.getLatestBlockTimestamp(forkCnt) +\n            this.getTimeoutWaitTimeSeconds() -\n            Clock.getTimeInSeconds();'],
    ['        if (delayTimeSeconds < 0) {\n            runInBackground(', '        if (delayTimeSeconds >= 0) {\n            const again = () => this.tryTimeoutParticipant(forkCnt, transactionCnt, participantAdr);\n            scheduleTask(again, 1000 * (1 + delayTimeSeconds), "timeoutParticipantDelayed");\n        } else {\n            runInBackground('],
    ['            console.log("Timeout participant!");\n        } else {\n            // Check everything again after the delay - the participant can still act\n            scheduleTask(\n                () =>\n                    this.tryTimeoutParticipant(\n                        forkCnt,\n                        transactionCnt,\n                        participantAdr\n                    ),\n                (delayTimeSeconds + 1) * 1000,\n                "timeoutParticipantDelayed"\n            );\n        }', '        }']),
  q('sm-success-extract', SM, ['        scheduleTask(\n            () => {\n                runInBackground(\n                    this.tryConfirmFromQueue(),\n                    "tryConfirmFromQueue"\n                );\n                runInBackground(\n                    this.tryExecuteFromQueue(),\n                    "tryExecuteFromQueue"\n                );\n            },\n            0,\n            "queueProcessing"\n        );', '        scheduleTask(this.processQueues.bind(this), 0, "queueProcessing");'],
    ['    private async onSuccessCommon() {', '    private processQueues(): void {\n        runInBackground(this.tryConfirmFromQueue(), "tryConfirmFromQueue");\n        runInBackground(this.tryExecuteFromQueue(), "tryExecuteFromQueue");\n    }\n\n    private async onSuccessCommon() {'],
    ['        // Schedule a timeout check for the next participant\n        scheduleTask(\n            () =>\n                this.tryTimeoutParticipant(\n                    forkCnt,\n                    nextTransactionCnt,\n                    nextToWrite\n                ),\n            this.getTimeoutWaitTimeSeconds() * 1000,\n            "participantTimeout"\n        );', '        const delayMs = 1000 * this.getTimeoutWaitTimeSeconds();\n        scheduleTask(async () => {\n            await this.tryTimeoutParticipant(forkCnt, nextTransactionCnt, nextToWrite);\n        }, delayMs, "participantTimeout");']),
  q('sm-post-await', SM, ['            this.stateChannelManagerContract\n                .postBlockCalldata(signedBlock)\n                .then((txResponse) => txResponse.wait())\n                .catch((error) => {\n                    console.log("Error posting block on chain", error);\n                });', '            try {\n                const txResponse = await this.stateChannelManagerContract.postBlockCalldata(signedBlock);\n                await txResponse.wait();\n            } catch (error) {\n                console.log("Error posting block on chain", error);\n            }']),
  q('sm-post-early', SM, ['        if (!this.agreementManager.didEveryoneSignBlock(block)) {\n            console.log("Posting calldata on chain!");', '        if (this.agreementManager.didEveryoneSignBlock(block)) return;\n        {\n            console.log("Posting calldata on chain!");']),
  q('sm-keccak-await', SM, ['    public getEncodedStateKecak256(): Promise<string> {\n        return this.getEncodedState().then(ethers.keccak256);\n    }', '    public async getEncodedStateKecak256(): Promise<string> {\n        const state = await this.stateMachine.getState();\n        return ethers.keccak256(state);\n    }'],
    ['        const nextToWrite = await this.stateMachine.getNextToWrite();\n        return this.signerAddress === nextToWrite;', '        return this.stateMachine.getNextToWrite().then((next) => next === this.signerAddress);']),
  q('sm-context', SM, ['        const context: DecisionContext = {\n            p2pManager: this.p2pManager,\n            agreementManager: this.agreementManager,\n            disputeHandler: this.disputeHandler,\n            onSuccessCb: this.onSuccessCommon.bind(this),\n            forkCount: this.getForkCnt()\n        };\n\n        return processExecutionDecision(\n            signedBlock,\n            executionFlag,\n            agreementFlag,\n            context\n        );', '        const { p2pManager, agreementManager, disputeHandler } = this;\n        await processExecutionDecision(signedBlock, executionFlag, agreementFlag, {\n            forkCount: agreementManager.getLatestForkCnt(),\n            onSuccessCb: () => this.onSuccessCommon(),\n            disputeHandler,\n            agreementManager,\n            p2pManager\n        });'],
    ['            tryConfirmFromQueue: this.tryConfirmFromQueue.bind(this),\n            queueConfirmation: this.agreementManager.queueConfirmation.bind(\n                this.agreementManager\n            )', '            tryConfirmFromQueue: async () => {\n                await this.tryConfirmFromQueue();\n            },\n            queueConfirmation: (item) => this.agreementManager.queueConfirmation(item)']),
  q('sm-conf-guard', SM, ['        if (success) {\n            this.agreementManager.confirmBlock(\n                decodedBlock,\n                confirmationSignature as SignatureLike\n            );\n        }\n', '        const signature = confirmationSignature as SignatureLike;\n        if (flag === ExecutionFlags.SUCCESS && success)\n            this.agreementManager.confirmBlock(decodedBlock, signature);\n']),
  q('sm-adjust', SM, ['        const latestBlockTimestamp =\n            this.agreementManager.getLatestBlockTimestamp(this.getForkCnt());\n        if (Number(tx.header.timestamp) < latestBlockTimestamp) {\n            tx.header.timestamp = latestBlockTimestamp + 1;\n        }', '        const { header } = tx;\n        const latest = this.agreementManager.getLatestBlockTimestamp(this.agreementManager.getLatestForkCnt());\n        const tooEarly = latest > Number(header.timestamp);\n        header.timestamp = tooEarly ? latest + 1 : header.timestamp;']),
  q('pe-switch', PE, ['    const handler = executionDecisionHandlers[executionFlag];\n    if (!handler) {\n        throw new Error(\n            `StateManager - processDecision - Unknown ExecutionFlag: ${executionFlag}`\n        );\n    }\n    return handler(signedBlock, agreementFlag, ctx);', '    switch (executionFlag) {\n        case ExecutionFlags.SUCCESS:\n            await ctx.p2pManager.p2pSigner.confirmBlock(signedBlock);\n            await ctx.onSuccessCb();\n            return;\n        case ExecutionFlags.NOT_READY:\n            ctx.agreementManager.queueBlock(signedBlock);\n            return;\n        case ExecutionFlags.DISPUTE:\n            return executionDecisionHandlers[ExecutionFlags.DISPUTE](signedBlock, agreementFlag, ctx);\n        case ExecutionFlags.DUPLICATE:\n        case ExecutionFlags.DISCONNECT:\n        case ExecutionFlags.PAST_FORK:\n        case ExecutionFlags.NOT_ENOUGH_TIME:\n        case ExecutionFlags.TIMESTAMP_IN_FUTURE:\n            return;\n        default:\n            throw new Error("unknown flag");\n    }']),
  q('pe-dispute-if', PE, ['        const disputeHandlerFn = disputeHandlers[agreementFlag];\n        if (!disputeHandlerFn) {\n            throw new Error(\n                `StateManager - processDecision - AgreementFlag ${agreementFlag} - Internal Error`\n            );\n        }\n        await disputeHandlerFn(signedBlock, ctx);', '        if (agreementFlag === AgreementFlag.DOUBLE_SIGN) {\n            runInBackground(ctx.disputeHandler.disputeDoubleSign([signedBlock]), "disputeDoubleSign");\n        } else if (agreementFlag === AgreementFlag.INCORRECT_DATA) {\n            runInBackground(ctx.disputeHandler.disputeIncorrectData(signedBlock), "disputeIncorrectData");\n        } else {\n            throw new Error("internal error");\n        }']),
  q('pc-handlers', PC, ['        scheduleTask(\n            async () => {\n                if (ctx.isDisposed) return;\n                await ctx.tryConfirmFromQueue();\n            },\n            0,\n            "confirmFromQueue"\n        );', '        const confirmNext = async () => {\n            if (!ctx.isDisposed) await ctx.tryConfirmFromQueue();\n        };\n        scheduleTask(confirmNext, 0, "confirmFromQueue");']),
  q('vs-nested', VS, ['        const isFutureFork = forkCnt > this.getForkCnt();\n        const isFutureTransaction = height > this.getNextHeight();\n        if (isFutureFork || isFutureTransaction) return notReady();', '        const nextHeight = this.getNextHeight();\n        if (forkCnt > this.getForkCnt()) return notReady();\n        if (nextHeight < height) return notReady();'],
    ['        if (height < this.getNextHeight()) {\n            const agreementFlag = this.agreementManager.checkBlock(signedBlock);\n\n            if (\n                agreementFlag === AgreementFlag.DOUBLE_SIGN ||\n                agreementFlag === AgreementFlag.INCORRECT_DATA\n            ) {\n                return dispute(agreementFlag);\n            }\n\n            throw new Error(\n                "StateManager - OnSignedBlock - current fork in the past - INTERNAL ERROR"\n            );\n        }', '        if (nextHeight > height) return this.disputePastBlock(signedBlock);'],
    ['    private async processStateTransition(', '    private disputePastBlock(signed: SignedBlockStruct): ValidationResult {\n        const verdict = this.agreementManager.checkBlock(signed);\n        const disputable = [AgreementFlag.DOUBLE_SIGN, AgreementFlag.INCORRECT_DATA];\n        if (!disputable.includes(verdict)) throw new Error("internal error");\n        return dispute(verdict);\n    }\n\n    private async processStateTransition(']),
  q('vs-author', VS, ['        const nextToWrite = await this.stateMachine.getNextToWrite();\n        if (BlockUtils.getBlockAuthor(blk) !== nextToWrite)\n            return dispute(AgreementFlag.INCORRECT_DATA);\n\n        // Process state transition\n        return this.processStateTransition(blk, signedBlock);', '        const author = BlockUtils.getBlockAuthor(blk);\n        const isAuthorsTurn = author === (await this.stateMachine.getNextToWrite());\n        return isAuthorsTurn\n            ? await this.processStateTransition(blk, signedBlock)\n            : dispute(AgreementFlag.INCORRECT_DATA);']),
  q('vs-transition', VS, ['        const hashOK =\n            stateHash === block.stateHash &&\n            previousStateHash === block.previousStateHash;\n\n        if (!txOK || !hashOK) {\n            await this.stateMachine.setState(previousState);\n            return dispute(AgreementFlag.INCORRECT_DATA);\n        }\n\n        this.agreementManager.addBlock(\n            block,\n            signed.signature as SignatureLike,\n            encodedState\n        );\n        scheduleTask(successCallback, 0, "stateTransitionSuccessCallback");\n        return success();', '        const valid =\n            txOK &&\n            block.previousStateHash === previousStateHash &&\n            block.stateHash === stateHash;\n        if (valid) {\n            this.agreementManager.addBlock(block, signed.signature as SignatureLike, encodedState);\n            scheduleTask(() => successCallback(), 0, "cb");\n            return success();\n        }\n        await this.stateMachine.setState(previousState);\n        return dispute(AgreementFlag.INCORRECT_DATA);']),
  q('vs-timestamp', VS, ['        if (blockTimestamp > initialReferenceTime + this.timeCfg.p2pTime) {\n            const chainTs = Number(\n                await this.scmContract.getChainLatestBlockTimestamp(\n                    this.getChannelId(),\n                    forkCnt,\n                    blockHeight\n                )\n            );\n            const updatedReferenceTime = Math.max(\n                initialReferenceTime,\n                chainTs\n            );\n\n            if (blockTimestamp > updatedReferenceTime + this.timeCfg.p2pTime)\n                return false;\n        }\n        return true;', '        const { p2pTime } = this.timeCfg;\n        if (blockTimestamp - p2pTime <= initialReferenceTime) return true;\n        const onChain = await this.scmContract.getChainLatestBlockTimestamp(this.getChannelId(), forkCnt, blockHeight);\n        const reference = Number(onChain) > initialReferenceTime ? Number(onChain) : initialReferenceTime;\n        return blockTimestamp <= reference + p2pTime;']),
  q('vs-auth', VS, ['        return signer === BlockUtils.getBlockAuthor(block);\n    }', '        const author = BlockUtils.getBlockAuthor(block);\n        if (author !== signer) {\n            return false;\n        }\n        return true;\n    }'], ['        if (BlockUtils.getChannelId(block) !== expectedChannelId) return false;\n', '        const { channelId } = block.transaction.header;\n        if (channelId !== expectedChannelId) return false;\n']),
  q('vs-auth-order', VS, ['        if (!this.isSignatureCanonical(signed.signature as SignatureLike))\n            return false;\n\n        const h', '        const h'], ['        if (ethers.hexlify(signed.encodedBlock) !== EvmUtils.encodeBlock(block))\n            return false;\n', '        const canonical = this.isSignatureCanonical(signed.signature as SignatureLike);\n        if (!canonical) return false;\n        const reencoded = EvmUtils.encodeBlock(block);\n        if (reencoded !== ethers.hexlify(signed.encodedBlock)) return false;\n']),
  q('vs-conf', VS, ['            if (flag === ExecutionFlags.DUPLICATE) {\n                // Possibly it has become part of the chain now\n                if (!this.agreementManager.isBlockInChain(blk)) {\n                    return { success: false, flag: ExecutionFlags.NOT_READY };\n                }\n            } else if (flag !== ExecutionFlags.SUCCESS) {\n                // If the processed result is anything else but SUCCESS, we must abort\n                return { success: false, flag };\n            }', '            switch (flag) {\n                case ExecutionFlags.SUCCESS:\n                    break;\n                case ExecutionFlags.DUPLICATE:\n                    if (this.agreementManager.isBlockInChain(blk)) break;\n                    return notReady();\n                default:\n                    return { success: false, flag };\n            }']),
  q('vs-conf-extract', VS, ['        const confirmer = EvmUtils.retrieveSignerAddressBlock(\n            blk,\n            confirmationSig as SignatureLike\n        );\n        if (!this.agreementManager.isParticipantInLatestFork(confirmer))\n            return disconnect();', '        if (!this.isConfirmerInFork(blk, confirmationSig as SignatureLike)) return disconnect();'], ['    /* subjective time window */', '    private isConfirmerInFork(blk: BlockStruct, sig: SignatureLike): boolean {\n        const signer = EvmUtils.retrieveSignerAddressBlock(blk, sig);\n        return this.agreementManager.isParticipantInLatestFork(signer);\n    }\n    /* subjective time window */']),
  q('vs-subjective', VS, ['        if (!(await this.isMyTurn())) return ExecutionFlags.SUCCESS;\n', '        const myTurn = await this.isMyTurn();\n        if (!myTurn) return ExecutionFlags.SUCCESS;\n'], ['        if (flag === ExecutionFlags.DISPUTE) {\n            const proof = ProofManager.createBlockTooFarInFutureProof(signed);\n            runInBackground(', '        if (flag !== ExecutionFlags.DISPUTE) return flag;\n        {\n            const proof = ProofManager.createBlockTooFarInFutureProof(signed);\n            runInBackground(']),
  q('am-confirm', AM, ['        if (!agreement)\n            //should never trigger because of checks before confirming\n            throw new Error(\n                "AgreementManager - confirmBlock - block doesn\'t exist"\n            );\n\n        if (!BlockUtils.areBlocksEqual(agreement.block, block))\n            throw new Error("AgreementManager - confirmBlock - conflict");\n\n        if (\n            SignatureService.doesSignatureExist(\n                agreement,\n                confirmationSignature\n            )\n        )\n            throw new Error(\n                "AgreementManager - confirmBlock - block already confirmed"\n            );\n', '        if (agreement === undefined || !BlockUtils.areBlocksEqual(block, agreement.block))\n            throw new Error("AgreementManager - confirmBlock - no such block");\n        for (const existing of agreement.blockSignatures) {\n            if (existing === confirmationSignature) throw new Error("already confirmed");\n        }\n']),
  q('am-everyone', AM, ['        const signersSet = BlockUtils.getSignerAddresses(\n            block,\n            agreement.blockSignatures\n        );\n\n        const addressesSet = SetUtils.stringSetFromArray(\n            fork.addressesInThreshold\n        );\n        // All threshold addresses must be in the signers set\n        return SetUtils.isSubset(addressesSet, signersSet);', '        const signers = BlockUtils.getSignerAddresses(agreement.block, agreement.blockSignatures);\n        return fork.addressesInThreshold.every((adr) => signers.has(adr.toString()));']),
  q('am-everyone-loop', AM, ['        const addressesSet = SetUtils.stringSetFromArray(\n            fork.addressesInThreshold\n        );\n        // All threshold addresses must be in the signers set\n        return SetUtils.isSubset(addressesSet, signersSet);', '        for (const adr of fork.addressesInThreshold) {\n            if (!signersSet.has(adr as string)) return false;\n        }\n        return true;']),
  q('am-latest', AM, ['            if (didSign)\n                return {\n                    block: agreement.block,\n                    signature: signature!\n                };\n        }\n        return undefined;', '            if (!didSign) continue;\n            const { block } = agreement;\n            return { block, signature: signature! };\n        }\n        return undefined;']),
  q('am-latest-loop', AM, ['        for (const agreement of this.forkService.agreementsIterator(\n            forkCnt,\n            Direction.BACKWARD\n        )) {\n            const { didSign, signature } = BlockUtils.getParticipantSignature(\n                agreement.block,\n                agreement.blockSignatures,\n                participantAdr\n            );', '        const agreements = this.forkService.getFork(forkCnt)!.agreements;\n        for (let i = agreements.length - 1; i >= 0; i--) {\n            const agreement = agreements[i];\n            const { didSign, signature } = SignatureService.getParticipantSignature(agreement, participantAdr);']),
  q('am-votes', AM, ['            if (!encodedLatestCorrectState) continue;\n\n            virtualVotingBlocks.unshift({\n                encodedBlock: EvmUtils.encodeBlock(agreement.block),\n                signatures: agreement.blockSignatures as string[]\n            });\n\n            // Remove the signers we found from required signatures\n            requiredSignatures = SetUtils.difference(\n                requiredSignatures,\n                signersAddresses\n            );\n', '            if (!encodedLatestCorrectState) continue;\n            const { block, blockSignatures } = agreement;\n            requiredSignatures = SetUtils.difference(requiredSignatures, signersAddresses);\n            virtualVotingBlocks.unshift({\n                signatures: blockSignatures as string[],\n                encodedBlock: EvmUtils.encodeBlock(block)\n            });\n']),
  q('am-doublesigned', AM, ['        if (\n            !agreement ||\n            BlockUtils.areBlocksEqual(agreement.block, block) ||\n            BlockUtils.getBlockAuthor(agreement.block) !==\n                BlockUtils.getBlockAuthor(block)\n        ) {\n            return undefined;\n        }\n', '        if (!agreement) return undefined;\n        const author = BlockUtils.getBlockAuthor(block);\n        if (BlockUtils.getBlockAuthor(agreement.block) !== author) return undefined;\n        if (BlockUtils.areBlocksEqual(block, agreement.block)) return undefined;\n']),
  q('am-latestfork', AM, ['        return new Set(fork.addressesInThreshold).has(participant);', '        return fork.addressesInThreshold.includes(participant);'], ['        const fork = this.forkService.getLatestFork();\n        if (!fork) return false;', '        const fork = this.forkService.getLatestFork();\n        if (fork === undefined) return false;']),
  q('am-didsign', AM, ['        if (!agreement || !BlockUtils.areBlocksEqual(agreement.block, block))\n            return { didSign: false, signature: undefined };\n\n        return BlockUtils.getParticipantSignature(\n            agreement.block,\n            agreement.blockSignatures,\n            participant\n        );', '        if (agreement && BlockUtils.areBlocksEqual(agreement.block, block)) {\n            return SignatureService.getParticipantSignature(agreement, participant);\n        }\n        return { signature: undefined, didSign: false };']),
  q('bv-if', BV, ['        if (existing) {\n            return BlockUtils.getBlockAuthor(existing) === participant\n                ? AgreementFlag.DOUBLE_SIGN\n                : AgreementFlag.INCORRECT_DATA;\n        }', '        if (existing !== undefined) {\n            const sameAuthor = participant === BlockUtils.getBlockAuthor(existing);\n            if (sameAuthor) return AgreementFlag.DOUBLE_SIGN;\n            return AgreementFlag.INCORRECT_DATA;\n        }'],
    ['        const prev = this.forks.getBlock(forkCnt, height - 1);\n        if (!prev) return AgreementFlag.NOT_READY;\n\n        return prev.stateHash === block.previousStateHash\n            ? AgreementFlag.READY\n            : AgreementFlag.INCORRECT_DATA;', '        const prev = this.forks.getAgreement(forkCnt, height - 1);\n        if (prev === undefined) return AgreementFlag.NOT_READY;\n        const linked = block.previousStateHash === prev.block.stateHash;\n        return !linked ? AgreementFlag.INCORRECT_DATA : AgreementFlag.READY;']),
  q('bv-genesis', BV, ['        if (height === 0) {\n            const expectedPrev = ethers.keccak256(\n                this.forks.getFork(forkCnt)!.forkGenesisStateEncoded\n            );\n            return block.previousStateHash === expectedPrev\n                ? AgreementFlag.READY\n                : AgreementFlag.INCORRECT_DATA;\n        }\n\n        /* 6 – compare with previous block in chain */\n        const prev = this.forks.getBlock(forkCnt, height - 1);\n        if (!prev) return AgreementFlag.NOT_READY;\n\n        return prev.stateHash === block.previousStateHash\n            ? AgreementFlag.READY\n            : AgreementFlag.INCORRECT_DATA;', '        const expectedPrev = this.expectedPreviousHash(forkCnt, height);\n        if (expectedPrev === undefined) return AgreementFlag.NOT_READY;\n        return block.previousStateHash === expectedPrev ? AgreementFlag.READY : AgreementFlag.INCORRECT_DATA;'],
    ['    check(signed: SignedBlockStruct)', '    private expectedPreviousHash(forkCnt: number, height: number) {\n        if (height === 0) return ethers.keccak256(this.forks.getForkGenesis(forkCnt));\n        return this.forks.getBlock(forkCnt, height - 1)?.stateHash;\n    }\n\n    check(signed: SignedBlockStruct)']),
  q('bv-latest', BV, ['        const lastTs = Number(lastAg?.block.transaction.header.timestamp ?? 0);\n        return Math.max(genesis, lastTs);', '        if (lastAg === undefined) return genesis;\n        const lastTs = BlockUtils.getTimestamp(lastAg.block);\n        return lastTs > genesis ? lastTs : genesis;']),
  q('bv-chain', BV, ['        const ag = this.forks.getAgreementByBlock(block);\n        return ag !== undefined && BlockUtils.areBlocksEqual(ag.block, block);', '        const stored = this.forks.getAgreementByBlock(block)?.block;\n        if (!stored) return false;\n        return BlockUtils.areBlocksEqual(stored, block);']),
  q('fs-add', FS, ['        const agreement = this.getAgreementByBlock(block);\n        if (agreement)\n', '        if (this.getBlock(forkCnt, BlockUtils.getHeight(block)) !== undefined)\n'], ['        this.addAgreement(forkCnt, {\n            block,\n            blockSignatures: [originalSignature],\n            encodedState\n        });', '        const agreement: Agreement = { encodedState, block, blockSignatures: [originalSignature] };\n        this.forks[forkCnt].agreements.push(agreement);']),
  q('fs-latest', FS, ['        const latestTimestamp = latestBlock\n            ? BlockUtils.getTimestamp(latestBlock)\n            : 0;\n        return Math.max(fork.genesisTimestamp, latestTimestamp);', '        if (!latestBlock) return fork.genesisTimestamp;\n        return Math.max(BlockUtils.getTimestamp(latestBlock), fork.genesisTimestamp);'], ['        return this.forks.at(-1)?.agreements.length ?? 0;', '        const latest = this.forks[this.forks.length - 1];\n        return latest ? latest.agreements.length : 0;'], ['        return Math.max(0, this.forks.length - 1);', '        return this.forks.length > 0 ? this.forks.length - 1 : 0;']),
  q('fs-iter', FS, ['            for (let i = agreements.length - 1; i >= 0; i--) {\n                yield agreements[i];\n            }', '            for (let i = agreements.length; i > 0; i--) {\n                yield agreements[i - 1];\n            }'], ['            for (let i = 0; i < agreements.length; i++) {\n                yield agreements[i];\n            }', '            for (const agreement of agreements) yield agreement;']),
  q('fs-newfork', FS, ['        if (this.forks.length !== forkCnt) return;\n        this.forks.push({\n            forkGenesisStateEncoded,\n            addressesInThreshold,\n            genesisTimestamp,\n            chainBlocks: [],\n            agreements: []\n        });', '        if (forkCnt === this.getNextForkIndex()) {\n            const fork: AgreementFork = { agreements: [], chainBlocks: [], genesisTimestamp, addressesInThreshold, forkGenesisStateEncoded };\n            this.forks.push(fork);\n        }']),
  q('oc-collect', OC, ['        if (\n            flag === AgreementFlag.INVALID_SIGNATURE ||\n            flag === AgreementFlag.INCORRECT_DATA ||\n            flag === AgreementFlag.DOUBLE_SIGN\n        )\n            return flag;\n\n        if (flag === AgreementFlag.READY || flag === AgreementFlag.NOT_READY) {\n            this.queues.queueBlock(signed);\n        }\n', '        switch (flag) {\n            case AgreementFlag.INVALID_SIGNATURE:\n            case AgreementFlag.INCORRECT_DATA:\n            case AgreementFlag.DOUBLE_SIGN:\n                return flag;\n            case AgreementFlag.READY:\n            case AgreementFlag.NOT_READY:\n                this.queues.queueBlock(signed);\n        }\n'],
    ['        if (!this.forks.getFork(forkCnt)) return flag;\n\n        if (!this.hasPosted(forkCnt, height, participant)) {', '        if (this.forks.isValidForkCnt(forkCnt) && !this.hasPosted(forkCnt, height, participant)) {']),
  q('oc-latest', OC, ['        let latest = 0;\n        for (const cb of fork.chainBlocks) {\n            if (cb.transactionCnt > maxHeight) continue;\n            if (cb.timestamp > latest) latest = cb.timestamp;\n        }\n        return latest;', '        let latest = 0;\n        for (const { transactionCnt, timestamp } of fork.chainBlocks) {\n            if (transactionCnt <= maxHeight) latest = Math.max(latest, timestamp);\n        }\n        return latest;']),
  q('oc-latest-fe', OC, ['        for (const cb of fork.chainBlocks) {\n            if (cb.transactionCnt > maxHeight) continue;\n            if (cb.timestamp > latest) latest = cb.timestamp;\n        }', '        fork.chainBlocks\n            .filter((cb) => cb.transactionCnt <= maxHeight)\n            .forEach((cb) => {\n                if (cb.timestamp > latest) latest = cb.timestamp;\n            });']),
  q('oc-posted', OC, ['        return (\n            !!fork &&\n            fork.chainBlocks.some(\n                (cb) =>\n                    cb.transactionCnt === height &&\n                    cb.participantAdr === address\n            )\n        );', '        if (!fork) return false;\n        for (const cb of fork.chainBlocks) {\n            if (cb.participantAdr === address && cb.transactionCnt === height) return true;\n        }\n        return false;']),
  q('qs-insert', QS, ['    if (!forkMap.has(forkCnt)) {\n        forkMap.set(forkCnt, new Map());\n    }\n    const heightMap = forkMap.get(forkCnt)!;\n    if (!heightMap.has(height)) {\n        heightMap.set(height, new Map());\n    }\n    const addressMap = heightMap.get(height)!;\n\n    addressMap.set(address, element);', '    let heightMap = forkMap.get(forkCnt);\n    if (!heightMap) {\n        heightMap = new Map();\n        forkMap.set(forkCnt, heightMap);\n    }\n    let addressMap = heightMap.get(height);\n    if (!addressMap) {\n        addressMap = new Map();\n        heightMap.set(height, addressMap);\n    }\n    addressMap.set(address, element);']),
  q('qs-dequeue', QS, ['    tryDequeueBlocks(forkCnt: ForkCnt, height: Height): SignedBlockStruct[] {\n        const heightMap = this.blockQ.get(forkCnt);\n        if (!heightMap) return [];\n\n        const txMap = heightMap.get(height);\n        if (!txMap) return [];\n\n        const signedBlocks = Array.from(txMap.values());\n        heightMap.delete(height);\n\n        return signedBlocks;\n    }', '    private static takeAll<T>(queue: Queue<T>, forkCnt: ForkCnt, height: Height): T[] {\n        const heightMap = queue.get(forkCnt);\n        const txMap = heightMap?.get(height);\n        if (!heightMap || !txMap) return [];\n        heightMap.delete(height);\n        return [...txMap.values()];\n    }\n\n    tryDequeueBlocks(forkCnt: ForkCnt, height: Height): SignedBlockStruct[] {\n        return QueueService.takeAll(this.blockQ, forkCnt, height);\n    }'],
    ['        const heightMap = this.confQ.get(forkCnt);\n        if (!heightMap) return [];\n\n        const txMap = heightMap.get(height);\n        if (!txMap) return [];\n\n        const blockConfirmations = Array.from(txMap.values());\n        heightMap.delete(height);\n\n        return blockConfirmations;', '        return QueueService.takeAll(this.confQ, forkCnt, height);']),
  q('qs-queued', QS, ['        const stored = this.blockQ.get(forkCnt)?.get(height)?.get(participant);\n        return stored\n            ? stored.encodedBlock === EvmUtils.encodeBlock(block)\n            : false;', '        const stored = this.blockQ.get(forkCnt)?.get(height)?.get(participant);\n        if (stored === undefined) return false;\n        return EvmUtils.encodeBlock(block) === stored.encodedBlock;']),
  q('ss-find', SS, ['        for (const sig of agreement.blockSignatures) {\n            if (\n                EvmUtils.retrieveSignerAddressBlock(agreement.block, sig) ===\n                participant\n            ) {\n                return { didSign: true, signature: sig };\n            }\n        }\n        return { didSign: false, signature: undefined };', '        const signature = agreement.blockSignatures.find(\n            (sig) => EvmUtils.retrieveSignerAddressBlock(agreement.block, sig) === participant\n        );\n        return { didSign: signature !== undefined, signature };']),
];
