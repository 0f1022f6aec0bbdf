'use strict';
// Registration of the dispute-proof rules (C07-C13, C16).
const C = require('./C_proofs'), D = require('./C_disp2');
const trusted = ['solc 0.8.26 type-checked AST', 'tool/core (path-partitioned must-fact dataflow, loop summaries, congruence closure, linear entailment)', 'verifyThresholdSigned summarised by the lemma of C17, getChainLatestBlockTimestamp by the lemma of C26', 'keccak256 treated as injective, ECDSA.recover as a function of hash and signature', 'application hooks and the state machine as uninterpreted effects'];
const r = (run, rule) => ({ run, level: 'proof', trusted, rule });
const slash = k => rep => { C.slashRule(k)(rep); C.acceptRule(k)(rep); };
exports.rules = {
  C07: r(D.timeoutRule('create'), 'every reachable non-zero write of the timed-out participant outside a prior-fold proof is in dispute creation and dominated, on every path, by the turn / age / publication guards'),
  C08: r(slash('DoubleSign'), 'every slash under a double-sign proof is dominated by the ground facts of a double sign; no revert and no effect-free iteration is reachable with a valid proof'),
  C09: r(slash('IncorrectData'), 'every slash under an incorrect-data proof is dominated by the ground facts of a wrong block; no revert and no effect-free iteration is reachable with a valid proof'),
  C10: r(slash('NewerState'), 'every slash under a newer-state proof is dominated by the ground facts; no revert and no effect-free iteration is reachable with a valid proof'),
  C11: r(rep => { slash('FoldRechallenge')(rep); slash('BlockTooFarInFuture')(rep); D.clearRule(rep); D.rechallengeEffect(rep); }, 'slashes under fold-rechallenge and too-far-in-future proofs and every write that clears an active timeout are dominated by the ground facts that justify them; valid proofs are not rejected'),
  C12: r(D.timeoutRule('prior'), 'every write of the timed-out participant under a prior-fold proof is dominated by the ground facts of an unpublished earlier voting block'),
  C13: r(D.slashedRule, 'every append to the slashed list is dominated by non-membership and by a fraud-proof kind; every dispute update event is dominated by the sender not being in the slashed list'),
  C16: r(D.joinRule, 'every append to the join list is dominated by everyone\'s signature, the joiner\'s signature, channel, deadline, non-membership and turn facts, with exactly one checked deposit in the same iteration'),
};
