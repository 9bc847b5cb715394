From a7d14d036d2e8316b5be8a8b3cc100fe1bb7e4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:53 +0000
Subject: [PATCH 01/34] fix: voluntary exits count the shard committee period
 from activation

process_voluntary_exit compared the current epoch with the activation eligibility epoch, so a
validator could exit before being active for SHARD_COMMITTEE_PERIOD epochs.
---
 ethereum-consensus/src/deneb/block_processing.rs   | 3 +--
 ethereum-consensus/src/electra/block_processing.rs | 3 +--
 ethereum-consensus/src/phase0/block_processing.rs  | 3 +--
 3 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/ethereum-consensus/src/deneb/block_processing.rs b/ethereum-consensus/src/deneb/block_processing.rs
index 2e57c71..3afdb73 100644
--- a/ethereum-consensus/src/deneb/block_processing.rs
+++ b/ethereum-consensus/src/deneb/block_processing.rs
@@ -320,8 +320,7 @@ pub fn process_voluntary_exit<
             InvalidVoluntaryExit::EarlyExit { current_epoch, exit_epoch: voluntary_exit.epoch },
         )))
     }
-    let minimum_time_active =
-        validator.activation_eligibility_epoch + context.shard_committee_period;
+    let minimum_time_active = validator.activation_epoch + context.shard_committee_period;
     if current_epoch < minimum_time_active {
         return Err(invalid_operation_error(InvalidOperation::VoluntaryExit(
             InvalidVoluntaryExit::ValidatorIsNotActiveForLongEnough {
diff --git a/ethereum-consensus/src/electra/block_processing.rs b/ethereum-consensus/src/electra/block_processing.rs
index 302b6eb..8210b9b 100644
--- a/ethereum-consensus/src/electra/block_processing.rs
+++ b/ethereum-consensus/src/electra/block_processing.rs
@@ -819,8 +819,7 @@ pub fn process_voluntary_exit<
         )));
     }
 
-    let minimum_time_active =
-        validator.activation_eligibility_epoch + context.shard_committee_period;
+    let minimum_time_active = validator.activation_epoch + context.shard_committee_period;
     if current_epoch < minimum_time_active {
         return Err(invalid_operation_error(InvalidOperation::VoluntaryExit(
             InvalidVoluntaryExit::ValidatorIsNotActiveForLongEnough {
diff --git a/ethereum-consensus/src/phase0/block_processing.rs b/ethereum-consensus/src/phase0/block_processing.rs
index 3570de0..cc0c4a2 100644
--- a/ethereum-consensus/src/phase0/block_processing.rs
+++ b/ethereum-consensus/src/phase0/block_processing.rs
@@ -497,8 +497,7 @@ pub fn process_voluntary_exit<
         )))
     }
 
-    let minimum_time_active =
-        validator.activation_eligibility_epoch + context.shard_committee_period;
+    let minimum_time_active = validator.activation_epoch + context.shard_committee_period;
     if current_epoch < minimum_time_active {
         return Err(invalid_operation_error(InvalidOperation::VoluntaryExit(
             InvalidVoluntaryExit::ValidatorIsNotActiveForLongEnough {
-- 
2.43.0


From b12b9a37dfffd5ebeffe158f8c4e6ebf11bf4a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:11 +0000
Subject: [PATCH 02/34] fix: the proposer's share of a slashing reward is not
 always zero

slash_validator divided PROPOSER_WEIGHT by WEIGHT_DENOMINATOR first, which is zero in integer
arithmetic; the reward is multiplied before dividing.
---
 ethereum-consensus/src/altair/helpers.rs    | 3 +--
 ethereum-consensus/src/bellatrix/helpers.rs | 3 +--
 ethereum-consensus/src/electra/helpers.rs   | 3 +--
 3 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/ethereum-consensus/src/altair/helpers.rs b/ethereum-consensus/src/altair/helpers.rs
index 9c7f9b4..69338b8 100644
--- a/ethereum-consensus/src/altair/helpers.rs
+++ b/ethereum-consensus/src/altair/helpers.rs
@@ -403,8 +403,7 @@ pub fn slash_validator<
 
     let whistleblower_reward =
         state.validators[slashed_index].effective_balance / context.whistleblower_reward_quotient;
-    let proposer_reward_scaling_factor = PROPOSER_WEIGHT / WEIGHT_DENOMINATOR;
-    let proposer_reward = whistleblower_reward * proposer_reward_scaling_factor;
+    let proposer_reward = whistleblower_reward * PROPOSER_WEIGHT / WEIGHT_DENOMINATOR;
     increase_balance(state, proposer_index, proposer_reward);
     increase_balance(state, whistleblower_index, whistleblower_reward - proposer_reward);
     Ok(())
diff --git a/ethereum-consensus/src/bellatrix/helpers.rs b/ethereum-consensus/src/bellatrix/helpers.rs
index dcf7e47..3de78f8 100644
--- a/ethereum-consensus/src/bellatrix/helpers.rs
+++ b/ethereum-consensus/src/bellatrix/helpers.rs
@@ -105,8 +105,7 @@ pub fn slash_validator<
     let whistleblower_index = whistleblower_index.unwrap_or(proposer_index);
     let whistleblower_reward =
         state.validators[slashed_index].effective_balance / context.whistleblower_reward_quotient;
-    let proposer_reward_scaling_factor = PROPOSER_WEIGHT / WEIGHT_DENOMINATOR;
-    let proposer_reward = whistleblower_reward * proposer_reward_scaling_factor;
+    let proposer_reward = whistleblower_reward * PROPOSER_WEIGHT / WEIGHT_DENOMINATOR;
     increase_balance(state, proposer_index, proposer_reward);
     increase_balance(state, whistleblower_index, whistleblower_reward - proposer_reward);
     Ok(())
diff --git a/ethereum-consensus/src/electra/helpers.rs b/ethereum-consensus/src/electra/helpers.rs
index 2495cdb..8ad7dba 100644
--- a/ethereum-consensus/src/electra/helpers.rs
+++ b/ethereum-consensus/src/electra/helpers.rs
@@ -701,8 +701,7 @@ pub fn slash_validator<
     let whistleblower_index = whistleblower_index.unwrap_or(proposer_index);
     let whistleblower_reward = state.validators[slashed_index].effective_balance /
         context.whistleblower_reward_quotient_electra;
-    let proposer_reward_scaling_factor = PROPOSER_WEIGHT / WEIGHT_DENOMINATOR;
-    let proposer_reward = whistleblower_reward * proposer_reward_scaling_factor;
+    let proposer_reward = whistleblower_reward * PROPOSER_WEIGHT / WEIGHT_DENOMINATOR;
     increase_balance(state, proposer_index, proposer_reward);
     increase_balance(state, whistleblower_index, whistleblower_reward - proposer_reward);
     Ok(())
-- 
2.43.0


From d4aff6b62db577114d726bc6bef36ec4011afbc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:57 +0000
Subject: [PATCH 03/34] fix: blocks are rejected when the voted deposit count
 is below the deposit index

process_operations subtracted without a check: a majority vote for eth1 data with fewer deposits
than were already processed made it panic (or wrap around, in release builds).
---
 ethereum-consensus/src/capella/block_processing.rs | 11 +++++++----
 ethereum-consensus/src/phase0/block_processing.rs  | 11 +++++++----
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/ethereum-consensus/src/capella/block_processing.rs b/ethereum-consensus/src/capella/block_processing.rs
index 0165344..6b2e412 100644
--- a/ethereum-consensus/src/capella/block_processing.rs
+++ b/ethereum-consensus/src/capella/block_processing.rs
@@ -18,6 +18,7 @@ use crate::{
     signing::verify_signed_data,
     ssz::prelude::*,
     state_transition::{Context, Result},
+    Error,
 };
 
 pub fn process_bls_to_execution_change<
@@ -136,10 +137,12 @@ pub fn process_operations<
     >,
     context: &Context,
 ) -> Result<()> {
-    let expected_deposit_count = usize::min(
-        context.max_deposits,
-        (state.eth1_data.deposit_count - state.eth1_deposit_index) as usize,
-    );
+    let pending_deposit_count = state
+        .eth1_data
+        .deposit_count
+        .checked_sub(state.eth1_deposit_index)
+        .ok_or(Error::Underflow)?;
+    let expected_deposit_count = usize::min(context.max_deposits, pending_deposit_count as usize);
     if body.deposits.len() != expected_deposit_count {
         return Err(invalid_operation_error(InvalidOperation::Deposit(
             InvalidDeposit::IncorrectCount {
diff --git a/ethereum-consensus/src/phase0/block_processing.rs b/ethereum-consensus/src/phase0/block_processing.rs
index cc0c4a2..7d2c752 100644
--- a/ethereum-consensus/src/phase0/block_processing.rs
+++ b/ethereum-consensus/src/phase0/block_processing.rs
@@ -28,6 +28,7 @@ use crate::{
     signing::verify_signed_data,
     ssz::prelude::*,
     state_transition::{Context, Result},
+    Error,
 };
 use std::collections::HashSet;
 
@@ -735,10 +736,12 @@ pub fn process_operations<
     >,
     context: &Context,
 ) -> Result<()> {
-    let expected_deposit_count = usize::min(
-        context.max_deposits,
-        (state.eth1_data.deposit_count - state.eth1_deposit_index) as usize,
-    );
+    let pending_deposit_count = state
+        .eth1_data
+        .deposit_count
+        .checked_sub(state.eth1_deposit_index)
+        .ok_or(Error::Underflow)?;
+    let expected_deposit_count = usize::min(context.max_deposits, pending_deposit_count as usize);
 
     if body.deposits.len() != expected_deposit_count {
         return Err(invalid_operation_error(InvalidOperation::Deposit(
-- 
2.43.0


From b7c2d34c7a045a6aa33be5842072d174ec3209e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:42 +0000
Subject: [PATCH 04/34] fix: electra pending partial withdrawals pay the
 validator they name

---
 ethereum-consensus/src/electra/block_processing.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ethereum-consensus/src/electra/block_processing.rs b/ethereum-consensus/src/electra/block_processing.rs
index 8210b9b..948f4c7 100644
--- a/ethereum-consensus/src/electra/block_processing.rs
+++ b/ethereum-consensus/src/electra/block_processing.rs
@@ -79,7 +79,7 @@ pub fn get_expected_withdrawals<
         let balance = state.balances[withdrawal.index];
 
         let has_sufficient_effective_balance =
-            validator.effective_balance > context.min_activation_balance;
+            validator.effective_balance >= context.min_activation_balance;
         let has_excess_balance = balance > context.min_activation_balance;
         if validator.exit_epoch == FAR_FUTURE_EPOCH &&
             has_sufficient_effective_balance &&
@@ -91,7 +91,7 @@ pub fn get_expected_withdrawals<
             withdrawal_address.copy_from_slice(&validator.withdrawal_credentials[12..]);
             let withdrawal = Withdrawal {
                 index: withdrawal_index,
-                validator_index,
+                validator_index: withdrawal.index,
                 address: withdrawal_address,
                 amount: withdrawable_balance,
             };
-- 
2.43.0


From 4808b3651c4c46986f411dd9d50944d2c06e7779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:42 +0000
Subject: [PATCH 05/34] fix: electra withdrawal sweep resumes after the last
 withdrawn validator

---
 ethereum-consensus/src/electra/block_processing.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ethereum-consensus/src/electra/block_processing.rs b/ethereum-consensus/src/electra/block_processing.rs
index 948f4c7..3520f93 100644
--- a/ethereum-consensus/src/electra/block_processing.rs
+++ b/ethereum-consensus/src/electra/block_processing.rs
@@ -206,8 +206,9 @@ pub fn process_withdrawals<
     }
 
     if expected_withdrawals.len() == context.max_withdrawals_per_payload {
-        let next_validator_index =
-            expected_withdrawals.last().map(|latest| (latest.index + 1) % state.validators.len());
+        let next_validator_index = expected_withdrawals
+            .last()
+            .map(|latest| (latest.validator_index + 1) % state.validators.len());
         state.next_withdrawal_validator_index =
             next_validator_index.unwrap_or(state.next_withdrawal_validator_index);
     } else {
-- 
2.43.0


From 221c4b2301629feba7850817adea0e14e0e1e458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:45 +0000
Subject: [PATCH 06/34] fix: electra attesting indices advance by whole
 committees

---
 ethereum-consensus/src/electra/helpers.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ethereum-consensus/src/electra/helpers.rs b/ethereum-consensus/src/electra/helpers.rs
index 8ad7dba..0574a5f 100644
--- a/ethereum-consensus/src/electra/helpers.rs
+++ b/ethereum-consensus/src/electra/helpers.rs
@@ -299,13 +299,15 @@ pub fn get_attesting_indices<
 
     let mut indices = HashSet::with_capacity(MAX_VALIDATORS_PER_SLOT);
 
-    for (committee_offset, index) in committee_indices.into_iter().enumerate() {
+    let mut committee_offset = 0;
+    for index in committee_indices {
         let committee = get_beacon_committee(state, attestation.data.slot, index, context)?;
         for (i, validator_index) in committee.iter().enumerate() {
             if attestation.aggregation_bits[committee_offset + i] {
                 indices.insert(*validator_index);
             }
         }
+        committee_offset += committee.len();
     }
 
     Ok(indices)
-- 
2.43.0


From 4d4ea417407081a66fb4a38e13f7051afa18ae6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:47 +0000
Subject: [PATCH 07/34] fix: electra blocks carry exactly the legacy deposits
 still expected

---
 ethereum-consensus/src/electra/block_processing.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ethereum-consensus/src/electra/block_processing.rs b/ethereum-consensus/src/electra/block_processing.rs
index 3520f93..aa1d767 100644
--- a/ethereum-consensus/src/electra/block_processing.rs
+++ b/ethereum-consensus/src/electra/block_processing.rs
@@ -449,11 +449,11 @@ pub fn process_operations<
             return Err(invalid_operation_error(InvalidOperation::Deposit(
                 InvalidDeposit::IncorrectCount { expected, count: body.deposits.len() },
             )));
-        } else if !body.deposits.is_empty() {
-            return Err(invalid_operation_error(InvalidOperation::Deposit(
-                InvalidDeposit::IncorrectCount { expected: 0, count: body.deposits.len() },
-            )));
         }
+    } else if !body.deposits.is_empty() {
+        return Err(invalid_operation_error(InvalidOperation::Deposit(
+            InvalidDeposit::IncorrectCount { expected: 0, count: body.deposits.len() },
+        )));
     }
 
     body.proposer_slashings
-- 
2.43.0


From 510ba8d0a5a5706cb8286491c7a43619d5131687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:48 +0000
Subject: [PATCH 08/34] fix: consolidations consume the consolidation churn
 limit

---
 ethereum-consensus/src/electra/helpers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ethereum-consensus/src/electra/helpers.rs b/ethereum-consensus/src/electra/helpers.rs
index 0574a5f..456a9d5 100644
--- a/ethereum-consensus/src/electra/helpers.rs
+++ b/ethereum-consensus/src/electra/helpers.rs
@@ -628,7 +628,7 @@ pub fn compute_consolidation_epoch_and_update_churn<
     let activation_exit_epoch = compute_activation_exit_epoch(current_epoch, context);
     let mut earliest_consolidation_epoch =
         state.earliest_consolidation_epoch.max(activation_exit_epoch);
-    let per_epoch_churn = get_activation_exit_churn_limit(state, context)?;
+    let per_epoch_churn = get_consolidation_churn_limit(state, context)?;
     let mut consolidation_balance_to_consume =
         if state.earliest_consolidation_epoch < earliest_consolidation_epoch {
             per_epoch_churn
-- 
2.43.0


From c0482b0e96c58e27114e3025afc1d1a4cd3171ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:50 +0000
Subject: [PATCH 09/34] fix: a consolidated validator is withdrawable after its
 new exit epoch

---
 .../src/electra/block_processing.rs              | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/ethereum-consensus/src/electra/block_processing.rs b/ethereum-consensus/src/electra/block_processing.rs
index aa1d767..443f8f3 100644
--- a/ethereum-consensus/src/electra/block_processing.rs
+++ b/ethereum-consensus/src/electra/block_processing.rs
@@ -1135,14 +1135,14 @@ pub fn process_consolidation<
     let public_keys = [&source_validator.public_key, &target_validator.public_key];
     fast_aggregate_verify(&public_keys[..], &signing_root[..], &signed_consolidation.signature)?;
 
-    state.validators[consolidation.source_index].exit_epoch =
-        compute_consolidation_epoch_and_update_churn(
-            state,
-            source_validator.effective_balance,
-            context,
-        )?;
-    state.validators[consolidation.source_index].withdrawable_epoch =
-        source_validator.exit_epoch + context.min_validator_withdrawability_delay;
+    let exit_epoch = compute_consolidation_epoch_and_update_churn(
+        state,
+        source_validator.effective_balance,
+        context,
+    )?;
+    let source_validator = &mut state.validators[consolidation.source_index];
+    source_validator.exit_epoch = exit_epoch;
+    source_validator.withdrawable_epoch = exit_epoch + context.min_validator_withdrawability_delay;
     state.pending_consolidations.push(PendingConsolidation {
         source_index: consolidation.source_index,
         target_index: consolidation.target_index,
-- 
2.43.0


From f2966b0adbb3d4f9a5c59199fe008b34e313d498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:52 +0000
Subject: [PATCH 10/34] fix: electra deposits with invalid signatures are
 ignored, not fatal

---
 .../src/electra/block_processing.rs           | 34 ++++++++++++-------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/ethereum-consensus/src/electra/block_processing.rs b/ethereum-consensus/src/electra/block_processing.rs
index 443f8f3..e450a9e 100644
--- a/ethereum-consensus/src/electra/block_processing.rs
+++ b/ethereum-consensus/src/electra/block_processing.rs
@@ -658,31 +658,39 @@ pub fn apply_deposit<
     if let Some((index, validator)) = validator {
         state.pending_balance_deposits.push(PendingBalanceDeposit { index, amount });
 
-        is_valid_deposit_signature(
-            public_key,
-            withdrawal_credentials.clone(),
-            amount,
-            signature,
-            context,
-        )?;
-
-        // NOTE: if we did not return from signature check, then we know the signature is valid
         if is_compounding_withdrawal_credential(withdrawal_credentials) &&
-            has_eth1_withdrawal_credential(validator)
+            has_eth1_withdrawal_credential(validator) &&
+            is_valid_deposit_signature(
+                public_key,
+                withdrawal_credentials.clone(),
+                amount,
+                signature,
+                context,
+            )
+            .is_ok()
         {
             switch_to_compounding_validator(state, index, context)?;
         }
         return Ok(());
     }
 
-    is_valid_deposit_signature(
+    // NOTE: explicitly return with no error and also no further mutations to `state`
+    if is_valid_deposit_signature(
         public_key,
         withdrawal_credentials.clone(),
         amount,
         signature,
         context,
-    )?;
-    add_validator_to_registry(state, public_key.clone(), withdrawal_credentials.clone(), amount);
+    )
+    .is_ok()
+    {
+        add_validator_to_registry(
+            state,
+            public_key.clone(),
+            withdrawal_credentials.clone(),
+            amount,
+        );
+    }
     Ok(())
 }
 
-- 
2.43.0


From 59801a115a5f8cc6038f787cefdc70f4f39a1f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:53 +0000
Subject: [PATCH 11/34] fix: reporting an out of range block root does not
 panic at genesis

---
 ethereum-consensus/src/phase0/helpers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ethereum-consensus/src/phase0/helpers.rs b/ethereum-consensus/src/phase0/helpers.rs
index d1de4c6..c7b6ea0 100644
--- a/ethereum-consensus/src/phase0/helpers.rs
+++ b/ethereum-consensus/src/phase0/helpers.rs
@@ -610,7 +610,7 @@ pub fn get_block_root_at_slot<
     if slot >= state.slot || state.slot > (slot + SLOTS_PER_HISTORICAL_ROOT as Slot) {
         return Err(Error::SlotOutOfRange {
             requested: slot,
-            lower_bound: state.slot - 1,
+            lower_bound: state.slot.saturating_sub(1),
             upper_bound: state.slot + SLOTS_PER_HISTORICAL_ROOT as Slot,
         })
     }
-- 
2.43.0


From 3cfa2e7687f302df2ee99a29038c99904aced0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:07 +0000
Subject: [PATCH 12/34] fix: sampling a sync committee from no active
 validators is an error, not a panic

---
 ethereum-consensus/src/altair/helpers.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ethereum-consensus/src/altair/helpers.rs b/ethereum-consensus/src/altair/helpers.rs
index 69338b8..721c206 100644
--- a/ethereum-consensus/src/altair/helpers.rs
+++ b/ethereum-consensus/src/altair/helpers.rs
@@ -62,6 +62,9 @@ pub fn get_next_sync_committee_indices<
     let max_random_byte = u8::MAX as u64;
     let active_validator_indices = get_active_validator_indices(state, epoch);
     let active_validator_count = active_validator_indices.len();
+    if active_validator_count == 0 {
+        return Err(Error::CollectionCannotBeEmpty)
+    }
     let seed = get_seed(state, epoch, DomainType::SyncCommittee, context);
     let mut i: usize = 0;
     let mut sync_committee_indices = vec![];
-- 
2.43.0


From a490cb617d6bd5e4a44989a11bae1797884fb6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:59 +0000
Subject: [PATCH 13/34] fix: the executor rejects blocks of a fork that is not
 active at their slot

---
 ethereum-consensus/src/fork.rs                 |  2 +-
 .../src/state_transition/executor.rs           | 18 ++++++++++++++++++
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/ethereum-consensus/src/fork.rs b/ethereum-consensus/src/fork.rs
index 12571fc..e46a60a 100644
--- a/ethereum-consensus/src/fork.rs
+++ b/ethereum-consensus/src/fork.rs
@@ -1,7 +1,7 @@
 use std::fmt;
 
 // Identifies the fork of the protocol the associated object belongs to.
-#[derive(Debug, Clone, Copy, serde::Serialize, serde::Deserialize)]
+#[derive(Debug, Clone, Copy, serde::Serialize, serde::Deserialize, PartialEq, Eq)]
 #[serde(rename_all = "lowercase")]
 pub enum Fork {
     Phase0,
diff --git a/ethereum-consensus/src/state_transition/executor.rs b/ethereum-consensus/src/state_transition/executor.rs
index d23c385..5beffae 100644
--- a/ethereum-consensus/src/state_transition/executor.rs
+++ b/ethereum-consensus/src/state_transition/executor.rs
@@ -1,5 +1,6 @@
 use crate::{
     altair, bellatrix, capella, deneb, phase0,
+    primitives::Slot,
     state_transition::{Context, Result, Validation},
     types::{BeaconState, SignedBeaconBlock},
     Error, Fork,
@@ -171,6 +172,18 @@ impl<
         }
     }
 
+    // Verify a block of `fork` may be applied at `slot`, according to the fork schedule.
+    fn verify_fork(&self, slot: Slot, fork: Fork) -> Result<()> {
+        let expected = self.context.fork_for(slot);
+        if fork != expected {
+            return Err(Error::InvalidForkTransition {
+                source_fork: expected,
+                destination_fork: fork,
+            })
+        }
+        Ok(())
+    }
+
     pub fn apply_phase0_block_with_validation(
         &mut self,
         signed_block: &phase0::SignedBeaconBlock<
@@ -183,6 +196,7 @@ impl<
         >,
         validation: Validation,
     ) -> Result<()> {
+        self.verify_fork(signed_block.message.slot, Fork::Phase0)?;
         match &mut self.state {
             BeaconState::Phase0(state) => {
                 phase0::state_transition(state, signed_block, validation, &self.context)
@@ -207,6 +221,7 @@ impl<
         >,
         validation: Validation,
     ) -> Result<()> {
+        self.verify_fork(signed_block.message.slot, Fork::Altair)?;
         match &mut self.state {
             BeaconState::Phase0(state) => {
                 let fork_slot = self.context.altair_fork_epoch * self.context.slots_per_epoch;
@@ -252,6 +267,7 @@ impl<
         >,
         validation: Validation,
     ) -> Result<()> {
+        self.verify_fork(signed_block.message.slot, Fork::Bellatrix)?;
         match &mut self.state {
             BeaconState::Phase0(state) => {
                 let fork_slot = self.context.altair_fork_epoch * self.context.slots_per_epoch;
@@ -330,6 +346,7 @@ impl<
         >,
         validation: Validation,
     ) -> Result<()> {
+        self.verify_fork(signed_block.message.slot, Fork::Capella)?;
         match &mut self.state {
             BeaconState::Phase0(state) => {
                 let fork_slot = self.context.altair_fork_epoch * self.context.slots_per_epoch;
@@ -427,6 +444,7 @@ impl<
         >,
         validation: Validation,
     ) -> Result<()> {
+        self.verify_fork(signed_block.message.slot, Fork::Deneb)?;
         match &mut self.state {
             BeaconState::Phase0(state) => {
                 let fork_slot = self.context.altair_fork_epoch * self.context.slots_per_epoch;
-- 
2.43.0


From 27ea03f0371914ab81f04476191ea3b43152f24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:48 +0000
Subject: [PATCH 14/34] fix: blob packing loses the tail of data that just
 exceeds full blobs

---
 ethereum-consensus/src/bin/ec/blobs/encode.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ethereum-consensus/src/bin/ec/blobs/encode.rs b/ethereum-consensus/src/bin/ec/blobs/encode.rs
index b56ca21..c9b0ace 100644
--- a/ethereum-consensus/src/bin/ec/blobs/encode.rs
+++ b/ethereum-consensus/src/bin/ec/blobs/encode.rs
@@ -47,6 +47,11 @@ pub fn pack_into_blobs(buffer: &[u8]) -> Result<Vec<Blob>, Error> {
 
     let remainder = chunks.remainder();
     if !remainder.is_empty() {
+        if blob_buffer.len() == BYTES_PER_BLOB {
+            let blob = Blob::try_from(blob_buffer.as_ref()).expect("is the right size");
+            blobs.push(blob);
+            blob_buffer.clear();
+        }
         let mut field_element = field_element_from_bits(remainder)?;
         blob_buffer.append(&mut field_element);
     }
-- 
2.43.0


From 98ddb5d12942cf87f8c186ac24e6913656a62cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:48 +0000
Subject: [PATCH 15/34] fix: a sized frame longer than its payload is an error,
 not a panic

---
 ethereum-consensus/src/bin/ec/blobs/framing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ethereum-consensus/src/bin/ec/blobs/framing.rs b/ethereum-consensus/src/bin/ec/blobs/framing.rs
index a5813ad..d45717b 100644
--- a/ethereum-consensus/src/bin/ec/blobs/framing.rs
+++ b/ethereum-consensus/src/bin/ec/blobs/framing.rs
@@ -37,7 +37,7 @@ pub fn payload_from_sized(stream: &[u8]) -> Result<&[u8], Error> {
         return Err(Error::UnsupportedSizedFramingVersion)
     }
     let size = u32::from_be_bytes(header[1..5].try_into().expect("correct size bytes")) as usize;
-    if size >= stream.len() {
+    if size > payload.len() {
         return Err(Error::InvalidPayloadSize)
     }
 
-- 
2.43.0


From 8309c9cbc30a419dcff893038b91bb559f0adef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:48 +0000
Subject: [PATCH 16/34] fix: a custom network converts to text and back
 unchanged

---
 ethereum-consensus/src/networks.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ethereum-consensus/src/networks.rs b/ethereum-consensus/src/networks.rs
index 73e0fe9..5244904 100644
--- a/ethereum-consensus/src/networks.rs
+++ b/ethereum-consensus/src/networks.rs
@@ -34,7 +34,10 @@ impl std::fmt::Display for Network {
 
 impl From<Network> for String {
     fn from(value: Network) -> Self {
-        format!("{value}")
+        match value {
+            Network::Custom(config_dir) => config_dir,
+            network => network.to_string(),
+        }
     }
 }
 
-- 
2.43.0


From b745d7268f16fcd115c310395d026105e191aae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:39 +0000
Subject: [PATCH 17/34] fix: sequences of integers decode from any JSON source

---
 ethereum-consensus/src/serde.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ethereum-consensus/src/serde.rs b/ethereum-consensus/src/serde.rs
index 26f5e46..b15f45d 100644
--- a/ethereum-consensus/src/serde.rs
+++ b/ethereum-consensus/src/serde.rs
@@ -127,8 +127,8 @@ pub mod seq_of_str {
         {
             let mut coll = Vec::with_capacity(access.size_hint().unwrap_or(0));
 
-            while let Some(elem) = access.next_element()? {
-                let recovered_elem = T::from_str(elem).map_err(|_| {
+            while let Some(elem) = access.next_element::<String>()? {
+                let recovered_elem = T::from_str(&elem).map_err(|_| {
                     Error::custom("failure to parse element of sequence from string")
                 })?;
                 coll.push(recovered_elem);
-- 
2.43.0


From 3aad94ef66bb0f76027f27adce24e00f0008b5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:15 +0000
Subject: [PATCH 18/34] fix: keystore ciphers count in the whole initial
 vector, as AES-128-CTR does

---
 ethereum-consensus/src/bin/ec/validator/keystores.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ethereum-consensus/src/bin/ec/validator/keystores.rs b/ethereum-consensus/src/bin/ec/validator/keystores.rs
index 20a7f95..20b9f9b 100644
--- a/ethereum-consensus/src/bin/ec/validator/keystores.rs
+++ b/ethereum-consensus/src/bin/ec/validator/keystores.rs
@@ -45,7 +45,7 @@ const KDF_FN: &str = "scrypt";
 const SCRYPT_DKLEN: usize = 32;
 
 const CIPHER_FN: &str = "aes-128-ctr";
-type CtrCipher = ctr::Ctr64BE<aes::Aes128>;
+type CtrCipher = ctr::Ctr128BE<aes::Aes128>;
 const AES_SIZE: usize = 16;
 
 const CHECKSUM_FN: &str = "sha256";
-- 
2.43.0


From dd32958122e9216fbfef53400841079ece947213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:39 +0000
Subject: [PATCH 19/34] fix: a constant redefined by a fork replaces the
 inherited one in its generated spec

---
 spec-gen/src/generator.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/spec-gen/src/generator.rs b/spec-gen/src/generator.rs
index f31fe4e..ffca20d 100644
--- a/spec-gen/src/generator.rs
+++ b/spec-gen/src/generator.rs
@@ -625,6 +625,7 @@ fn parse_fork_diff_with_symbol_index(fork: &Fork) -> (ForkDiff, HashMap<String,
                 Item::Const(item) => {
                     let item = Constant::new(item, *fork);
                     if item.is_pub() {
+                        index.insert(item.item.ident.to_string(), module_name.to_string());
                         module.constants.push(item);
                     }
                 }
-- 
2.43.0


From 1a910a32412cb52e45b4310e9fffeb8403df52d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:43 +0000
Subject: [PATCH 20/34] fix: functions regenerated by a fork are re-exported by
 later forks from where they live

---
 spec-gen/src/generator.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/spec-gen/src/generator.rs b/spec-gen/src/generator.rs
index ffca20d..7c02f2a 100644
--- a/spec-gen/src/generator.rs
+++ b/spec-gen/src/generator.rs
@@ -241,13 +241,15 @@ struct Fn {
     item: syn::ItemFn,
     fork: Fork,
     can_import: bool,
+    // set if this function was derived in the generated `spec` module of `fork`
+    in_spec: bool,
 }
 
 impl Fn {
     fn new(value: syn::ItemFn, fork: Fork) -> Self {
         let sig = &value.sig;
         let name = &sig.ident;
-        Self { name: name.to_string(), item: value, fork, can_import: true }
+        Self { name: name.to_string(), item: value, fork, can_import: true, in_spec: false }
     }
 
     fn is_pub(&self) -> bool {
@@ -457,8 +459,6 @@ impl Spec {
 
                                 all_arguments.push(arguments);
                                 f.fork = self.fork;
-                            } else {
-                                f.can_import = true;
                             }
                         }
                     }
@@ -466,7 +466,7 @@ impl Spec {
 
                 // if item's `fork` did not change, we can just import it
                 if f.fork != self.fork {
-                    assert!(f.can_import);
+                    f.can_import = true;
                     module.fns.push(f);
                     index.insert(fn_name, module_name.to_string());
                     continue
@@ -496,6 +496,7 @@ impl Spec {
 
                 f.item = fragment;
                 f.can_import = false;
+                f.in_spec = true;
 
                 module.fns.push(f);
                 index.insert(fn_name, module_name.to_string());
@@ -581,6 +582,7 @@ impl Spec {
             let item: Item = if f.can_import {
                 let ident = &f.item.sig.ident;
                 let fork_name = as_syn_ident(f.fork.name());
+                let module_name = if f.in_spec { as_syn_ident("spec".into()) } else { module_name };
                 parse_quote! {
                     pub use crate::#fork_name::#module_name::#ident;
                 }
-- 
2.43.0


From 0d1815f5df5b4fa4139a08c8cc97c3354eff3c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:00 +0000
Subject: [PATCH 21/34] fix: regenerated functions keep all of their lifetimes
 and type parameters

---
 spec-gen/src/visitors.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spec-gen/src/visitors.rs b/spec-gen/src/visitors.rs
index 819beca..c0411d1 100644
--- a/spec-gen/src/visitors.rs
+++ b/spec-gen/src/visitors.rs
@@ -115,14 +115,14 @@ pub fn collate_generics_from(
 
     if !lifetimes.is_empty() {
         let lifetimes: syn::punctuated::Punctuated<syn::GenericParam, syn::Token![,]> = parse_quote! {
-            #(#lifetimes)*,
+            #(#lifetimes),*
         };
         generics.params.extend(lifetimes);
     }
 
     if !type_params.is_empty() {
         let type_params: syn::punctuated::Punctuated<syn::GenericParam, syn::Token![,]> = parse_quote! {
-            #(#type_params)*,
+            #(#type_params),*
         };
         generics.params.extend(type_params);
     }
-- 
2.43.0


From 81ace4fd66fa05388d1ba7a53fd5ccb4d6ad99a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:39 +0000
Subject: [PATCH 22/34] fix: regenerated functions keep the const parameters
 they still use

---
 spec-gen/src/generator.rs |  7 +++++--
 spec-gen/src/visitors.rs  | 29 +++++++++++++++++++++++++++++
 2 files changed, 34 insertions(+), 2 deletions(-)

diff --git a/spec-gen/src/generator.rs b/spec-gen/src/generator.rs
index 7c02f2a..d53b7f5 100644
--- a/spec-gen/src/generator.rs
+++ b/spec-gen/src/generator.rs
@@ -1,6 +1,6 @@
 use crate::visitors::{
-    as_syn_ident, collate_generics_from, collect_lifetimes, collect_type_params,
-    generics_to_arguments, ArgumentsEditor, TypeNameVisitor,
+    as_syn_ident, collate_generics_from, collect_lifetimes, collect_missing_const_params,
+    collect_type_params, generics_to_arguments, ArgumentsEditor, TypeNameVisitor,
 };
 use std::{
     collections::{BTreeMap, HashMap},
@@ -493,6 +493,9 @@ impl Spec {
                 }
                 let generics = collate_generics_from(&all_arguments, &lifetimes, &type_params);
                 fragment.sig.generics = generics;
+                for param in collect_missing_const_params(&fragment, &f.item.sig.generics) {
+                    fragment.sig.generics.params.push(param.into());
+                }
 
                 f.item = fragment;
                 f.can_import = false;
diff --git a/spec-gen/src/visitors.rs b/spec-gen/src/visitors.rs
index c0411d1..31b7721 100644
--- a/spec-gen/src/visitors.rs
+++ b/spec-gen/src/visitors.rs
@@ -1,4 +1,5 @@
 use quote::quote;
+use std::collections::HashSet;
 use syn::{
     parse_quote, visit, visit::Visit, visit_mut, visit_mut::VisitMut,
     AngleBracketedGenericArguments, Generics, Ident, ItemFn, Type,
@@ -130,6 +131,34 @@ pub fn collate_generics_from(
     generics
 }
 
+#[derive(Default)]
+struct IdentVisitor {
+    items: HashSet<Ident>,
+}
+
+impl<'ast> Visit<'ast> for IdentVisitor {
+    fn visit_ident(&mut self, i: &'ast Ident) {
+        self.items.insert(i.clone());
+    }
+}
+
+// returns the const params of `generics` that `f` still uses beyond its own
+pub fn collect_missing_const_params(f: &ItemFn, generics: &Generics) -> Vec<syn::ConstParam> {
+    let mut visitor = IdentVisitor::default();
+    f.sig.inputs.iter().for_each(|input| visitor.visit_fn_arg(input));
+    visitor.visit_return_type(&f.sig.output);
+    f.sig.generics.type_params().for_each(|param| visitor.visit_type_param(param));
+    visitor.visit_block(&f.block);
+    generics
+        .const_params()
+        .filter(|param| {
+            visitor.items.contains(&param.ident) &&
+                !f.sig.generics.const_params().any(|other| other.ident == param.ident)
+        })
+        .cloned()
+        .collect()
+}
+
 #[derive(Default)]
 struct ToArgumentsVisitor {
     bounds: Vec<Ident>,
-- 
2.43.0


From c35cb6511204505b5b9334e6e3828b5e48921fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:29 +0000
Subject: [PATCH 23/34] fix: regenerated functions keep the turbofish of the
 paths they edit

---
 spec-gen/src/visitors.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spec-gen/src/visitors.rs b/spec-gen/src/visitors.rs
index 31b7721..678aeb0 100644
--- a/spec-gen/src/visitors.rs
+++ b/spec-gen/src/visitors.rs
@@ -263,7 +263,9 @@ impl VisitMut for ArgumentsEditor<'_> {
         i: &mut syn::AngleBracketedGenericArguments,
     ) {
         if self.in_context {
+            let colon2_token = i.colon2_token;
             *i = self.edit.clone();
+            i.colon2_token = colon2_token;
         }
         visit_mut::visit_angle_bracketed_generic_arguments_mut(self, i);
     }
-- 
2.43.0


From e2eca099804c83117e6ec78c6e305e8e8a3e79d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:38 +0000
Subject: [PATCH 24/34] fix: write signature slots of light client updates as
 text in JSON

---
 ethereum-consensus/src/altair/light_client.rs  | 3 +++
 ethereum-consensus/src/capella/light_client.rs | 3 +++
 ethereum-consensus/src/deneb/light_client.rs   | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/ethereum-consensus/src/altair/light_client.rs b/ethereum-consensus/src/altair/light_client.rs
index 628e6b7..bdf5cb3 100644
--- a/ethereum-consensus/src/altair/light_client.rs
+++ b/ethereum-consensus/src/altair/light_client.rs
@@ -36,6 +36,7 @@ pub struct LightClientUpdate<const SYNC_COMMITTEE_SIZE: usize> {
     pub finalized_header: LightClientHeader,
     pub finality_branch: Vector<Bytes32, FINALIZED_ROOT_INDEX_FLOOR_LOG_2>,
     pub sync_aggregate: SyncAggregate<SYNC_COMMITTEE_SIZE>,
+    #[serde(with = "crate::serde::as_str")]
     pub signature_slot: Slot,
 }
 
@@ -45,6 +46,7 @@ pub struct LightClientFinalityUpdate<const SYNC_COMMITTEE_SIZE: usize> {
     pub finalized_header: LightClientHeader,
     pub finality_branch: Vector<Bytes32, FINALIZED_ROOT_INDEX_FLOOR_LOG_2>,
     pub sync_aggregate: SyncAggregate<SYNC_COMMITTEE_SIZE>,
+    #[serde(with = "crate::serde::as_str")]
     pub signature_slot: Slot,
 }
 
@@ -52,5 +54,6 @@ pub struct LightClientFinalityUpdate<const SYNC_COMMITTEE_SIZE: usize> {
 pub struct LightClientOptimisticUpdate<const SYNC_COMMITTEE_SIZE: usize> {
     pub attested_header: LightClientHeader,
     pub sync_aggregate: SyncAggregate<SYNC_COMMITTEE_SIZE>,
+    #[serde(with = "crate::serde::as_str")]
     pub signature_slot: Slot,
 }
diff --git a/ethereum-consensus/src/capella/light_client.rs b/ethereum-consensus/src/capella/light_client.rs
index 5596c7d..78fabc2 100644
--- a/ethereum-consensus/src/capella/light_client.rs
+++ b/ethereum-consensus/src/capella/light_client.rs
@@ -43,6 +43,7 @@ pub struct LightClientUpdate<
     pub finalized_header: LightClientHeader<BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES>,
     pub finality_branch: Vector<Bytes32, FINALIZED_ROOT_INDEX_FLOOR_LOG_2>,
     pub sync_aggregate: SyncAggregate<SYNC_COMMITTEE_SIZE>,
+    #[serde(with = "crate::serde::as_str")]
     pub signature_slot: Slot,
 }
 
@@ -56,6 +57,7 @@ pub struct LightClientFinalityUpdate<
     pub finalized_header: LightClientHeader<BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES>,
     pub finality_branch: Vector<Bytes32, FINALIZED_ROOT_INDEX_FLOOR_LOG_2>,
     pub sync_aggregate: SyncAggregate<SYNC_COMMITTEE_SIZE>,
+    #[serde(with = "crate::serde::as_str")]
     pub signature_slot: Slot,
 }
 
@@ -67,5 +69,6 @@ pub struct LightClientOptimisticUpdate<
 > {
     pub attested_header: LightClientHeader<BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES>,
     pub sync_aggregate: SyncAggregate<SYNC_COMMITTEE_SIZE>,
+    #[serde(with = "crate::serde::as_str")]
     pub signature_slot: Slot,
 }
diff --git a/ethereum-consensus/src/deneb/light_client.rs b/ethereum-consensus/src/deneb/light_client.rs
index b189a46..b598f85 100644
--- a/ethereum-consensus/src/deneb/light_client.rs
+++ b/ethereum-consensus/src/deneb/light_client.rs
@@ -41,6 +41,7 @@ pub struct LightClientUpdate<
     pub finalized_header: LightClientHeader<BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES>,
     pub finality_branch: Vector<Bytes32, FINALIZED_ROOT_INDEX_FLOOR_LOG_2>,
     pub sync_aggregate: SyncAggregate<SYNC_COMMITTEE_SIZE>,
+    #[serde(with = "crate::serde::as_str")]
     pub signature_slot: Slot,
 }
 
@@ -54,6 +55,7 @@ pub struct LightClientFinalityUpdate<
     pub finalized_header: LightClientHeader<BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES>,
     pub finality_branch: Vector<Bytes32, FINALIZED_ROOT_INDEX_FLOOR_LOG_2>,
     pub sync_aggregate: SyncAggregate<SYNC_COMMITTEE_SIZE>,
+    #[serde(with = "crate::serde::as_str")]
     pub signature_slot: Slot,
 }
 
@@ -65,5 +67,6 @@ pub struct LightClientOptimisticUpdate<
 > {
     pub attested_header: LightClientHeader<BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES>,
     pub sync_aggregate: SyncAggregate<SYNC_COMMITTEE_SIZE>,
+    #[serde(with = "crate::serde::as_str")]
     pub signature_slot: Slot,
 }
-- 
2.43.0


From 0b048db5f17b8ea5b76347ec01435e2cebec53d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:38 +0000
Subject: [PATCH 25/34] fix: write the numbers of an eth1 block as text in JSON

---
 ethereum-consensus/src/phase0/validator.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ethereum-consensus/src/phase0/validator.rs b/ethereum-consensus/src/phase0/validator.rs
index 616c2c7..7af018f 100644
--- a/ethereum-consensus/src/phase0/validator.rs
+++ b/ethereum-consensus/src/phase0/validator.rs
@@ -27,8 +27,10 @@ pub struct Validator {
 
 #[derive(Default, Debug, SimpleSerialize, Clone, serde::Serialize, serde::Deserialize)]
 pub struct Eth1Block {
+    #[serde(with = "crate::serde::as_str")]
     pub timestamp: u64,
     pub deposit_root: Root,
+    #[serde(with = "crate::serde::as_str")]
     pub deposit_count: u64,
 }
 
-- 
2.43.0


From 8406a533c98e617a3eebef44d35bfb41bec1f238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:38 +0000
Subject: [PATCH 26/34] fix: write the numbers of sync aggregator selection
 data as text in JSON

---
 ethereum-consensus/src/altair/validator.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ethereum-consensus/src/altair/validator.rs b/ethereum-consensus/src/altair/validator.rs
index 1d4776c..01d954a 100644
--- a/ethereum-consensus/src/altair/validator.rs
+++ b/ethereum-consensus/src/altair/validator.rs
@@ -40,6 +40,8 @@ pub struct SignedContributionAndProof<const SYNC_SUBCOMMITTEE_SIZE: usize> {
 
 #[derive(Debug, Default, Clone, SimpleSerialize, serde::Serialize, serde::Deserialize)]
 pub struct SyncAggregatorSelectionData {
+    #[serde(with = "crate::serde::as_str")]
     pub slot: Slot,
+    #[serde(with = "crate::serde::as_str")]
     pub subcommittee_index: u64,
 }
-- 
2.43.0


From 5281c18eb8148334724bd8682b56cfcda32cda26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:38 +0000
Subject: [PATCH 27/34] fix: name the key of a withdrawal request as the
 specification does in JSON

---
 ethereum-consensus/src/electra/beacon_state.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ethereum-consensus/src/electra/beacon_state.rs b/ethereum-consensus/src/electra/beacon_state.rs
index 94e104d..0fe791d 100644
--- a/ethereum-consensus/src/electra/beacon_state.rs
+++ b/ethereum-consensus/src/electra/beacon_state.rs
@@ -61,7 +61,7 @@ pub struct PendingConsolidation {
 )]
 pub struct ExecutionLayerWithdrawalRequest {
     pub source_address: ExecutionAddress,
-    #[serde(rename = "pubkey")]
+    #[serde(rename = "validator_pubkey")]
     pub validator_public_key: BlsPublicKey,
     #[serde(with = "crate::serde::as_str")]
     pub amount: Gwei,
-- 
2.43.0


From b9a4b482ff8a15f50bb4ca8cdaf836fc1bd3ebf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:26 +0000
Subject: [PATCH 28/34] fix: ask for blob sidecars by a comma-separated list of
 indices

---
 beacon-api-client/src/api_client.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beacon-api-client/src/api_client.rs b/beacon-api-client/src/api_client.rs
index c0ed9d5..8c56f0b 100644
--- a/beacon-api-client/src/api_client.rs
+++ b/beacon-api-client/src/api_client.rs
@@ -401,7 +401,7 @@ impl<C: ClientTypes> Client<C> {
         let target = self.endpoint.join(&path)?;
         let mut request = self.http.get(target);
         if !indices.is_empty() {
-            request = request.query(&[("indices", indices)]);
+            request = request.query(&[("indices", indices.iter().join(","))]);
         }
         let response = request.send().await?;
         let result: ApiResult<Value<_>> = response.json().await?;
-- 
2.43.0


From dc42e4ec2b60bfeb4777e5cb35862106e116310a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:26 +0000
Subject: [PATCH 29/34] fix: keep the path of the endpoint when asking for
 events or for one peer

---
 beacon-api-client/src/api_client.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beacon-api-client/src/api_client.rs b/beacon-api-client/src/api_client.rs
index 8c56f0b..63b4cb3 100644
--- a/beacon-api-client/src/api_client.rs
+++ b/beacon-api-client/src/api_client.rs
@@ -609,7 +609,7 @@ impl<C: ClientTypes> Client<C> {
     /* events namespace */
     pub async fn get_events<T: Topic>(&self) -> Result<EventStream<T::Data>, Error> {
         let name = T::NAME;
-        let path = format!("/eth/v1/events?topics={name}");
+        let path = format!("eth/v1/events?topics={name}");
         let target = self.endpoint.join(&path)?.to_string();
 
         let client = EventClient::default();
@@ -646,7 +646,7 @@ impl<C: ClientTypes> Client<C> {
 
     pub async fn get_peer(&self, peer_id: PeerId) -> Result<PeerDescription, Error> {
         let result: Value<PeerDescription> =
-            self.get(&format!("/eth/v1/node/peers/{peer_id}")).await?;
+            self.get(&format!("eth/v1/node/peers/{peer_id}")).await?;
         Ok(result.data)
     }
 
-- 
2.43.0


From 73625c89885f4c7d362e7d32eec64d5998efd8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:26 +0000
Subject: [PATCH 30/34] fix: send the validator indices of a liveness request
 as text

---
 beacon-api-client/src/api_client.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/beacon-api-client/src/api_client.rs b/beacon-api-client/src/api_client.rs
index 63b4cb3..444da30 100644
--- a/beacon-api-client/src/api_client.rs
+++ b/beacon-api-client/src/api_client.rs
@@ -866,8 +866,9 @@ impl<C: ClientTypes> Client<C> {
         epoch: Epoch,
         indices: &[ValidatorIndex],
     ) -> Result<Vec<ValidatorLiveness>, Error> {
+        let indices = indices.iter().map(|index| index.to_string()).collect::<Vec<_>>();
         let response =
-            self.http_post(&format!("eth/v1/validator/liveness/{epoch}"), indices).await?;
+            self.http_post(&format!("eth/v1/validator/liveness/{epoch}"), &indices).await?;
         let result: ApiResult<Value<_>> = response.json().await?;
         match result {
             ApiResult::Ok(result) => Ok(result.data),
-- 
2.43.0


From 09014f4776d26229904ce65b046696e1bb408a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:26 +0000
Subject: [PATCH 31/34] fix: read light client updates from the list of
 versioned updates a node replies with

---
 beacon-api-client/src/api_client.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beacon-api-client/src/api_client.rs b/beacon-api-client/src/api_client.rs
index 444da30..3a97803 100644
--- a/beacon-api-client/src/api_client.rs
+++ b/beacon-api-client/src/api_client.rs
@@ -444,9 +444,9 @@ impl<C: ClientTypes> Client<C> {
         request = request.query(&[("start_period", start), ("count", count)]);
 
         let response = request.send().await?;
-        let result: ApiResult<Value<_>> = response.json().await?;
+        let result: ApiResult<Vec<VersionedValue<_>>> = response.json().await?;
         match result {
-            ApiResult::Ok(result) => Ok(result.data),
+            ApiResult::Ok(result) => Ok(result.into_iter().map(|update| update.data).collect()),
             ApiResult::Err(err) => Err(err.into()),
         }
     }
-- 
2.43.0


From 6c75ecf0c51299a9e18c5becd71456ae5f53c147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:40 +0000
Subject: [PATCH 32/34] fix: read the randao mix from the object a node replies
 with

---
 beacon-api-client/src/api_client.rs | 10 +++++-----
 beacon-api-client/src/types.rs      |  9 +++++++--
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/beacon-api-client/src/api_client.rs b/beacon-api-client/src/api_client.rs
index 3a97803..8c3b966 100644
--- a/beacon-api-client/src/api_client.rs
+++ b/beacon-api-client/src/api_client.rs
@@ -5,9 +5,9 @@ use crate::{
         CommitteeFilter, CommitteeSummary, ConnectionOrientation, CoordinateWithMetadata,
         DepositContract, DepositSnapshot, FinalityCheckpoints, GenesisDetails, HealthStatus,
         NetworkIdentity, PeerDescription, PeerState, PeerSummary, ProposerDuty, PublicKeyOrIndex,
-        RootData, StateId, SubmitSignedBeaconBlock, SyncCommitteeDescriptor, SyncCommitteeDuty,
-        SyncCommitteeSummary, SyncStatus, Topic, ValidatorLiveness, ValidatorStatus,
-        ValidatorSummary, Value, VersionData, VersionedValue,
+        RandaoData, RootData, StateId, SubmitSignedBeaconBlock, SyncCommitteeDescriptor,
+        SyncCommitteeDuty, SyncCommitteeSummary, SyncStatus, Topic, ValidatorLiveness,
+        ValidatorStatus, ValidatorSummary, Value, VersionData, VersionedValue,
     },
     ApiError, Error,
 };
@@ -269,9 +269,9 @@ impl<C: ClientTypes> Client<C> {
         }
         let response = request.send().await?;
 
-        let result: ApiResult<Value<Bytes32>> = response.json().await?;
+        let result: ApiResult<Value<RandaoData>> = response.json().await?;
         match result {
-            ApiResult::Ok(result) => Ok(result.data),
+            ApiResult::Ok(result) => Ok(result.data.randao),
             ApiResult::Err(err) => Err(err.into()),
         }
     }
diff --git a/beacon-api-client/src/types.rs b/beacon-api-client/src/types.rs
index ee59120..9366989 100644
--- a/beacon-api-client/src/types.rs
+++ b/beacon-api-client/src/types.rs
@@ -6,8 +6,8 @@ use ethereum_consensus::{
     networking::{Enr, Multiaddr, PeerId},
     phase0::{Checkpoint, SignedBeaconBlockHeader, Validator},
     primitives::{
-        BlsPublicKey, ChainId, CommitteeIndex, Coordinate, Epoch, ExecutionAddress, Gwei, Hash32,
-        Root, Slot, ValidatorIndex, Version,
+        BlsPublicKey, Bytes32, ChainId, CommitteeIndex, Coordinate, Epoch, ExecutionAddress, Gwei,
+        Hash32, Root, Slot, ValidatorIndex, Version,
     },
     serde::try_bytes_from_hex_str,
     Fork,
@@ -110,6 +110,11 @@ pub struct RootData {
     pub root: Root,
 }
 
+#[derive(Serialize, Deserialize)]
+pub struct RandaoData {
+    pub randao: Bytes32,
+}
+
 #[derive(Serialize, Deserialize, Clone, Debug)]
 pub enum BlockId {
     Head,
-- 
2.43.0


From c1ab2afa103ba8b756363a92086a2c9cadd1d5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:40 +0000
Subject: [PATCH 33/34] fix: read the headers of a node from the list it
 replies with

---
 beacon-api-client/src/api_client.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/beacon-api-client/src/api_client.rs b/beacon-api-client/src/api_client.rs
index 8c3b966..16964e9 100644
--- a/beacon-api-client/src/api_client.rs
+++ b/beacon-api-client/src/api_client.rs
@@ -55,6 +55,14 @@ async fn api_error_or_value<T: serde::de::DeserializeOwned>(
     }
 }
 
+// the headers endpoint replies with a list, also where the request selects one header
+fn first_header(headers: Vec<BeaconHeaderSummary>) -> Result<BeaconHeaderSummary, Error> {
+    headers
+        .into_iter()
+        .next()
+        .ok_or_else(|| Error::MissingExpectedData("missing header in response".to_string()))
+}
+
 pub trait ClientTypes: Clone {
     type SignedContributionAndProof: serde::Serialize;
     type SyncCommitteeContribution: serde::Serialize + serde::de::DeserializeOwned;
@@ -277,8 +285,8 @@ impl<C: ClientTypes> Client<C> {
     }
 
     pub async fn get_beacon_header_at_head(&self) -> Result<BeaconHeaderSummary, Error> {
-        let result: Value<BeaconHeaderSummary> = self.get("eth/v1/beacon/headers").await?;
-        Ok(result.data)
+        let result: Value<Vec<BeaconHeaderSummary>> = self.get("eth/v1/beacon/headers").await?;
+        first_header(result.data)
     }
 
     pub async fn get_beacon_header_for_slot(
@@ -289,9 +297,9 @@ impl<C: ClientTypes> Client<C> {
         let mut request = self.http.get(target);
         request = request.query(&[("slot", slot)]);
         let response = request.send().await?;
-        let result: ApiResult<Value<BeaconHeaderSummary>> = response.json().await?;
+        let result: ApiResult<Value<Vec<BeaconHeaderSummary>>> = response.json().await?;
         match result {
-            ApiResult::Ok(result) => Ok(result.data),
+            ApiResult::Ok(result) => first_header(result.data),
             ApiResult::Err(err) => Err(err.into()),
         }
     }
@@ -304,9 +312,9 @@ impl<C: ClientTypes> Client<C> {
         let mut request = self.http.get(target);
         request = request.query(&[("parent_root", format!("{parent_root:?}"))]);
         let response = request.send().await?;
-        let result: ApiResult<Value<BeaconHeaderSummary>> = response.json().await?;
+        let result: ApiResult<Value<Vec<BeaconHeaderSummary>>> = response.json().await?;
         match result {
-            ApiResult::Ok(result) => Ok(result.data),
+            ApiResult::Ok(result) => first_header(result.data),
             ApiResult::Err(err) => Err(err.into()),
         }
     }
-- 
2.43.0


From 8369de39041421b8f83d38a3852beb556bd8521f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:35 +0000
Subject: [PATCH 34/34] verif-hooks: let a harness see what the no-op execution
 engine is asked

---
 ethereum-consensus/src/execution_engine.rs | 30 +++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/ethereum-consensus/src/execution_engine.rs b/ethereum-consensus/src/execution_engine.rs
index 98a92f8..de2f2c8 100644
--- a/ethereum-consensus/src/execution_engine.rs
+++ b/ethereum-consensus/src/execution_engine.rs
@@ -17,10 +17,38 @@ pub trait ExecutionEngine {
     ) -> Result<()>;
 }
 
+/// Lets a test harness see what the "no-op" execution engine is asked.
+#[cfg(feature = "verif-hooks")]
+pub mod observe {
+    use std::cell::RefCell;
+
+    /// Called with the name of the type of a request and its address.
+    pub type Observer = Box<dyn FnMut(&'static str, *const ())>;
+
+    thread_local! {
+        static OBSERVER: RefCell<Option<Observer>> = const { RefCell::new(None) };
+    }
+
+    /// Replaces the observer of this thread.
+    pub fn set(observer: Option<Observer>) {
+        OBSERVER.with(|o| *o.borrow_mut() = observer);
+    }
+
+    pub(super) fn asked<T>(request: &T) {
+        OBSERVER.with(|o| {
+            if let Some(observer) = o.borrow_mut().as_mut() {
+                observer(std::any::type_name::<T>(), request as *const T as *const ());
+            }
+        });
+    }
+}
+
 /// A "no-op" implementation that succeeds for `true` or fails for `false`.
 /// Useful for mocking the execution engine behavior.
 impl ExecutionEngine for bool {
-    fn verify_and_notify_new_payload(&self, _: &impl PayloadRequest) -> Result<()> {
+    fn verify_and_notify_new_payload(&self, _request: &impl PayloadRequest) -> Result<()> {
+        #[cfg(feature = "verif-hooks")]
+        observe::asked(_request);
         self.then_some(()).ok_or(Error::ExecutionEngine(ExecutionEngineError::InvalidPayload))
     }
 }
-- 
2.43.0

