------------------------------- MODULE Types -------------------------------
(* The containers of every fork, for the preset sizes in C (read from the file named by CFG). *)
EXTENDS SSZ, Json, IOUtils
C == JsonDeserialize(IOEnv.CFG)
Forks == <<"phase0", "altair", "bellatrix", "capella", "deneb", "electra">>
FNum == [phase0 |-> 1, altair |-> 2, bellatrix |-> 3, capella |-> 4, deneb |-> 5, electra |-> 6]
Ge(a, b) == FNum[a] >= FNum[b]
F(n, t) == <<n, t>>

ForkT == Cont(<<F("previous_version", B4), F("current_version", B4), F("epoch", U64)>>)
ForkDataT == Cont(<<F("current_version", B4), F("genesis_validators_root", B32)>>)
SigningDataT == Cont(<<F("object_root", B32), F("domain", B32)>>)
CheckpointT == Cont(<<F("epoch", U64), F("root", B32)>>)
ValidatorT == Cont(<<F("public_key", B48), F("withdrawal_credentials", B32), F("effective_balance", U64), F("slashed", Bool),
   F("activation_eligibility_epoch", U64), F("activation_epoch", U64), F("exit_epoch", U64), F("withdrawable_epoch", U64)>>)
AttDataT == Cont(<<F("slot", U64), F("index", U64), F("beacon_block_root", B32), F("source", CheckpointT), F("target", CheckpointT)>>)
MVC(f) == IF f = "electra" THEN C.max_validators_per_committee * C.max_committees_per_slot ELSE C.max_validators_per_committee
IndexedAttT(f) == Cont(<<F("attesting_indices", Lst(U64, MVC(f))), F("data", AttDataT), F("signature", B96)>>)
PendingAttT == Cont(<<F("aggregation_bits", BitL(C.max_validators_per_committee)), F("data", AttDataT), F("inclusion_delay", U64), F("proposer_index", U64)>>)
AttestationT(f) == IF f = "electra"
   THEN Cont(<<F("aggregation_bits", BitL(MVC(f))), F("data", AttDataT), F("committee_bits", BitV(C.max_committees_per_slot)), F("signature", B96)>>)
   ELSE Cont(<<F("aggregation_bits", BitL(MVC(f))), F("data", AttDataT), F("signature", B96)>>)
Eth1DataT == Cont(<<F("deposit_root", B32), F("deposit_count", U64), F("block_hash", B32)>>)
HistoricalBatchT == Cont(<<F("block_roots", Vec(B32, C.slots_per_historical_root)), F("state_roots", Vec(B32, C.slots_per_historical_root))>>)
HistoricalSummaryT == Cont(<<F("block_summary_root", B32), F("state_summary_root", B32)>>)
DepositMessageT == Cont(<<F("public_key", B48), F("withdrawal_credentials", B32), F("amount", U64)>>)
DepositDataT == Cont(<<F("public_key", B48), F("withdrawal_credentials", B32), F("amount", U64), F("signature", B96)>>)
HeaderT == Cont(<<F("slot", U64), F("proposer_index", U64), F("parent_root", B32), F("state_root", B32), F("body_root", B32)>>)
SignedHeaderT == Cont(<<F("message", HeaderT), F("signature", B96)>>)
ProposerSlashingT == Cont(<<F("signed_header_1", SignedHeaderT), F("signed_header_2", SignedHeaderT)>>)
AttesterSlashingT(f) == Cont(<<F("attestation_1", IndexedAttT(f)), F("attestation_2", IndexedAttT(f))>>)
DepositT == Cont(<<F("proof", Vec(B32, 33)), F("data", DepositDataT)>>)
VoluntaryExitT == Cont(<<F("epoch", U64), F("validator_index", U64)>>)
SignedVoluntaryExitT == Cont(<<F("message", VoluntaryExitT), F("signature", B96)>>)
SyncAggregateT == Cont(<<F("sync_committee_bits", BitV(C.sync_committee_size)), F("sync_committee_signature", B96)>>)
SyncCommitteeT == Cont(<<F("public_keys", Vec(B48, C.sync_committee_size)), F("aggregate_public_key", B48)>>)
WithdrawalT == Cont(<<F("index", U64), F("validator_index", U64), F("address", B20), F("amount", U64)>>)
BlsChangeT == Cont(<<F("validator_index", U64), F("from_bls_public_key", B48), F("to_execution_address", B20)>>)
SignedBlsChangeT == Cont(<<F("message", BlsChangeT), F("signature", B96)>>)
DepositReceiptT == Cont(<<F("public_key", B48), F("withdrawal_credentials", B32), F("amount", U64), F("signature", B96), F("index", U64)>>)
WithdrawalRequestT == Cont(<<F("source_address", B20), F("validator_public_key", B48), F("amount", U64)>>)
PendingBalanceDepositT == Cont(<<F("index", U64), F("amount", U64)>>)
PendingPartialWithdrawalT == Cont(<<F("index", U64), F("amount", U64), F("withdrawable_epoch", U64)>>)
PendingConsolidationT == Cont(<<F("source_index", U64), F("target_index", U64)>>)
ConsolidationT == Cont(<<F("source_index", U64), F("target_index", U64), F("epoch", U64)>>)
SignedConsolidationT == Cont(<<F("message", ConsolidationT), F("signature", B96)>>)

TransactionsT == Lst(BL(C.max_bytes_per_transaction), C.max_transactions_per_payload)
WithdrawalsT == Lst(WithdrawalT, C.max_withdrawals_per_payload)
DepositReceiptsT == Lst(DepositReceiptT, C.max_deposit_receipts_per_payload)
WithdrawalRequestsT == Lst(WithdrawalRequestT, C.max_withdrawal_requests_per_payload)
PayloadBase == <<F("parent_hash", B32), F("fee_recipient", B20), F("state_root", B32), F("receipts_root", B32),
   F("logs_bloom", BV(C.bytes_per_logs_bloom)), F("prev_randao", B32), F("block_number", U64), F("gas_limit", U64),
   F("gas_used", U64), F("timestamp", U64), F("extra_data", BL(C.max_extra_data_bytes)), F("base_fee_per_gas", B32), F("block_hash", B32)>>
PayloadT == [f \in {"bellatrix", "capella", "deneb", "electra"} |-> Cont(PayloadBase
   \o <<F("transactions", TransactionsT)>>
   \o (IF Ge(f, "capella") THEN <<F("withdrawals", WithdrawalsT)>> ELSE <<>>)
   \o (IF Ge(f, "deneb") THEN <<F("blob_gas_used", U64), F("excess_blob_gas", U64)>> ELSE <<>>)
   \o (IF Ge(f, "electra") THEN <<F("deposit_receipts", DepositReceiptsT), F("withdrawal_requests", WithdrawalRequestsT)>> ELSE <<>>))]
PayloadHeaderT == [f \in {"bellatrix", "capella", "deneb", "electra"} |-> Cont(PayloadBase
   \o <<F("transactions_root", B32)>>
   \o (IF Ge(f, "capella") THEN <<F("withdrawals_root", B32)>> ELSE <<>>)
   \o (IF Ge(f, "deneb") THEN <<F("blob_gas_used", U64), F("excess_blob_gas", U64)>> ELSE <<>>)
   \o (IF Ge(f, "electra") THEN <<F("deposit_receipts_root", B32), F("withdrawal_requests_root", B32)>> ELSE <<>>))]

ForkSet == {Forks[k] : k \in 1..6}
BodyT == [f \in ForkSet |-> Cont(
   <<F("randao_reveal", B96), F("eth1_data", Eth1DataT), F("graffiti", B32),
     F("proposer_slashings", Lst(ProposerSlashingT, C.max_proposer_slashings)),
     F("attester_slashings", Lst(AttesterSlashingT(f), IF f = "electra" THEN C.max_attester_slashings_electra ELSE C.max_attester_slashings)),
     F("attestations", Lst(AttestationT(f), IF f = "electra" THEN C.max_attestations_electra ELSE C.max_attestations)),
     F("deposits", Lst(DepositT, C.max_deposits)),
     F("voluntary_exits", Lst(SignedVoluntaryExitT, C.max_voluntary_exits))>>
   \o (IF Ge(f, "altair") THEN <<F("sync_aggregate", SyncAggregateT)>> ELSE <<>>)
   \o (IF Ge(f, "bellatrix") THEN <<F("execution_payload", PayloadT[f])>> ELSE <<>>)
   \o (IF Ge(f, "capella") THEN <<F("bls_to_execution_changes", Lst(SignedBlsChangeT, C.max_bls_to_execution_changes))>> ELSE <<>>)
   \o (IF Ge(f, "deneb") THEN <<F("blob_kzg_commitments", Lst(B48, C.max_blob_commitments_per_block))>> ELSE <<>>)
   \o (IF Ge(f, "electra") THEN <<F("consolidations", Lst(SignedConsolidationT, C.max_consolidations))>> ELSE <<>>))]
BlockT == [f \in ForkSet |-> Cont(<<F("slot", U64), F("proposer_index", U64), F("parent_root", B32), F("state_root", B32), F("body", BodyT[f])>>)]
SignedBlockT == [f \in ForkSet |-> Cont(<<F("message", BlockT[f]), F("signature", B96)>>)]

VRL == C.validator_registry_limit
PendingAttsT == Lst(PendingAttT, C.max_attestations * C.slots_per_epoch)
StateT == [f \in ForkSet |-> Cont(
   <<F("genesis_time", U64), F("genesis_validators_root", B32), F("slot", U64), F("fork", ForkT), F("latest_block_header", HeaderT),
     F("block_roots", Vec(B32, C.slots_per_historical_root)), F("state_roots", Vec(B32, C.slots_per_historical_root)),
     F("historical_roots", Lst(B32, C.historical_roots_limit)), F("eth1_data", Eth1DataT),
     F("eth1_data_votes", Lst(Eth1DataT, C.epochs_per_eth1_voting_period * C.slots_per_epoch)), F("eth1_deposit_index", U64),
     F("validators", Lst(ValidatorT, VRL)), F("balances", Lst(U64, VRL)),
     F("randao_mixes", Vec(B32, C.epochs_per_historical_vector)), F("slashings", Vec(U64, C.epochs_per_slashings_vector))>>
   \o (IF f = "phase0" THEN <<F("previous_epoch_attestations", PendingAttsT), F("current_epoch_attestations", PendingAttsT)>>
       ELSE <<F("previous_epoch_participation", Lst(U8, VRL)), F("current_epoch_participation", Lst(U8, VRL))>>)
   \o <<F("justification_bits", BitV(4)), F("previous_justified_checkpoint", CheckpointT),
        F("current_justified_checkpoint", CheckpointT), F("finalized_checkpoint", CheckpointT)>>
   \o (IF Ge(f, "altair") THEN <<F("inactivity_scores", Lst(U64, VRL)), F("current_sync_committee", SyncCommitteeT),
                                 F("next_sync_committee", SyncCommitteeT)>> ELSE <<>>)
   \o (IF Ge(f, "bellatrix") THEN <<F("latest_execution_payload_header", PayloadHeaderT[f])>> ELSE <<>>)
   \o (IF Ge(f, "capella") THEN <<F("next_withdrawal_index", U64), F("next_withdrawal_validator_index", U64),
                                  F("historical_summaries", Lst(HistoricalSummaryT, C.historical_roots_limit))>> ELSE <<>>)
   \o (IF Ge(f, "electra") THEN <<F("deposit_receipts_start_index", U64), F("deposit_balance_to_consume", U64),
        F("exit_balance_to_consume", U64), F("earliest_exit_epoch", U64), F("consolidation_balance_to_consume", U64),
        F("earliest_consolidation_epoch", U64), F("pending_balance_deposits", Lst(PendingBalanceDepositT, C.pending_balance_deposits_limit)),
        F("pending_partial_withdrawals", Lst(PendingPartialWithdrawalT, C.pending_partial_withdrawals_limit)),
        F("pending_consolidations", Lst(PendingConsolidationT, C.pending_consolidations_limit))>> ELSE <<>>))]
=============================================================================
