----------------------------- MODULE Published -----------------------------
(* The published values: presets of consensus-specs (phase0 to electra v1.5.0-alpha.2) and network       *)
(* configurations of eth-clients. Numbers are decimal strings (many exceed TLC's integers), versions and *)
(* addresses hex. Electra is unscheduled except on hoodi.                                                *)
EXTENDS Bytes
UNSET == "18446744073709551615"
ETH(n) == BMul(n, "1000000000")
P2(n) == LET RECURSIVE f(_) f(k) == IF k = 0 THEN "1" ELSE BMul(2, f(k - 1)) IN f(n)

(* ---- presets: what the two share, then each one's own *)
PresetCommon == [
  max_validators_per_committee |-> "2048", hysteresis_quotient |-> "4", hysteresis_downward_multiplier |-> "1",
  hysteresis_upward_multiplier |-> "5", min_deposit_amount |-> ETH(1), max_effective_balance |-> ETH(32),
  effective_balance_increment |-> ETH(1), min_attestation_inclusion_delay |-> "1", min_seed_lookahead |-> "1",
  max_seed_lookahead |-> "4", min_epochs_to_inactivity_penalty |-> "4", historical_roots_limit |-> P2(24),
  validator_registry_limit |-> P2(40), base_reward_factor |-> "64", whistleblower_reward_quotient |-> "512",
  proposer_reward_quotient |-> "8", max_proposer_slashings |-> "16", max_attester_slashings |-> "2",
  max_attestations |-> "128", max_deposits |-> "16", max_voluntary_exits |-> "16",
  inactivity_penalty_quotient_altair |-> BMul(3, P2(24)), min_slashing_penalty_quotient_altair |-> "64",
  proportional_slashing_multiplier_altair |-> "2", min_sync_committee_participants |-> "1",
  inactivity_penalty_quotient_bellatrix |-> P2(24), min_slashing_penalty_quotient_bellatrix |-> "32",
  proportional_slashing_multiplier_bellatrix |-> "3", max_bytes_per_transaction |-> P2(30),
  max_transactions_per_payload |-> P2(20), bytes_per_logs_bloom |-> "256", max_extra_data_bytes |-> "32",
  max_bls_to_execution_changes |-> "16", field_elements_per_blob |-> "4096", max_blobs_per_block |-> "6",
  min_activation_balance |-> ETH(32), max_effective_balance_electra |-> ETH(2048),
  min_slashing_penalty_quotient_electra |-> "4096", whistleblower_reward_quotient_electra |-> "4096",
  pending_balance_deposits_limit |-> P2(27), max_attester_slashings_electra |-> "1", max_attestations_electra |-> "8",
  max_consolidations |-> "1"]
PresetOwn(p) == IF p = "mainnet" THEN [
    max_committees_per_slot |-> "64", target_committee_size |-> "128", shuffle_round_count |-> "90", slots_per_epoch |-> "32",
    epochs_per_eth1_voting_period |-> "64", slots_per_historical_root |-> "8192", epochs_per_historical_vector |-> "65536",
    epochs_per_slashings_vector |-> "8192", inactivity_penalty_quotient |-> P2(26), min_slashing_penalty_quotient |-> "128",
    proportional_slashing_multiplier |-> "1", sync_committee_size |-> "512", epochs_per_sync_committee_period |-> "256",
    update_timeout |-> "8192", max_withdrawals_per_payload |-> "16", max_validators_per_withdrawals_sweep |-> "16384",
    max_blob_commitments_per_block |-> "4096", pending_partial_withdrawals_limit |-> P2(27),
    pending_consolidations_limit |-> P2(18), max_deposit_receipts_per_payload |-> "8192",
    max_withdrawal_requests_per_payload |-> "16", max_pending_partials_per_withdrawals_sweep |-> "8"]
  ELSE [
    max_committees_per_slot |-> "4", target_committee_size |-> "4", shuffle_round_count |-> "10", slots_per_epoch |-> "8",
    epochs_per_eth1_voting_period |-> "4", slots_per_historical_root |-> "64", epochs_per_historical_vector |-> "64",
    epochs_per_slashings_vector |-> "64", inactivity_penalty_quotient |-> P2(25), min_slashing_penalty_quotient |-> "64",
    proportional_slashing_multiplier |-> "2", sync_committee_size |-> "32", epochs_per_sync_committee_period |-> "8",
    update_timeout |-> "64", max_withdrawals_per_payload |-> "4", max_validators_per_withdrawals_sweep |-> "16",
    max_blob_commitments_per_block |-> "16", pending_partial_withdrawals_limit |-> "64",
    pending_consolidations_limit |-> "64", max_deposit_receipts_per_payload |-> "4",
    max_withdrawal_requests_per_payload |-> "2", max_pending_partials_per_withdrawals_sweep |-> "1"]
Preset(p) == PresetCommon @@ PresetOwn(p)
(* bounds derived from a preset, and constants of the specification kept beside it *)
Derived(p) == LET x == Preset(p) IN [
  eth1_data_votes_bound |-> BMul(x.epochs_per_eth1_voting_period, x.slots_per_epoch),
  pending_attestations_bound |-> BMul(x.max_attestations, x.slots_per_epoch),
  sync_subcommittee_size |-> BDiv(x.sync_committee_size, 4),
  bytes_per_blob |-> BMul(x.field_elements_per_blob, 32),
  max_request_blob_sidecars |-> BMul(128, x.max_blobs_per_block),
  kzg_commitment_inclusion_proof_depth |-> IF p = "mainnet" THEN "17" ELSE "9",
  target_aggregators_per_committee |-> "16", random_subnets_per_validator |-> "1",
  epochs_per_random_subnet_subscription |-> "256", target_aggregators_per_sync_subcommittee |-> "16"]

(* ---- constants that no preset changes *)
Global == [
  genesis_slot |-> "0", genesis_epoch |-> "0", far_future_epoch |-> UNSET, bls_withdrawal_prefix |-> "0",
  eth1_address_withdrawal_prefix |-> "1", compounding_withdrawal_prefix |-> "2",
  base_rewards_per_epoch |-> "4", deposit_contract_tree_depth |-> "32", justification_bits_length |-> "4",
  deposit_data_list_bound |-> P2(32),
  attestation_subnet_count |-> "64", gossip_max_size |-> P2(20), max_request_blocks |-> "1024",
  min_epochs_for_block_requests |-> "33024", max_chunk_size |-> P2(20), ttfb_timeout |-> "5000", resp_timeout |-> "10000",
  attestation_propagation_slot_range |-> "32", maximum_gossip_clock_disparity |-> "500",
  gossip_max_size_bellatrix |-> BMul(10, P2(20)), max_chunk_size_bellatrix |-> BMul(10, P2(20)),
  max_request_blocks_deneb |-> "128", max_request_blob_sidecars |-> "768", min_epochs_for_blob_sidecars_requests |-> "4096",
  blob_sidecar_subnet_count |-> "6", versioned_hash_version_kzg |-> "1",
  timely_source_flag_index |-> "0", timely_target_flag_index |-> "1", timely_head_flag_index |-> "2",
  timely_source_weight |-> "14", timely_target_weight |-> "26", timely_head_weight |-> "14", sync_reward_weight |-> "2",
  proposer_weight |-> "8", weight_denominator |-> "64", participation_flag_weights |-> "14,26,14",
  sync_committee_subnet_count |-> "4",
  finalized_root_index |-> "105", finalized_root_index_floor_log_2 |-> "6", current_sync_committee_index |-> "54",
  current_sync_committee_index_floor_log_2 |-> "5", next_sync_committee_index |-> "55",
  next_sync_committee_index_floor_log_2 |-> "5", execution_payload_index |-> "25", execution_payload_index_floor_log_2 |-> "4",
  unset_deposit_receipts_start_index |-> UNSET, full_exit_request_amount |-> "0",
  bytes_per_field_element |-> "32", bytes_per_commitment |-> "48", bytes_per_proof |-> "48", bytes_per_g1_point |-> "48",
  bytes_per_g2_point |-> "96",
  mainnet_genesis_time |-> "1606824023", sepolia_genesis_time |-> "1655733600", goerli_genesis_time |-> "1616508000",
  holesky_genesis_time |-> "1695902400", max_inline_key_length |-> "42"]

(* ---- network configurations *)
Networks == {"mainnet", "sepolia", "goerli", "holesky", "hoodi", "minimal"}
ConfigCommon == [
  terminal_block_hash |-> Zeros(32), terminal_block_hash_activation_epoch |-> UNSET,
  min_validator_withdrawability_delay |-> "256", inactivity_score_bias |-> "4", inactivity_score_recovery_rate |-> "16",
  proposer_score_boost |-> "40"]
\* what every network but minimal shares
PublicCommon == [
  min_genesis_active_validator_count |-> "16384", seconds_per_slot |-> "12", seconds_per_eth1_block |-> "14",
  shard_committee_period |-> "256", eth1_follow_distance |-> "2048", ejection_balance |-> ETH(16),
  min_per_epoch_churn_limit |-> "4", max_per_epoch_activation_churn_limit |-> "8", churn_limit_quotient |-> "65536",
  min_per_epoch_churn_limit_electra |-> ETH(128), max_per_epoch_activation_exit_churn_limit |-> ETH(256),
  electra_fork_epoch |-> UNSET]
Versions(a, b, c, d, e, f) == [
  genesis_fork_version |-> a, altair_fork_version |-> b, bellatrix_fork_version |-> c, capella_fork_version |-> d,
  deneb_fork_version |-> e, electra_fork_version |-> f]
Epochs(b, c, d, e) == [altair_fork_epoch |-> b, bellatrix_fork_epoch |-> c, capella_fork_epoch |-> d, deneb_fork_epoch |-> e]
Chain(id, ttd, addr) == [deposit_chain_id |-> id, deposit_network_id |-> id, terminal_total_difficulty |-> ttd,
                         deposit_contract_address |-> addr]
Genesis(time, delay) == [min_genesis_time |-> time, genesis_delay |-> delay]
MAINNET_CONTRACT == "00000000219ab540356cbb839cbe05303d7705fa"
ConfigOwn(n) ==
  CASE n = "mainnet" -> Genesis("1606824000", "604800")
         @@ Versions("00000000", "01000000", "02000000", "03000000", "04000000", "05000000")
         @@ Epochs("74240", "144896", "194048", "269568")
         @@ Chain("1", "58750000000000000000000", MAINNET_CONTRACT)
    [] n = "sepolia" -> Genesis("1655647200", "86400") @@ [min_genesis_active_validator_count |-> "1300"]
         @@ Versions("90000069", "90000070", "90000071", "90000072", "90000073", "90000074")
         @@ Epochs("50", "100", "56832", "132608")
         @@ Chain("11155111", "17000000000000000", "7f02c3e3c98b133055b8b348b2ac625669ed295d")
    [] n = "goerli" -> Genesis("1614588812", "1919188")
         @@ Versions("00001020", "01001020", "02001020", "03001020", "04001020", "05001020")
         @@ Epochs("36660", "112260", "162304", "231680")
         @@ Chain("5", "10790000", "ff50ed3d0ec03ac01d4c79aad74928bff48a7b2b")
    [] n = "holesky" -> Genesis("1695902100", "300") @@ [ejection_balance |-> ETH(28)]
         @@ Versions("01017000", "02017000", "03017000", "04017000", "05017000", "06017000")
         @@ Epochs("0", "0", "256", "29696")
         @@ Chain("17000", "0", Repeat("42", 20))
    [] n = "hoodi" -> Genesis("1742212800", "600") @@ [seconds_per_eth1_block |-> "12", electra_fork_epoch |-> "2048"]
         @@ Versions("10000910", "20000910", "30000910", "40000910", "50000910", "60000910")
         @@ Epochs("0", "0", "0", "0")
         @@ Chain("560048", "0", MAINNET_CONTRACT)
    [] n = "minimal" -> Genesis("1578009600", "300")
         @@ Versions("00000001", "01000001", "02000001", "03000001", "04000001", "05000001")
         @@ Epochs(UNSET, UNSET, UNSET, UNSET)
         @@ Chain("5", BSub(P2(256), 1024), "1234567890123456789012345678901234567890")
         @@ [min_genesis_active_validator_count |-> "64", seconds_per_slot |-> "6", shard_committee_period |-> "64",
             eth1_follow_distance |-> "16", min_per_epoch_churn_limit |-> "2", max_per_epoch_activation_churn_limit |-> "4",
             churn_limit_quotient |-> "32", min_per_epoch_churn_limit_electra |-> ETH(64),
             max_per_epoch_activation_exit_churn_limit |-> ETH(128)]
PresetBase(n) == IF n = "minimal" THEN "minimal" ELSE "mainnet"
Config(n) == ConfigOwn(n) @@ PublicCommon @@ ConfigCommon @@ [name |-> n, preset_base |-> PresetBase(n)]

(* ---- a context holds a preset and a configuration, unchanged *)
Without(r, f) == [x \in DOMAIN r \ {f} |-> r[x]]
ContextFrom(preset, config) == Without(config, "preset_base") @@ preset
ContextOf(n) == ContextFrom(Preset(PresetBase(n)), Config(n))
\* a configuration file names its preset; an unknown preset is refused
ContextFile(config) == IF config.preset_base \in {"mainnet", "minimal"} THEN ContextFrom(Preset(config.preset_base), config) ELSE "err"

(* ---- clocks and genesis times of the networks whose genesis is known *)
KnownGenesis == [mainnet |-> "1606824023", sepolia |-> "1655733600", goerli |-> "1616508000", holesky |-> "1695902400"]
GenesisTime(n) == IF n \in DOMAIN KnownGenesis THEN KnownGenesis[n] ELSE "none"
ClockOf(n) == IF n \in DOMAIN KnownGenesis
              THEN [g |-> KnownGenesis[n], sps |-> Config(n).seconds_per_slot, spe |-> Preset(PresetBase(n)).slots_per_epoch]
              ELSE [none |-> TRUE]
TypicalGenesis(c) == BAdd(c.min_genesis_time, c.genesis_delay)

(* ---- the fork schedule (P04) *)
ForkNames == <<"phase0", "altair", "bellatrix", "capella", "deneb", "electra">>
ForkEpochField(f) == f \o "_fork_epoch"
ForkEpoch(c, f) == IF f = "phase0" THEN "0" ELSE c[ForkEpochField(f)]
ForkVersion(c, f) == IF f = "phase0" THEN c.genesis_fork_version ELSE c[f \o "_fork_version"]
\* the latest fork whose activation epoch is not after the epoch
ForkAtEpoch(c, e) == LET act == {k \in 1..6 : BLeq(ForkEpoch(c, ForkNames[k]), e)}
                     IN ForkNames[CHOOSE k \in act : \A j \in act : j <= k]
ForkAtSlot(c, slot) == ForkAtEpoch(c, BDiv(slot, c.slots_per_epoch))
NonDecreasing(c) == \A k \in 1..5 : BLeq(ForkEpoch(c, ForkNames[k]), ForkEpoch(c, ForkNames[k + 1]))

(* ---- domains (P05) *)
DomainCode == [BeaconProposer |-> "00000000", BeaconAttester |-> "01000000", Randao |-> "02000000", Deposit |-> "03000000",
  VoluntaryExit |-> "04000000", SelectionProof |-> "05000000", AggregateAndProof |-> "06000000", SyncCommittee |-> "07000000",
  SyncCommitteeSelectionProof |-> "08000000", ContributionAndProof |-> "09000000", BlsToExecutionChange |-> "0a000000",
  Consolidation |-> "0b000000", ApplicationMask |-> "00000001", ApplicationBuilder |-> "00000001"]
ForkDataRoot(ver, gvr) == Sha256(ver \o Zeros(28) \o gvr)
ForkDigest(ver, gvr) == Slice(ForkDataRoot(ver, gvr), 0, 4)
Domain(type, ver, gvr) == DomainCode[type] \o Slice(ForkDataRoot(ver, gvr), 0, 28)
\* "none" stands for an argument not given
OrElse(x, d) == IF x = "none" THEN d ELSE x
ComputeDomain(c, type, ver, gvr) == Domain(type, OrElse(ver, c.genesis_fork_version), OrElse(gvr, Zeros(32)))
\* fork = [previous_version, current_version, epoch]; slot decides the state's epoch
GetDomain(fork, gvr, slot, spe, type, e) ==
  Domain(type, IF BLt(OrElse(e, BDiv(slot, spe)), fork.epoch) THEN fork.previous_version ELSE fork.current_version, gvr)
SigningRoot(object_root, domain) == Sha256(object_root \o domain)
=============================================================================
