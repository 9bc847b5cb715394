//! Constants, presets, configurations, contexts, fork schedules, networks and domains.
use crate::{tiny, util::*};
use ethereum_consensus::{
    altair, bellatrix, capella, clock,
    configs::{self, Config},
    crypto, deneb, electra, networking,
    networks::{typical_genesis_time, Network},
    phase0,
    primitives::{self, *},
    signing::{compute_signing_root, sign_with_domain, verify_signed_data},
    state_transition::Context,
    Fork,
};
use serde_json::{json, Map, Value};
use std::time::Duration;

pub trait Text: Sized {
    fn text(&self) -> String;
    fn of(_: &Value) -> Self {
        panic!("harness: not an input")
    }
}
macro_rules! nums { ($($t:ty),*) => {$(impl Text for $t {
    fn text(&self) -> String { self.to_string() }
    fn of(v: &Value) -> Self { big(v) as $t }
})*} }
nums!(u64, usize, u8);
impl Text for [u8; 4] {
    fn text(&self) -> String {
        hex::encode(self)
    }
    fn of(v: &Value) -> Self {
        unhex(v).try_into().unwrap()
    }
}
impl Text for [u64; 3] {
    fn text(&self) -> String {
        self.map(|x| x.to_string()).join(",")
    }
}
impl Text for Duration {
    fn text(&self) -> String {
        self.as_millis().to_string()
    }
}
impl Text for U256 {
    fn text(&self) -> String {
        self.to_string()
    }
    fn of(v: &Value) -> Self {
        v.as_str().unwrap().parse().unwrap()
    }
}
impl Text for Bytes32 {
    fn text(&self) -> String {
        hex::encode(self.as_ref())
    }
    fn of(v: &Value) -> Self {
        Bytes32::try_from(&unhex(v)[..]).unwrap()
    }
}
impl Text for ExecutionAddress {
    fn text(&self) -> String {
        hex::encode(self.as_ref())
    }
    fn of(v: &Value) -> Self {
        ExecutionAddress::try_from(&unhex(v)[..]).unwrap()
    }
}
impl Text for Network {
    fn text(&self) -> String {
        self.clone().into()
    }
    fn of(v: &Value) -> Self {
        v.as_str().unwrap().to_string().into()
    }
}
impl Text for String {
    fn text(&self) -> String {
        self.clone()
    }
    fn of(v: &Value) -> Self {
        v.as_str().unwrap().to_string()
    }
}
macro_rules! fields { ($c:expr; $($f:ident),*) => {{
    let mut m = Map::new();
    $(m.insert(stringify!($f).into(), Text::text(&$c.$f).into());)*
    Value::Object(m)
}} }
macro_rules! unfields { ($a:expr; $($t:ident)::+ { $($f:ident),* }) => { $($t)::+ { $($f: Text::of(&$a[stringify!($f)])),* } } }
macro_rules! consts { ($m:expr, $($p:ident)::+; $($f:ident),*) => {{
    use $($p)::+ as ns;
    $($m.insert(stringify!($f).to_lowercase(), Text::text(&ns::$f).into());)*
}} }
macro_rules! global { ($m:expr; $($($p:ident)::+ { $($f:ident),* })*) => {{
    $({ use $($p)::+ as ns; $($m.insert(stringify!($f).to_lowercase(), Text::text(&ns::$f).into());)* })*
}} }
/// Every field of a context, by name.
pub fn context(c: &Context) -> Value {
    fields!(c;
        max_committees_per_slot, target_committee_size, max_validators_per_committee, shuffle_round_count,
        hysteresis_quotient, hysteresis_downward_multiplier, hysteresis_upward_multiplier, min_deposit_amount,
        max_effective_balance, effective_balance_increment, min_attestation_inclusion_delay, slots_per_epoch,
        min_seed_lookahead, max_seed_lookahead, min_epochs_to_inactivity_penalty, epochs_per_eth1_voting_period,
        slots_per_historical_root, epochs_per_historical_vector, epochs_per_slashings_vector, historical_roots_limit,
        validator_registry_limit, base_reward_factor, whistleblower_reward_quotient, proposer_reward_quotient,
        inactivity_penalty_quotient, min_slashing_penalty_quotient, proportional_slashing_multiplier,
        max_proposer_slashings, max_attester_slashings, max_attestations, max_deposits, max_voluntary_exits,
        inactivity_penalty_quotient_altair, min_slashing_penalty_quotient_altair,
        proportional_slashing_multiplier_altair, sync_committee_size, epochs_per_sync_committee_period,
        min_sync_committee_participants, update_timeout, inactivity_penalty_quotient_bellatrix,
        min_slashing_penalty_quotient_bellatrix, proportional_slashing_multiplier_bellatrix,
        max_bytes_per_transaction, max_transactions_per_payload, bytes_per_logs_bloom, max_extra_data_bytes,
        max_bls_to_execution_changes, max_withdrawals_per_payload, max_validators_per_withdrawals_sweep,
        field_elements_per_blob, max_blob_commitments_per_block, max_blobs_per_block, min_activation_balance,
        max_effective_balance_electra, min_slashing_penalty_quotient_electra, whistleblower_reward_quotient_electra,
        pending_balance_deposits_limit, pending_partial_withdrawals_limit, pending_consolidations_limit,
        max_attester_slashings_electra, max_attestations_electra, max_consolidations,
        max_deposit_receipts_per_payload, max_withdrawal_requests_per_payload,
        max_pending_partials_per_withdrawals_sweep, name, terminal_total_difficulty, terminal_block_hash,
        terminal_block_hash_activation_epoch, min_genesis_active_validator_count, min_genesis_time,
        genesis_fork_version, genesis_delay, altair_fork_version, altair_fork_epoch, bellatrix_fork_version,
        bellatrix_fork_epoch, capella_fork_version, capella_fork_epoch, deneb_fork_version, deneb_fork_epoch,
        electra_fork_version, electra_fork_epoch, seconds_per_slot, seconds_per_eth1_block,
        min_validator_withdrawability_delay, shard_committee_period, eth1_follow_distance, inactivity_score_bias,
        inactivity_score_recovery_rate, ejection_balance, min_per_epoch_churn_limit,
        max_per_epoch_activation_churn_limit, min_per_epoch_churn_limit_electra,
        max_per_epoch_activation_exit_churn_limit, churn_limit_quotient, proposer_score_boost, deposit_chain_id,
        deposit_network_id, deposit_contract_address)
}
pub fn config(c: &Config) -> Value {
    fields!(c;
        preset_base, name, terminal_total_difficulty, terminal_block_hash, terminal_block_hash_activation_epoch,
        min_genesis_active_validator_count, min_genesis_time, genesis_fork_version, genesis_delay,
        altair_fork_version, altair_fork_epoch, bellatrix_fork_version, bellatrix_fork_epoch, capella_fork_version,
        capella_fork_epoch, deneb_fork_version, deneb_fork_epoch, electra_fork_version, electra_fork_epoch,
        seconds_per_slot, seconds_per_eth1_block, min_validator_withdrawability_delay, shard_committee_period,
        eth1_follow_distance, inactivity_score_bias, inactivity_score_recovery_rate, ejection_balance,
        min_per_epoch_churn_limit, max_per_epoch_activation_churn_limit, churn_limit_quotient,
        min_per_epoch_churn_limit_electra, max_per_epoch_activation_exit_churn_limit, proposer_score_boost,
        deposit_chain_id, deposit_network_id, deposit_contract_address)
}
pub fn config_of(a: &Value) -> Config {
    unfields!(a; Config {
        preset_base, name, terminal_total_difficulty, terminal_block_hash, terminal_block_hash_activation_epoch,
        min_genesis_active_validator_count, min_genesis_time, genesis_fork_version, genesis_delay,
        altair_fork_version, altair_fork_epoch, bellatrix_fork_version, bellatrix_fork_epoch, capella_fork_version,
        capella_fork_epoch, deneb_fork_version, deneb_fork_epoch, electra_fork_version, electra_fork_epoch,
        seconds_per_slot, seconds_per_eth1_block, min_validator_withdrawability_delay, shard_committee_period,
        eth1_follow_distance, inactivity_score_bias, inactivity_score_recovery_rate, ejection_balance,
        min_per_epoch_churn_limit, max_per_epoch_activation_churn_limit, churn_limit_quotient,
        min_per_epoch_churn_limit_electra, max_per_epoch_activation_exit_churn_limit, proposer_score_boost,
        deposit_chain_id, deposit_network_id, deposit_contract_address})
}
fn phase0_preset(a: &Value) -> phase0::Preset {
    unfields!(a; phase0::Preset {
        max_committees_per_slot, target_committee_size, max_validators_per_committee, shuffle_round_count,
        hysteresis_quotient, hysteresis_downward_multiplier, hysteresis_upward_multiplier, min_deposit_amount,
        max_effective_balance, effective_balance_increment, min_attestation_inclusion_delay, slots_per_epoch,
        min_seed_lookahead, max_seed_lookahead, min_epochs_to_inactivity_penalty, epochs_per_eth1_voting_period,
        slots_per_historical_root, epochs_per_historical_vector, epochs_per_slashings_vector, historical_roots_limit,
        validator_registry_limit, base_reward_factor, whistleblower_reward_quotient, proposer_reward_quotient,
        inactivity_penalty_quotient, min_slashing_penalty_quotient, proportional_slashing_multiplier,
        max_proposer_slashings, max_attester_slashings, max_attestations, max_deposits, max_voluntary_exits})
}
fn phase0_fields(c: &phase0::Preset) -> Value {
    fields!(c;
        max_committees_per_slot, target_committee_size, max_validators_per_committee, shuffle_round_count,
        hysteresis_quotient, hysteresis_downward_multiplier, hysteresis_upward_multiplier, min_deposit_amount,
        max_effective_balance, effective_balance_increment, min_attestation_inclusion_delay, slots_per_epoch,
        min_seed_lookahead, max_seed_lookahead, min_epochs_to_inactivity_penalty, epochs_per_eth1_voting_period,
        slots_per_historical_root, epochs_per_historical_vector, epochs_per_slashings_vector, historical_roots_limit,
        validator_registry_limit, base_reward_factor, whistleblower_reward_quotient, proposer_reward_quotient,
        inactivity_penalty_quotient, min_slashing_penalty_quotient, proportional_slashing_multiplier,
        max_proposer_slashings, max_attester_slashings, max_attestations, max_deposits, max_voluntary_exits)
}
fn altair_preset(a: &Value) -> altair::Preset {
    unfields!(a; altair::Preset {
        inactivity_penalty_quotient_altair, min_slashing_penalty_quotient_altair,
        proportional_slashing_multiplier_altair, sync_committee_size, epochs_per_sync_committee_period,
        min_sync_committee_participants, update_timeout})
}
fn altair_fields(c: &altair::Preset) -> Value {
    fields!(c;
        inactivity_penalty_quotient_altair, min_slashing_penalty_quotient_altair,
        proportional_slashing_multiplier_altair, sync_committee_size, epochs_per_sync_committee_period,
        min_sync_committee_participants, update_timeout)
}
fn bellatrix_preset(a: &Value) -> bellatrix::Preset {
    unfields!(a; bellatrix::Preset {
        inactivity_penalty_quotient_bellatrix, min_slashing_penalty_quotient_bellatrix,
        proportional_slashing_multiplier_bellatrix, max_bytes_per_transaction, max_transactions_per_payload,
        bytes_per_logs_bloom, max_extra_data_bytes})
}
fn bellatrix_fields(c: &bellatrix::Preset) -> Value {
    fields!(c;
        inactivity_penalty_quotient_bellatrix, min_slashing_penalty_quotient_bellatrix,
        proportional_slashing_multiplier_bellatrix, max_bytes_per_transaction, max_transactions_per_payload,
        bytes_per_logs_bloom, max_extra_data_bytes)
}
fn capella_preset(a: &Value) -> capella::Preset {
    unfields!(a; capella::Preset {
        max_bls_to_execution_changes, max_withdrawals_per_payload, max_validators_per_withdrawals_sweep})
}
fn capella_fields(c: &capella::Preset) -> Value {
    fields!(c;
        max_bls_to_execution_changes, max_withdrawals_per_payload, max_validators_per_withdrawals_sweep)
}
fn deneb_preset(a: &Value) -> deneb::Preset {
    unfields!(a; deneb::Preset {
        field_elements_per_blob, max_blob_commitments_per_block, max_blobs_per_block})
}
fn deneb_fields(c: &deneb::Preset) -> Value {
    fields!(c;
        field_elements_per_blob, max_blob_commitments_per_block, max_blobs_per_block)
}
fn electra_preset(a: &Value) -> electra::Preset {
    unfields!(a; electra::Preset {
        min_activation_balance, max_effective_balance_electra, min_slashing_penalty_quotient_electra,
        whistleblower_reward_quotient_electra, pending_balance_deposits_limit, pending_partial_withdrawals_limit,
        pending_consolidations_limit, max_attester_slashings_electra, max_attestations_electra, max_consolidations,
        max_deposit_receipts_per_payload, max_withdrawal_requests_per_payload,
        max_pending_partials_per_withdrawals_sweep})
}
fn electra_fields(c: &electra::Preset) -> Value {
    fields!(c;
        min_activation_balance, max_effective_balance_electra, min_slashing_penalty_quotient_electra,
        whistleblower_reward_quotient_electra, pending_balance_deposits_limit, pending_partial_withdrawals_limit,
        pending_consolidations_limit, max_attester_slashings_electra, max_attestations_electra, max_consolidations,
        max_deposit_receipts_per_payload, max_withdrawal_requests_per_payload,
        max_pending_partials_per_withdrawals_sweep)
}
fn mainnet_consts() -> Value {
    let mut m = Map::new();
    consts!(m, phase0::mainnet;
        MAX_COMMITTEES_PER_SLOT, TARGET_COMMITTEE_SIZE, MAX_VALIDATORS_PER_COMMITTEE, SHUFFLE_ROUND_COUNT,
        HYSTERESIS_QUOTIENT, HYSTERESIS_DOWNWARD_MULTIPLIER, HYSTERESIS_UPWARD_MULTIPLIER, MIN_DEPOSIT_AMOUNT,
        MAX_EFFECTIVE_BALANCE, EFFECTIVE_BALANCE_INCREMENT, MIN_ATTESTATION_INCLUSION_DELAY, SLOTS_PER_EPOCH,
        MIN_SEED_LOOKAHEAD, MAX_SEED_LOOKAHEAD, MIN_EPOCHS_TO_INACTIVITY_PENALTY, EPOCHS_PER_ETH1_VOTING_PERIOD,
        SLOTS_PER_HISTORICAL_ROOT, EPOCHS_PER_HISTORICAL_VECTOR, EPOCHS_PER_SLASHINGS_VECTOR, HISTORICAL_ROOTS_LIMIT,
        VALIDATOR_REGISTRY_LIMIT, BASE_REWARD_FACTOR, WHISTLEBLOWER_REWARD_QUOTIENT, PROPOSER_REWARD_QUOTIENT,
        INACTIVITY_PENALTY_QUOTIENT, MIN_SLASHING_PENALTY_QUOTIENT, PROPORTIONAL_SLASHING_MULTIPLIER,
        MAX_PROPOSER_SLASHINGS, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS,
        TARGET_AGGREGATORS_PER_COMMITTEE, RANDOM_SUBNETS_PER_VALIDATOR, EPOCHS_PER_RANDOM_SUBNET_SUBSCRIPTION,
        ETH1_DATA_VOTES_BOUND, PENDING_ATTESTATIONS_BOUND);
    consts!(m, altair::mainnet;
        INACTIVITY_PENALTY_QUOTIENT_ALTAIR, MIN_SLASHING_PENALTY_QUOTIENT_ALTAIR,
        PROPORTIONAL_SLASHING_MULTIPLIER_ALTAIR, SYNC_COMMITTEE_SIZE, EPOCHS_PER_SYNC_COMMITTEE_PERIOD,
        MIN_SYNC_COMMITTEE_PARTICIPANTS, UPDATE_TIMEOUT, TARGET_AGGREGATORS_PER_SYNC_SUBCOMMITTEE,
        SYNC_SUBCOMMITTEE_SIZE);
    consts!(m, bellatrix::mainnet;
        INACTIVITY_PENALTY_QUOTIENT_BELLATRIX, MIN_SLASHING_PENALTY_QUOTIENT_BELLATRIX,
        PROPORTIONAL_SLASHING_MULTIPLIER_BELLATRIX, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD,
        BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES);
    consts!(m, capella::mainnet;
        MAX_WITHDRAWALS_PER_PAYLOAD, MAX_BLS_TO_EXECUTION_CHANGES, MAX_VALIDATORS_PER_WITHDRAWALS_SWEEP);
    consts!(m, deneb::mainnet;
        FIELD_ELEMENTS_PER_BLOB, MAX_BLOB_COMMITMENTS_PER_BLOCK, MAX_BLOBS_PER_BLOCK,
        KZG_COMMITMENT_INCLUSION_PROOF_DEPTH, BYTES_PER_BLOB, MAX_REQUEST_BLOB_SIDECARS);
    consts!(m, electra::mainnet;
        MIN_ACTIVATION_BALANCE, MAX_EFFECTIVE_BALANCE_ELECTRA, MIN_SLASHING_PENALTY_QUOTIENT_ELECTRA,
        WHISTLEBLOWER_REWARD_QUOTIENT_ELECTRA, PENDING_BALANCE_DEPOSITS_LIMIT, PENDING_PARTIAL_WITHDRAWALS_LIMIT,
        PENDING_CONSOLIDATIONS_LIMIT, MAX_ATTESTER_SLASHINGS_ELECTRA, MAX_ATTESTATIONS_ELECTRA, MAX_CONSOLIDATIONS,
        MAX_DEPOSIT_RECEIPTS_PER_PAYLOAD, MAX_WITHDRAWAL_REQUESTS_PER_PAYLOAD,
        MAX_PENDING_PARTIALS_PER_WITHDRAWALS_SWEEP);
    Value::Object(m)
}
fn minimal_consts() -> Value {
    let mut m = Map::new();
    consts!(m, phase0::minimal;
        MAX_COMMITTEES_PER_SLOT, TARGET_COMMITTEE_SIZE, MAX_VALIDATORS_PER_COMMITTEE, SHUFFLE_ROUND_COUNT,
        HYSTERESIS_QUOTIENT, HYSTERESIS_DOWNWARD_MULTIPLIER, HYSTERESIS_UPWARD_MULTIPLIER, MIN_DEPOSIT_AMOUNT,
        MAX_EFFECTIVE_BALANCE, EFFECTIVE_BALANCE_INCREMENT, MIN_ATTESTATION_INCLUSION_DELAY, SLOTS_PER_EPOCH,
        MIN_SEED_LOOKAHEAD, MAX_SEED_LOOKAHEAD, EPOCHS_PER_ETH1_VOTING_PERIOD, SLOTS_PER_HISTORICAL_ROOT,
        MIN_EPOCHS_TO_INACTIVITY_PENALTY, EPOCHS_PER_HISTORICAL_VECTOR, EPOCHS_PER_SLASHINGS_VECTOR,
        HISTORICAL_ROOTS_LIMIT, VALIDATOR_REGISTRY_LIMIT, BASE_REWARD_FACTOR, WHISTLEBLOWER_REWARD_QUOTIENT,
        PROPOSER_REWARD_QUOTIENT, INACTIVITY_PENALTY_QUOTIENT, MIN_SLASHING_PENALTY_QUOTIENT,
        PROPORTIONAL_SLASHING_MULTIPLIER, MAX_PROPOSER_SLASHINGS, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS,
        MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, TARGET_AGGREGATORS_PER_COMMITTEE, RANDOM_SUBNETS_PER_VALIDATOR,
        EPOCHS_PER_RANDOM_SUBNET_SUBSCRIPTION, ETH1_DATA_VOTES_BOUND, PENDING_ATTESTATIONS_BOUND);
    consts!(m, altair::minimal;
        INACTIVITY_PENALTY_QUOTIENT_ALTAIR, MIN_SLASHING_PENALTY_QUOTIENT_ALTAIR,
        PROPORTIONAL_SLASHING_MULTIPLIER_ALTAIR, SYNC_COMMITTEE_SIZE, EPOCHS_PER_SYNC_COMMITTEE_PERIOD,
        MIN_SYNC_COMMITTEE_PARTICIPANTS, UPDATE_TIMEOUT, TARGET_AGGREGATORS_PER_SYNC_SUBCOMMITTEE,
        SYNC_SUBCOMMITTEE_SIZE);
    consts!(m, bellatrix::minimal;
        INACTIVITY_PENALTY_QUOTIENT_BELLATRIX, MIN_SLASHING_PENALTY_QUOTIENT_BELLATRIX,
        PROPORTIONAL_SLASHING_MULTIPLIER_BELLATRIX, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD,
        BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES);
    consts!(m, capella::minimal;
        MAX_WITHDRAWALS_PER_PAYLOAD, MAX_BLS_TO_EXECUTION_CHANGES, MAX_VALIDATORS_PER_WITHDRAWALS_SWEEP);
    consts!(m, deneb::minimal;
        FIELD_ELEMENTS_PER_BLOB, MAX_BLOB_COMMITMENTS_PER_BLOCK, MAX_BLOBS_PER_BLOCK,
        KZG_COMMITMENT_INCLUSION_PROOF_DEPTH, BYTES_PER_BLOB, MAX_REQUEST_BLOB_SIDECARS);
    consts!(m, electra::minimal;
        MIN_ACTIVATION_BALANCE, MAX_EFFECTIVE_BALANCE_ELECTRA, MIN_SLASHING_PENALTY_QUOTIENT_ELECTRA,
        WHISTLEBLOWER_REWARD_QUOTIENT_ELECTRA, PENDING_BALANCE_DEPOSITS_LIMIT, PENDING_PARTIAL_WITHDRAWALS_LIMIT,
        PENDING_CONSOLIDATIONS_LIMIT, MAX_ATTESTER_SLASHINGS_ELECTRA, MAX_ATTESTATIONS_ELECTRA, MAX_CONSOLIDATIONS,
        MAX_DEPOSIT_RECEIPTS_PER_PAYLOAD, MAX_WITHDRAWAL_REQUESTS_PER_PAYLOAD,
        MAX_PENDING_PARTIALS_PER_WITHDRAWALS_SWEEP);
    Value::Object(m)
}
fn config_consts(n: &str) -> Value {
    let mut m = Map::new();
    match n {
        "mainnet" => consts!(m, configs::mainnet;
        MIN_GENESIS_ACTIVE_VALIDATOR_COUNT, MIN_GENESIS_TIME, GENESIS_FORK_VERSION, GENESIS_DELAY, SECONDS_PER_SLOT,
        SECONDS_PER_ETH1_BLOCK, MIN_VALIDATOR_WITHDRAWABILITY_DELAY, SHARD_COMMITTEE_PERIOD, ETH1_FOLLOW_DISTANCE,
        EJECTION_BALANCE, MIN_PER_EPOCH_CHURN_LIMIT, MAX_PER_EPOCH_ACTIVATION_CHURN_LIMIT, CHURN_LIMIT_QUOTIENT,
        MIN_PER_EPOCH_CHURN_LIMIT_ELECTRA, MAX_PER_EPOCH_ACTIVATION_EXIT_CHURN_LIMIT,
        TERMINAL_BLOCK_HASH_ACTIVATION_EPOCH, ALTAIR_FORK_VERSION, ALTAIR_FORK_EPOCH, BELLATRIX_FORK_VERSION,
        BELLATRIX_FORK_EPOCH, CAPELLA_FORK_VERSION, CAPELLA_FORK_EPOCH, DENEB_FORK_VERSION, DENEB_FORK_EPOCH,
        ELECTRA_FORK_VERSION, ELECTRA_FORK_EPOCH, INACTIVITY_SCORE_BIAS, INACTIVITY_SCORE_RECOVERY_RATE,
        PROPOSER_SCORE_BOOST, DEPOSIT_CHAIN_ID, DEPOSIT_NETWORK_ID),
        "sepolia" => consts!(m, configs::sepolia;
        MIN_GENESIS_ACTIVE_VALIDATOR_COUNT, MIN_GENESIS_TIME, GENESIS_FORK_VERSION, GENESIS_DELAY, SECONDS_PER_SLOT,
        SECONDS_PER_ETH1_BLOCK, MIN_VALIDATOR_WITHDRAWABILITY_DELAY, SHARD_COMMITTEE_PERIOD, ETH1_FOLLOW_DISTANCE,
        EJECTION_BALANCE, MIN_PER_EPOCH_CHURN_LIMIT, MAX_PER_EPOCH_ACTIVATION_CHURN_LIMIT, CHURN_LIMIT_QUOTIENT,
        MIN_PER_EPOCH_CHURN_LIMIT_ELECTRA, MAX_PER_EPOCH_ACTIVATION_EXIT_CHURN_LIMIT,
        TERMINAL_BLOCK_HASH_ACTIVATION_EPOCH, ALTAIR_FORK_VERSION, ALTAIR_FORK_EPOCH, BELLATRIX_FORK_VERSION,
        BELLATRIX_FORK_EPOCH, CAPELLA_FORK_VERSION, CAPELLA_FORK_EPOCH, DENEB_FORK_VERSION, DENEB_FORK_EPOCH,
        ELECTRA_FORK_VERSION, ELECTRA_FORK_EPOCH, INACTIVITY_SCORE_BIAS, INACTIVITY_SCORE_RECOVERY_RATE,
        PROPOSER_SCORE_BOOST, DEPOSIT_CHAIN_ID, DEPOSIT_NETWORK_ID),
        "goerli" => consts!(m, configs::goerli;
        MIN_GENESIS_ACTIVE_VALIDATOR_COUNT, MIN_GENESIS_TIME, GENESIS_FORK_VERSION, GENESIS_DELAY, SECONDS_PER_SLOT,
        SECONDS_PER_ETH1_BLOCK, MIN_VALIDATOR_WITHDRAWABILITY_DELAY, SHARD_COMMITTEE_PERIOD, ETH1_FOLLOW_DISTANCE,
        EJECTION_BALANCE, MIN_PER_EPOCH_CHURN_LIMIT, MAX_PER_EPOCH_ACTIVATION_CHURN_LIMIT, CHURN_LIMIT_QUOTIENT,
        MIN_PER_EPOCH_CHURN_LIMIT_ELECTRA, MAX_PER_EPOCH_ACTIVATION_EXIT_CHURN_LIMIT,
        TERMINAL_BLOCK_HASH_ACTIVATION_EPOCH, ALTAIR_FORK_VERSION, ALTAIR_FORK_EPOCH, BELLATRIX_FORK_VERSION,
        BELLATRIX_FORK_EPOCH, CAPELLA_FORK_VERSION, CAPELLA_FORK_EPOCH, DENEB_FORK_VERSION, DENEB_FORK_EPOCH,
        ELECTRA_FORK_VERSION, ELECTRA_FORK_EPOCH, INACTIVITY_SCORE_BIAS, INACTIVITY_SCORE_RECOVERY_RATE,
        PROPOSER_SCORE_BOOST, DEPOSIT_CHAIN_ID, DEPOSIT_NETWORK_ID),
        "holesky" => consts!(m, configs::holesky;
        MIN_GENESIS_ACTIVE_VALIDATOR_COUNT, MIN_GENESIS_TIME, GENESIS_FORK_VERSION, GENESIS_DELAY, SECONDS_PER_SLOT,
        SECONDS_PER_ETH1_BLOCK, MIN_VALIDATOR_WITHDRAWABILITY_DELAY, SHARD_COMMITTEE_PERIOD, ETH1_FOLLOW_DISTANCE,
        EJECTION_BALANCE, MIN_PER_EPOCH_CHURN_LIMIT, MAX_PER_EPOCH_ACTIVATION_CHURN_LIMIT, CHURN_LIMIT_QUOTIENT,
        MIN_PER_EPOCH_CHURN_LIMIT_ELECTRA, MAX_PER_EPOCH_ACTIVATION_EXIT_CHURN_LIMIT,
        TERMINAL_BLOCK_HASH_ACTIVATION_EPOCH, ALTAIR_FORK_VERSION, ALTAIR_FORK_EPOCH, BELLATRIX_FORK_VERSION,
        BELLATRIX_FORK_EPOCH, CAPELLA_FORK_VERSION, CAPELLA_FORK_EPOCH, DENEB_FORK_VERSION, DENEB_FORK_EPOCH,
        ELECTRA_FORK_VERSION, ELECTRA_FORK_EPOCH, INACTIVITY_SCORE_BIAS, INACTIVITY_SCORE_RECOVERY_RATE,
        PROPOSER_SCORE_BOOST, DEPOSIT_CHAIN_ID, DEPOSIT_NETWORK_ID),
        "hoodi" => consts!(m, configs::hoodi;
        MIN_GENESIS_ACTIVE_VALIDATOR_COUNT, MIN_GENESIS_TIME, GENESIS_FORK_VERSION, GENESIS_DELAY, SECONDS_PER_SLOT,
        SECONDS_PER_ETH1_BLOCK, MIN_VALIDATOR_WITHDRAWABILITY_DELAY, SHARD_COMMITTEE_PERIOD, ETH1_FOLLOW_DISTANCE,
        EJECTION_BALANCE, MIN_PER_EPOCH_CHURN_LIMIT, MAX_PER_EPOCH_ACTIVATION_CHURN_LIMIT, CHURN_LIMIT_QUOTIENT,
        MIN_PER_EPOCH_CHURN_LIMIT_ELECTRA, MAX_PER_EPOCH_ACTIVATION_EXIT_CHURN_LIMIT,
        TERMINAL_BLOCK_HASH_ACTIVATION_EPOCH, ALTAIR_FORK_VERSION, ALTAIR_FORK_EPOCH, BELLATRIX_FORK_VERSION,
        BELLATRIX_FORK_EPOCH, CAPELLA_FORK_VERSION, CAPELLA_FORK_EPOCH, DENEB_FORK_VERSION, DENEB_FORK_EPOCH,
        ELECTRA_FORK_VERSION, ELECTRA_FORK_EPOCH, INACTIVITY_SCORE_BIAS, INACTIVITY_SCORE_RECOVERY_RATE,
        PROPOSER_SCORE_BOOST, DEPOSIT_CHAIN_ID, DEPOSIT_NETWORK_ID),
        "minimal" => consts!(m, configs::minimal;
        MIN_GENESIS_ACTIVE_VALIDATOR_COUNT, MIN_GENESIS_TIME, GENESIS_FORK_VERSION, GENESIS_DELAY, SECONDS_PER_SLOT,
        SECONDS_PER_ETH1_BLOCK, MIN_VALIDATOR_WITHDRAWABILITY_DELAY, SHARD_COMMITTEE_PERIOD, ETH1_FOLLOW_DISTANCE,
        EJECTION_BALANCE, MIN_PER_EPOCH_CHURN_LIMIT, MAX_PER_EPOCH_ACTIVATION_CHURN_LIMIT, CHURN_LIMIT_QUOTIENT,
        MIN_PER_EPOCH_CHURN_LIMIT_ELECTRA, MAX_PER_EPOCH_ACTIVATION_EXIT_CHURN_LIMIT,
        TERMINAL_BLOCK_HASH_ACTIVATION_EPOCH, ALTAIR_FORK_VERSION, ALTAIR_FORK_EPOCH, BELLATRIX_FORK_VERSION,
        BELLATRIX_FORK_EPOCH, CAPELLA_FORK_VERSION, CAPELLA_FORK_EPOCH, DENEB_FORK_VERSION, DENEB_FORK_EPOCH,
        ELECTRA_FORK_VERSION, ELECTRA_FORK_EPOCH, INACTIVITY_SCORE_BIAS, INACTIVITY_SCORE_RECOVERY_RATE,
        PROPOSER_SCORE_BOOST, DEPOSIT_CHAIN_ID, DEPOSIT_NETWORK_ID),
        _ => panic!("harness: network {n}"),
    }
    Value::Object(m)
}
fn globals() -> Value {
    let mut m = Map::new();
    global!(m;
        primitives { GENESIS_SLOT, GENESIS_EPOCH, FAR_FUTURE_EPOCH, BLS_WITHDRAWAL_PREFIX, ETH1_ADDRESS_WITHDRAWAL_PREFIX,
            COMPOUNDING_WITHDRAWAL_PREFIX }
        phase0::constants { BASE_REWARDS_PER_EPOCH, DEPOSIT_CONTRACT_TREE_DEPTH, JUSTIFICATION_BITS_LENGTH,
            DEPOSIT_DATA_LIST_BOUND }
        phase0::networking { ATTESTATION_SUBNET_COUNT, GOSSIP_MAX_SIZE, MAX_REQUEST_BLOCKS, MIN_EPOCHS_FOR_BLOCK_REQUESTS,
            MAX_CHUNK_SIZE, TTFB_TIMEOUT, RESP_TIMEOUT, ATTESTATION_PROPAGATION_SLOT_RANGE, MAXIMUM_GOSSIP_CLOCK_DISPARITY }
        bellatrix::networking { GOSSIP_MAX_SIZE_BELLATRIX, MAX_CHUNK_SIZE_BELLATRIX }
        deneb::networking { MAX_REQUEST_BLOCKS_DENEB, MAX_REQUEST_BLOB_SIDECARS, MIN_EPOCHS_FOR_BLOB_SIDECARS_REQUESTS,
            BLOB_SIDECAR_SUBNET_COUNT }
        deneb::blob_sidecar { VERSIONED_HASH_VERSION_KZG }
        altair::constants { TIMELY_SOURCE_FLAG_INDEX, TIMELY_TARGET_FLAG_INDEX, TIMELY_HEAD_FLAG_INDEX, TIMELY_SOURCE_WEIGHT,
            TIMELY_TARGET_WEIGHT, TIMELY_HEAD_WEIGHT, SYNC_REWARD_WEIGHT, PROPOSER_WEIGHT, WEIGHT_DENOMINATOR,
            PARTICIPATION_FLAG_WEIGHTS, SYNC_COMMITTEE_SUBNET_COUNT }
        altair::light_client { FINALIZED_ROOT_INDEX, FINALIZED_ROOT_INDEX_FLOOR_LOG_2, CURRENT_SYNC_COMMITTEE_INDEX,
            CURRENT_SYNC_COMMITTEE_INDEX_FLOOR_LOG_2, NEXT_SYNC_COMMITTEE_INDEX, NEXT_SYNC_COMMITTEE_INDEX_FLOOR_LOG_2 }
        capella::light_client { EXECUTION_PAYLOAD_INDEX, EXECUTION_PAYLOAD_INDEX_FLOOR_LOG_2 }
        electra::constants { UNSET_DEPOSIT_RECEIPTS_START_INDEX, FULL_EXIT_REQUEST_AMOUNT }
        crypto::kzg { BYTES_PER_FIELD_ELEMENT, BYTES_PER_COMMITMENT, BYTES_PER_PROOF, BYTES_PER_G1_POINT, BYTES_PER_G2_POINT }
        clock { MAINNET_GENESIS_TIME, SEPOLIA_GENESIS_TIME, GOERLI_GENESIS_TIME, HOLESKY_GENESIS_TIME }
        networking { MAX_INLINE_KEY_LENGTH });
    Value::Object(m)
}
fn clock_of<T: clock::TimeProvider + Send + Sync>(c: &clock::Clock<T>) -> Value {
    let g = c.timestamp_at_slot(0);
    let spe = (1..10_000).find(|s| c.epoch_for(*s) != 0).unwrap_or(0);
    json!({"g": g.to_string(), "sps": (c.timestamp_at_slot(1) - g).to_string(), "spe": spe.to_string()})
}
fn clock_or_none(c: &Context) -> Value {
    c.clock().map(|x| clock_of(&x)).unwrap_or_else(|| json!({"none": true}))
}
/// A scratch directory of this process, removed on drop.
struct Scratch(std::path::PathBuf);
impl Scratch {
    fn new() -> Self {
        static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
        let n = N.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let d = std::env::temp_dir().join(format!("harness-{}-{n}", std::process::id()));
        std::fs::create_dir_all(&d).unwrap();
        Scratch(d)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
/// The configuration as the `config.yaml` of a network.
fn yaml(a: &Value) -> String {
    let mut s = String::from("# a network\n\n");
    for (k, v) in a.as_object().unwrap() {
        let v = v.as_str().unwrap();
        let key = if k == "name" { "CONFIG_NAME".into() } else { k.to_uppercase() };
        let v = match k.as_str() {
            "preset_base" | "name" => format!("'{v}'"),
            "deposit_contract_address" | "terminal_block_hash" => format!("'0x{v}'"),
            f if f.ends_with("_version") => format!("0x{v}"),
            _ => v.to_string(),
        };
        s += &format!("{key}: {v}\n");
    }
    s
}
fn network(n: &str) -> Context {
    match n {
        "mainnet" => Context::for_mainnet(),
        "sepolia" => Context::for_sepolia(),
        "goerli" => Context::for_goerli(),
        "holesky" => Context::for_holesky(),
        "hoodi" => Context::for_hoodi(),
        "minimal" => Context::for_minimal(),
        _ => panic!("harness: network {n}"),
    }
}
fn net(n: &str) -> Value {
    let c = network(n);
    let k = match n {
        "mainnet" => configs::mainnet::config(),
        "sepolia" => configs::sepolia::config(),
        "goerli" => configs::goerli::config(),
        "holesky" => configs::holesky::config(),
        "hoodi" => configs::hoodi::config(),
        _ => configs::minimal::config(),
    };
    let via = if n == "minimal" {
        context(&c)
    } else {
        Context::try_from(Network::from(n.to_string())).map(|x| context(&x)).unwrap_or_else(|_| "err".into())
    };
    json!({"context": context(&c), "config": config(&k), "consts": config_consts(n), "via": via,
        "network": c.network().text(),
        "genesis": c.genesis_time().map(|t| t.to_string()).unwrap_or_else(|_| "none".into()),
        "clock": clock_or_none(&c),
        "at": clock_of(&c.clock_at(12345)),
        "typical": typical_genesis_time(&c).to_string()})
}
fn merged(parts: Vec<Value>) -> Value {
    let mut m = Map::new();
    for p in parts {
        for (k, v) in p.as_object().unwrap() {
            if m.insert(k.clone(), v.clone()).map(|o| o != *v).unwrap_or(false) {
                panic!("harness: constant {k} has two values");
            }
        }
    }
    Value::Object(m)
}
fn schedule(a: &Value) -> Context {
    let mut c = Context::for_mainnet();
    c.slots_per_epoch = u(&a["slots_per_epoch"]);
    c.altair_fork_epoch = u(&a["altair_fork_epoch"]);
    c.bellatrix_fork_epoch = u(&a["bellatrix_fork_epoch"]);
    c.capella_fork_epoch = u(&a["capella_fork_epoch"]);
    c.deneb_fork_epoch = u(&a["deneb_fork_epoch"]);
    c.electra_fork_epoch = u(&a["electra_fork_epoch"]);
    c.genesis_fork_version = Text::of(&a["genesis_fork_version"]);
    c.altair_fork_version = Text::of(&a["altair_fork_version"]);
    c.bellatrix_fork_version = Text::of(&a["bellatrix_fork_version"]);
    c.capella_fork_version = Text::of(&a["capella_fork_version"]);
    c.deneb_fork_version = Text::of(&a["deneb_fork_version"]);
    c.electra_fork_version = Text::of(&a["electra_fork_version"]);
    c
}
pub const FORKS: [Fork; 6] = [Fork::Phase0, Fork::Altair, Fork::Bellatrix, Fork::Capella, Fork::Deneb, Fork::Electra];
fn fork_at(a: &Value) -> Value {
    let c = schedule(&a["c"]);
    let f = c.fork_for(u(&a["slot"]));
    json!({"fork": f.to_string(), "version": c.fork_version_for(f).text()})
}
const TYPES: [(&str, DomainType); 14] = [
    ("BeaconProposer", DomainType::BeaconProposer),
    ("BeaconAttester", DomainType::BeaconAttester),
    ("Randao", DomainType::Randao),
    ("Deposit", DomainType::Deposit),
    ("VoluntaryExit", DomainType::VoluntaryExit),
    ("SelectionProof", DomainType::SelectionProof),
    ("AggregateAndProof", DomainType::AggregateAndProof),
    ("SyncCommittee", DomainType::SyncCommittee),
    ("SyncCommitteeSelectionProof", DomainType::SyncCommitteeSelectionProof),
    ("ContributionAndProof", DomainType::ContributionAndProof),
    ("BlsToExecutionChange", DomainType::BlsToExecutionChange),
    ("Consolidation", DomainType::Consolidation),
    ("ApplicationMask", DomainType::ApplicationMask),
    ("ApplicationBuilder", DomainType::ApplicationBuilder),
];
fn dtype(v: &Value) -> DomainType {
    TYPES.iter().find(|t| t.0 == v.as_str().unwrap()).expect("harness: domain type").1
}
fn root(v: &Value) -> Root {
    Root::try_from(&unhex(v)[..]).unwrap()
}
fn given<T>(v: &Value, f: impl Fn(&Value) -> T) -> Option<T> {
    (v != "none").then(|| f(v))
}
fn res<E>(r: Result<impl AsRef<[u8]>, E>) -> Value {
    r.map(|x| hex::encode(x).into()).unwrap_or_else(|_| "err".into())
}
macro_rules! get_domain { ($a:expr, $st:ty, $g:path) => {{
    let mut c = Context::for_minimal();
    c.slots_per_epoch = u(&$a["spe"]);
    let mut s = <$st>::default();
    s.slot = u(&$a["slot"]);
    s.genesis_validators_root = root(&$a["gvr"]);
    s.fork.previous_version = Text::of(&$a["fork"]["previous_version"]);
    s.fork.current_version = Text::of(&$a["fork"]["current_version"]);
    s.fork.epoch = u(&$a["fork"]["epoch"]);
    res($g(&s, dtype(&$a["type"]), given(&$a["e"], u), &c))
}} }
fn outcome<T, E>(r: Result<T, E>) -> &'static str {
    if r.is_ok() { "ok" } else { "err" }
}

pub fn exec(op: &str, a: &Value) -> Value {
    match op {
        "const.net" => net(a["net"].as_str().unwrap()),
        "const.preset" => {
            let minimal = a["preset"] == "minimal";
            let p = if minimal {
                [phase0_fields(&phase0::minimal::PRESET), altair_fields(&altair::minimal::PRESET),
                 bellatrix_fields(&bellatrix::minimal::PRESET), capella_fields(&capella::minimal::PRESET),
                 deneb_fields(&deneb::minimal::PRESET), electra_fields(&electra::minimal::PRESET)]
            } else {
                [phase0_fields(&phase0::mainnet::PRESET), altair_fields(&altair::mainnet::PRESET),
                 bellatrix_fields(&bellatrix::mainnet::PRESET), capella_fields(&capella::mainnet::PRESET),
                 deneb_fields(&deneb::mainnet::PRESET), electra_fields(&electra::mainnet::PRESET)]
            };
            json!({"consts": if minimal { minimal_consts() } else { mainnet_consts() }, "preset": merged(p.to_vec())})
        }
        "const.global" => globals(),
        "const.from" => {
            let p = &a["preset"];
            context(&Context::from(&phase0_preset(p), &altair_preset(p), &bellatrix_preset(p), &capella_preset(p),
                &deneb_preset(p), &electra_preset(p), &config_of(&a["config"])))
        }
        "const.file" => {
            let d = Scratch::new();
            std::fs::write(d.0.join("config.yaml"), yaml(&a["config"])).unwrap();
            let via = Context::try_from(Network::Custom(d.0.to_str().unwrap().into()));
            let direct = Context::try_from_file(d.0.join("config.yaml"));
            let v = |r: Result<Context, _>| r.map(|c| context(&c)).unwrap_or_else(|_: ethereum_consensus::Error| "err".into());
            json!({"direct": v(direct), "via": v(via)})
        }
        "fork.at" => fork_at(a),
        "fork.version" => {
            let c = schedule(&a["c"]);
            let f = FORKS.into_iter().find(|f| f.to_string() == a["fork"].as_str().unwrap());
            f.map(|f| c.fork_version_for(f).text().into()).unwrap_or_else(|| "err".into())
        }
        "fork.names" => Value::from(FORKS.iter().map(|f| Value::from(vec![f.to_string(),
            serde_json::to_value(f).unwrap().as_str().unwrap().to_string()])).collect::<Vec<_>>()),
        "fork.parse" => serde_json::from_value::<Fork>(a["text"].clone())
            .map(|f| (FORKS.iter().position(|x| *x == f).unwrap() + 1).into()).unwrap_or_else(|_| "err".into()),
        "fork.same" => {
            let i = u(&a["x"]) as usize;
            let j = u(&a["y"]) as usize;
            Value::from(FORKS[i - 1] == FORKS[j - 1])
        }
        "net.parse" => {
            let n = Network::from(a["text"].as_str().unwrap().to_string());
            let k = match n {
                Network::Mainnet => "mainnet",
                Network::Sepolia => "sepolia",
                Network::Goerli => "goerli",
                Network::Holesky => "holesky",
                Network::Hoodi => "hoodi",
                Network::Custom(_) => "custom",
            };
            let t = String::from(n.clone());
            let j = serde_json::to_string(&n).unwrap();
            let b: Result<Network, _> = serde_json::from_str(&j);
            json!({"kind": k, "text": t, "json": serde_json::from_str::<Value>(&j).unwrap(),
                "same": Network::from(t.clone()) == n && b.map(|x| x == n).unwrap_or(false),
                "shown": if k == "custom" { "-".to_string() } else { n.to_string() }})
        }
        // a context of the given name, everything else minimal: what it knows about its genesis
        "net.genesis" => {
            let mut c = Context::for_minimal();
            c.name = Network::from(a["text"].as_str().unwrap().to_string());
            json!({"genesis": c.genesis_time().map(|t| t.to_string()).unwrap_or_else(|_| "none".into()), "clock": clock_or_none(&c)})
        }
        "net.missing" => {
            let d = Scratch::new();
            outcome(Context::try_from(Network::Custom(d.0.join("nowhere").to_str().unwrap().into()))).into()
        }
        "net.typical" => {
            let mut c = Context::for_minimal();
            c.min_genesis_time = u(&a["min_genesis_time"]);
            c.genesis_delay = u(&a["genesis_delay"]);
            typical_genesis_time(&c).to_string().into()
        }
        "domain.code" => dtype(&a["type"]).as_bytes().text().into(),
        "domain.root" => res(phase0::compute_fork_data_root(Text::of(&a["ver"]), root(&a["gvr"]))),
        "domain.digest" => res(phase0::compute_fork_digest(Text::of(&a["ver"]), root(&a["gvr"]))),
        "domain.compute" => {
            let mut c = Context::for_mainnet();
            c.genesis_fork_version = Text::of(&a["genesis_fork_version"]);
            res(phase0::compute_domain(dtype(&a["type"]), given(&a["ver"], Text::of), given(&a["gvr"], root), &c))
        }
        "domain.builder" => {
            let mut c = Context::for_mainnet();
            c.genesis_fork_version = Text::of(&a["genesis_fork_version"]);
            res(ethereum_consensus::builder::compute_builder_domain(&c))
        }
        "domain.get" => match a["impl"].as_str().unwrap() {
            "phase0" => get_domain!(a, tiny::PState, phase0::get_domain),
            "altair" => get_domain!(a, tiny::AState, altair::get_domain),
            "bellatrix" => get_domain!(a, tiny::BState, bellatrix::get_domain),
            "capella" => get_domain!(a, tiny::CState, capella::get_domain),
            "deneb" => get_domain!(a, tiny::DState, deneb::get_domain),
            "electra" => get_domain!(a, tiny::EState, electra::get_domain),
            f => panic!("harness: fork {f}"),
        },
        "domain.signing" => res(compute_signing_root(&root(&a["object"]), unhex(&a["domain"]).try_into().unwrap())),
        // sign, then verify under the same and another domain, object and key
        "domain.signed" => {
            let sk = |v: &Value| crypto::SecretKey::try_from(&unhex(v)[..]).unwrap();
            let d: Domain = unhex(&a["domain"]).try_into().unwrap();
            let d2: Domain = unhex(&a["domain2"]).try_into().unwrap();
            let (k, k2) = (sk(&a["sk"]), sk(&a["sk2"]));
            let (o, o2) = (root(&a["object"]), root(&a["object2"]));
            match sign_with_domain(&o, &k, d) {
                Err(_) => "err".into(),
                Ok(s) => json!({"sig": hex::encode(&s[..]), "pk": hex::encode(&k.public_key()[..]),
                    "same": outcome(verify_signed_data(&o, &s, &k.public_key(), d)),
                    "domain": outcome(verify_signed_data(&o, &s, &k.public_key(), d2)),
                    "object": outcome(verify_signed_data(&o2, &s, &k.public_key(), d)),
                    "key": outcome(verify_signed_data(&o, &s, &k2.public_key(), d))}),
            }
        }
        _ => panic!("harness: unknown op {op}"),
    }
}

fn versions(g: &mut G, m: &mut Map<String, Value>) {
    for f in ["genesis", "altair", "bellatrix", "capella", "deneb", "electra"] {
        m.insert(format!("{f}_fork_version"), g.hex(4).into());
    }
}
fn random_schedule(g: &mut G) -> Map<String, Value> {
    let mut m = Map::new();
    versions(g, &mut m);
    let spe = *g.pick(&[1u64, 3, 8, 32]);
    m.insert("slots_per_epoch".into(), spe.to_string().into());
    let top = *g.pick(&[6u64, 100, 1 << 40, u64::MAX / 64]);
    let mut es: Vec<u64> = (0..5).map(|_| if g.chance(1, 5) { u64::MAX } else { g.below(top) }).collect();
    es.sort();
    for (f, e) in ["altair", "bellatrix", "capella", "deneb", "electra"].iter().zip(es) {
        m.insert(format!("{f}_fork_epoch"), e.to_string().into());
    }
    m
}
fn name(g: &mut G) -> String {
    let known = ["mainnet", "sepolia", "goerli", "holesky", "hoodi", "minimal"];
    let mut s = g.pick(&known).to_string();
    match g.below(8) {
        0 => return s,
        1 => s = s.to_uppercase(),
        2 => { s.pop(); }
        3 => s.push(*g.pick(&[' ', 'x', '/', 's', '\n'])),
        4 => s = format!("/{}/{s}", g.hex(3)),
        5 => s = format!("custom ({s}/config.yaml)"),
        6 => s = s[..1].to_uppercase() + &s[1..],
        _ => { let n = g.below(9) as usize; s = (0..n).map(|_| *g.pick(&['a', 'm', '0', '.', '-', 'é', '"'])).collect() }
    }
    s
}
pub fn gen(family: &str, g: &mut G, n: usize) -> Vec<(String, Value)> {
    let mut v: Vec<(String, Value)> = vec![];
    let mut add = |op: &str, a: Value| v.push((op.to_string(), a));
    for _ in 0..n {
        match family {
            "const" => {
                // every field another value, so that no two can be confused
                let ctx = context(&Context::for_mainnet());
                let (mut p, mut c) = (Map::new(), Map::new());
                for (k, x) in ctx.as_object().unwrap().iter().chain([(&"preset_base".to_string(), &Value::from("mainnet"))]) {
                    let f = match k.as_str() {
                        "name" => Value::from(name(g).replace(['\n', '"', '\'', ' '], "_")),
                        "preset_base" => Value::from(*g.pick(&["mainnet", "minimal", "minimal", "Mainnet", "gnosis", ""])),
                        "terminal_block_hash" => g.hex(32).into(),
                        "deposit_contract_address" => g.hex(20).into(),
                        k if k.ends_with("_version") => g.hex(4).into(),
                        "terminal_total_difficulty" => g.below(u64::MAX).to_string().into(),
                        _ => (g.u64() >> g.below(40)).to_string().into(),
                    };
                    let is_config = configs_has(k);
                    if is_config { c.insert(k.clone(), f); } else { p.insert(k.clone(), f); }
                    let _ = x;
                }
                if g.chance(1, 2) {
                    add("const.from", json!({"preset": p, "config": c}));
                } else {
                    add("const.file", json!({"config": c}));
                }
            }
            "fork" => {
                let m = random_schedule(g);
                let spe: u64 = u(&m["slots_per_epoch"]);
                let e = u(&m[*g.pick(&["altair_fork_epoch", "bellatrix_fork_epoch", "capella_fork_epoch", "deneb_fork_epoch", "electra_fork_epoch"])]);
                let b = (e as u128 * spe as u128).min(u64::MAX as u128) as u64;
                let slot = match g.below(5) {
                    0 => b,
                    1 => b.saturating_sub(1),
                    2 => b.saturating_add(g.below(spe + 2)),
                    3 => b.saturating_sub(g.below(spe + 2)),
                    _ => *g.pick(&[0, 1, u64::MAX, u64::MAX - 1]),
                };
                match g.below(4) {
                    0 => add("fork.version", json!({"c": m, "fork": *g.pick(&["phase0", "altair", "bellatrix", "capella", "deneb", "electra"])})),
                    _ => add("fork.at", json!({"c": m, "slot": slot.to_string()})),
                }
                if g.chance(1, 8) {
                    let mut t = g.pick(&["phase0", "altair", "bellatrix", "capella", "deneb", "electra", "fulu", "merge", ""]).to_string();
                    match g.below(5) {
                        0 => t = t.to_uppercase(),
                        1 => t.push(' '),
                        2 => { t.pop(); }
                        _ => {}
                    }
                    add("fork.parse", json!({"text": t}));
                }
            }
            "net" => match g.below(4) {
                0 => add("net.genesis", json!({"text": name(g)})),
                1 => add("net.typical", json!({"min_genesis_time": (g.u64() >> 2).to_string(), "genesis_delay": (g.u64() >> 2).to_string()})),
                _ => add("net.parse", json!({"text": name(g)})),
            },
            "domain" => {
                let ty = g.pick(&TYPES).0;
                let opt = |g: &mut G, n: usize| if g.chance(1, 3) { Value::from("none") } else { g.hex(n).into() };
                match g.below(6) {
                    0 => { let (a, b) = (opt(g, 4), opt(g, 32)); add("domain.compute", json!({"type": ty, "ver": a, "gvr": b, "genesis_fork_version": g.hex(4)})) }
                    1 if g.chance(1, 4) => add("domain.builder", json!({"genesis_fork_version": g.hex(4)})),
                    1 => add("domain.digest", json!({"ver": g.hex(4), "gvr": g.hex(32)})),
                    2 => add("domain.root", json!({"ver": g.hex(4), "gvr": g.hex(32)})),
                    3 => add("domain.signing", json!({"object": g.hex(32), "domain": g.hex(32)})),
                    4 => {
                        let mut k = || { let mut b = g.bytes(32); b[0] &= 0x1f; hex::encode(b) };
                        let (sk, sk2) = (k(), k());
                        let mut d2 = g.bytes(32);
                        let d = { let mut d = d2.clone(); let i = g.below(32) as usize; d[i] ^= 1 << g.below(8); d };
                        if g.chance(1, 4) { d2 = d.clone() }
                        let o = g.bytes(32);
                        let o2 = { let mut o2 = o.clone(); let i = g.below(32) as usize; o2[i] ^= 1 << g.below(8); o2 };
                        add("domain.signed", json!({"sk": sk, "sk2": sk2, "domain": hex::encode(d), "domain2": hex::encode(d2), "object": hex::encode(o), "object2": hex::encode(o2)}))
                    }
                    _ => {
                        let spe = *g.pick(&[1u64, 4, 8, 32]);
                        let fe = *g.pick(&[0u64, 1, 5, 1 << 33, u64::MAX]);
                        let near = |g: &mut G| fe.saturating_add(g.below(3)).saturating_sub(g.below(3));
                        let se = near(g).min(u64::MAX / spe);
                        let slot = (se * spe).saturating_add(g.below(spe));
                        let e = if g.chance(1, 2) { Value::from("none") } else { near(g).to_string().into() };
                        let f = *g.pick(&["phase0", "altair", "bellatrix", "capella", "deneb", "electra"]);
                        add("domain.get", json!({"impl": f, "type": ty, "e": e, "slot": slot.to_string(), "spe": spe.to_string(), "gvr": g.hex(32),
                            "fork": {"previous_version": g.hex(4), "current_version": g.hex(4), "epoch": fe.to_string()}}))
                    }
                }
            }
            _ => panic!("harness: family {family}"),
        }
    }
    v
}
fn configs_has(k: &str) -> bool {
    thread_local! { static C: Value = config(&configs::mainnet::config()); }
    C.with(|c| c.get(k).is_some())
}
