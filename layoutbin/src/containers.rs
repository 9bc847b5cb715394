use crate::expand;
use ec::ssz::prelude::{HashTreeRoot, Serializable};
use ethereum_consensus as ec;
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use sha2::{Digest, Sha256};

pub fn short(b: &[u8]) -> String {
    if b.len() <= 4096 { hex::encode(b) } else { format!("sha256:{}", hex::encode(Sha256::digest(b))) }
}
pub fn root<T: HashTreeRoot>(t: &T) -> Value {
    hex::encode(t.hash_tree_root().expect("has a root")).into()
}
fn ssz<T: Serializable + HashTreeRoot>(t: &T) -> Value {
    let b = ec::ssz::prelude::serialize(t).expect("serializes");
    let back = match T::deserialize(&b) {
        Err(e) => Value::from(e.to_string()),
        Ok(u) => Value::from(ec::ssz::prelude::serialize(&u).unwrap() == b && root(&u) == root(t)),
    };
    json!({"ssz": short(&b), "root": root(t), "ssz_back": back})
}
fn json_only<T: Serialize + DeserializeOwned>(v: &Value) -> Result<(T, Value), Value> {
    let t: T = serde_json::from_str(&v.to_string()).map_err(|e| { if std::env::var("WHY").is_ok() { eprintln!("{e}") }; "rejected" })?;
    let w = serde_json::to_value(&t).expect("has a JSON form");
    let back = if &w == v { true.into() } else if w.to_string().len() < 2000 { w } else { false.into() };
    Ok((t, back))
}
fn full<T: Serialize + DeserializeOwned + Serializable + HashTreeRoot>(v: &Value) -> Value {
    match json_only::<T>(v) {
        Err(e) => e,
        Ok((t, back)) => {
            let mut o = ssz(&t);
            o["json_back"] = back;
            o
        }
    }
}
fn half<T: Serialize + DeserializeOwned>(v: &Value) -> Value {
    match json_only::<T>(v) {
        Err(e) => e,
        Ok((_, back)) => json!({"json_back": back}),
    }
}

pub mod mainnet {
    use super::*;
    pub mod electra {
        use super::ec::{altair::mainnet as a, bellatrix::mainnet as b, capella::mainnet as c, deneb::mainnet as d, electra::mainnet as e, phase0::mainnet as p, electra as spec};
        pub const PER_SLOT: usize = p::MAX_VALIDATORS_PER_COMMITTEE * p::MAX_COMMITTEES_PER_SLOT as usize;
        pub const COMMITTEES: usize = p::MAX_COMMITTEES_PER_SLOT as usize;
        pub type IndexedAttestation = spec::IndexedAttestation<PER_SLOT>;
        pub type Attestation = spec::Attestation<PER_SLOT, COMMITTEES>;
        pub type AttesterSlashing = spec::AttesterSlashing<PER_SLOT>;
        pub type ExecutionPayload = spec::ExecutionPayload<{b::BYTES_PER_LOGS_BLOOM}, {b::MAX_EXTRA_DATA_BYTES}, {b::MAX_BYTES_PER_TRANSACTION}, {b::MAX_TRANSACTIONS_PER_PAYLOAD}, {c::MAX_WITHDRAWALS_PER_PAYLOAD}, {e::MAX_DEPOSIT_RECEIPTS_PER_PAYLOAD}, {e::MAX_WITHDRAWAL_REQUESTS_PER_PAYLOAD}>;
        pub type ExecutionPayloadHeader = spec::ExecutionPayloadHeader<{b::BYTES_PER_LOGS_BLOOM}, {b::MAX_EXTRA_DATA_BYTES}>;
        pub type BeaconBlockBody = spec::BeaconBlockBody<{p::MAX_PROPOSER_SLASHINGS}, PER_SLOT, COMMITTEES, {e::MAX_ATTESTER_SLASHINGS_ELECTRA}, {e::MAX_ATTESTATIONS_ELECTRA}, {p::MAX_DEPOSITS}, {p::MAX_VOLUNTARY_EXITS}, {a::SYNC_COMMITTEE_SIZE}, {b::BYTES_PER_LOGS_BLOOM}, {b::MAX_EXTRA_DATA_BYTES}, {b::MAX_BYTES_PER_TRANSACTION}, {b::MAX_TRANSACTIONS_PER_PAYLOAD}, {c::MAX_WITHDRAWALS_PER_PAYLOAD}, {e::MAX_DEPOSIT_RECEIPTS_PER_PAYLOAD}, {e::MAX_WITHDRAWAL_REQUESTS_PER_PAYLOAD}, {c::MAX_BLS_TO_EXECUTION_CHANGES}, {d::MAX_BLOB_COMMITMENTS_PER_BLOCK}, {e::MAX_CONSOLIDATIONS}>;
        pub type BeaconBlock = spec::BeaconBlock<{p::MAX_PROPOSER_SLASHINGS}, PER_SLOT, COMMITTEES, {e::MAX_ATTESTER_SLASHINGS_ELECTRA}, {e::MAX_ATTESTATIONS_ELECTRA}, {p::MAX_DEPOSITS}, {p::MAX_VOLUNTARY_EXITS}, {a::SYNC_COMMITTEE_SIZE}, {b::BYTES_PER_LOGS_BLOOM}, {b::MAX_EXTRA_DATA_BYTES}, {b::MAX_BYTES_PER_TRANSACTION}, {b::MAX_TRANSACTIONS_PER_PAYLOAD}, {c::MAX_WITHDRAWALS_PER_PAYLOAD}, {e::MAX_DEPOSIT_RECEIPTS_PER_PAYLOAD}, {e::MAX_WITHDRAWAL_REQUESTS_PER_PAYLOAD}, {c::MAX_BLS_TO_EXECUTION_CHANGES}, {d::MAX_BLOB_COMMITMENTS_PER_BLOCK}, {e::MAX_CONSOLIDATIONS}>;
        pub type SignedBeaconBlock = spec::SignedBeaconBlock<{p::MAX_PROPOSER_SLASHINGS}, PER_SLOT, COMMITTEES, {e::MAX_ATTESTER_SLASHINGS_ELECTRA}, {e::MAX_ATTESTATIONS_ELECTRA}, {p::MAX_DEPOSITS}, {p::MAX_VOLUNTARY_EXITS}, {a::SYNC_COMMITTEE_SIZE}, {b::BYTES_PER_LOGS_BLOOM}, {b::MAX_EXTRA_DATA_BYTES}, {b::MAX_BYTES_PER_TRANSACTION}, {b::MAX_TRANSACTIONS_PER_PAYLOAD}, {c::MAX_WITHDRAWALS_PER_PAYLOAD}, {e::MAX_DEPOSIT_RECEIPTS_PER_PAYLOAD}, {e::MAX_WITHDRAWAL_REQUESTS_PER_PAYLOAD}, {c::MAX_BLS_TO_EXECUTION_CHANGES}, {d::MAX_BLOB_COMMITMENTS_PER_BLOCK}, {e::MAX_CONSOLIDATIONS}>;
        pub type BeaconState = spec::BeaconState<{p::SLOTS_PER_HISTORICAL_ROOT}, {p::HISTORICAL_ROOTS_LIMIT}, {p::ETH1_DATA_VOTES_BOUND}, {p::VALIDATOR_REGISTRY_LIMIT}, {p::EPOCHS_PER_HISTORICAL_VECTOR}, {p::EPOCHS_PER_SLASHINGS_VECTOR}, {p::MAX_VALIDATORS_PER_COMMITTEE}, {a::SYNC_COMMITTEE_SIZE}, {b::BYTES_PER_LOGS_BLOOM}, {b::MAX_EXTRA_DATA_BYTES}, {e::PENDING_BALANCE_DEPOSITS_LIMIT}, {e::PENDING_PARTIAL_WITHDRAWALS_LIMIT}, {e::PENDING_CONSOLIDATIONS_LIMIT}>;
    }
    pub fn run(fork: &str, name: &str, v: &Value) -> Value {
        match (fork, name) {
            ("phase0", "Fork") => full::<ec::phase0::Fork>(v),
            ("phase0", "ForkData") => full::<ec::phase0::ForkData>(v),
            ("phase0", "Checkpoint") => full::<ec::phase0::Checkpoint>(v),
            ("phase0", "AttestationData") => full::<ec::phase0::AttestationData>(v),
            ("phase0", "Eth1Data") => full::<ec::phase0::Eth1Data>(v),
            ("phase0", "DepositMessage") => full::<ec::phase0::DepositMessage>(v),
            ("phase0", "DepositData") => full::<ec::phase0::DepositData>(v),
            ("phase0", "ProposerSlashing") => full::<ec::phase0::ProposerSlashing>(v),
            ("phase0", "Deposit") => full::<ec::phase0::Deposit>(v),
            ("phase0", "VoluntaryExit") => full::<ec::phase0::VoluntaryExit>(v),
            ("phase0", "SignedVoluntaryExit") => full::<ec::phase0::SignedVoluntaryExit>(v),
            ("phase0", "BeaconBlockHeader") => full::<ec::phase0::BeaconBlockHeader>(v),
            ("phase0", "SignedBeaconBlockHeader") => full::<ec::phase0::SignedBeaconBlockHeader>(v),
            ("capella", "Withdrawal") => full::<ec::capella::Withdrawal>(v),
            ("capella", "BlsToExecutionChange") => full::<ec::capella::BlsToExecutionChange>(v),
            ("capella", "SignedBlsToExecutionChange") => full::<ec::capella::SignedBlsToExecutionChange>(v),
            ("capella", "HistoricalSummary") => full::<ec::capella::HistoricalSummary>(v),
            ("deneb", "BlobIdentifier") => full::<ec::deneb::BlobIdentifier>(v),
            ("phase0", "HistoricalBatch") => full::<ec::phase0::mainnet::HistoricalBatch>(v),
            ("phase0", "IndexedAttestation") => full::<ec::phase0::mainnet::IndexedAttestation>(v),
            ("phase0", "PendingAttestation") => full::<ec::phase0::mainnet::PendingAttestation>(v),
            ("phase0", "Attestation") => full::<ec::phase0::mainnet::Attestation>(v),
            ("phase0", "AttesterSlashing") => full::<ec::phase0::mainnet::AttesterSlashing>(v),
            ("phase0", "AggregateAndProof") => full::<ec::phase0::mainnet::AggregateAndProof>(v),
            ("phase0", "SignedAggregateAndProof") => full::<ec::phase0::mainnet::SignedAggregateAndProof>(v),
            ("phase0", "BeaconState") => full::<ec::phase0::mainnet::BeaconState>(v),
            ("phase0", "BeaconBlockBody") => full::<ec::phase0::mainnet::BeaconBlockBody>(v),
            ("phase0", "BeaconBlock") => full::<ec::phase0::mainnet::BeaconBlock>(v),
            ("phase0", "SignedBeaconBlock") => full::<ec::phase0::mainnet::SignedBeaconBlock>(v),
            ("altair", "SyncAggregate") => full::<ec::altair::mainnet::SyncAggregate>(v),
            ("altair", "SyncCommittee") => full::<ec::altair::mainnet::SyncCommittee>(v),
            ("altair", "SyncCommitteeContribution") => full::<ec::altair::mainnet::SyncCommitteeContribution>(v),
            ("altair", "ContributionAndProof") => full::<ec::altair::mainnet::ContributionAndProof>(v),
            ("altair", "SignedContributionAndProof") => full::<ec::altair::mainnet::SignedContributionAndProof>(v),
            ("altair", "BeaconState") => full::<ec::altair::mainnet::BeaconState>(v),
            ("altair", "BeaconBlockBody") => full::<ec::altair::mainnet::BeaconBlockBody>(v),
            ("altair", "BeaconBlock") => full::<ec::altair::mainnet::BeaconBlock>(v),
            ("altair", "SignedBeaconBlock") => full::<ec::altair::mainnet::SignedBeaconBlock>(v),
            ("altair", "LightClientBootstrap") => full::<ec::altair::mainnet::LightClientBootstrap>(v),
            ("altair", "LightClientUpdate") => full::<ec::altair::mainnet::LightClientUpdate>(v),
            ("altair", "LightClientFinalityUpdate") => full::<ec::altair::mainnet::LightClientFinalityUpdate>(v),
            ("altair", "LightClientOptimisticUpdate") => full::<ec::altair::mainnet::LightClientOptimisticUpdate>(v),
            ("bellatrix", "BeaconState") => full::<ec::bellatrix::mainnet::BeaconState>(v),
            ("bellatrix", "BeaconBlockBody") => full::<ec::bellatrix::mainnet::BeaconBlockBody>(v),
            ("bellatrix", "BeaconBlock") => full::<ec::bellatrix::mainnet::BeaconBlock>(v),
            ("bellatrix", "SignedBeaconBlock") => full::<ec::bellatrix::mainnet::SignedBeaconBlock>(v),
            ("bellatrix", "ExecutionPayload") => full::<ec::bellatrix::mainnet::ExecutionPayload>(v),
            ("bellatrix", "ExecutionPayloadHeader") => full::<ec::bellatrix::mainnet::ExecutionPayloadHeader>(v),
            ("bellatrix", "BlindedBeaconBlockBody") => full::<ec::bellatrix::mainnet::BlindedBeaconBlockBody>(v),
            ("bellatrix", "BlindedBeaconBlock") => full::<ec::bellatrix::mainnet::BlindedBeaconBlock>(v),
            ("bellatrix", "SignedBlindedBeaconBlock") => full::<ec::bellatrix::mainnet::SignedBlindedBeaconBlock>(v),
            ("capella", "BeaconState") => full::<ec::capella::mainnet::BeaconState>(v),
            ("capella", "BeaconBlockBody") => full::<ec::capella::mainnet::BeaconBlockBody>(v),
            ("capella", "BeaconBlock") => full::<ec::capella::mainnet::BeaconBlock>(v),
            ("capella", "SignedBeaconBlock") => full::<ec::capella::mainnet::SignedBeaconBlock>(v),
            ("capella", "ExecutionPayload") => full::<ec::capella::mainnet::ExecutionPayload>(v),
            ("capella", "ExecutionPayloadHeader") => full::<ec::capella::mainnet::ExecutionPayloadHeader>(v),
            ("capella", "BlindedBeaconBlockBody") => full::<ec::capella::mainnet::BlindedBeaconBlockBody>(v),
            ("capella", "BlindedBeaconBlock") => full::<ec::capella::mainnet::BlindedBeaconBlock>(v),
            ("capella", "SignedBlindedBeaconBlock") => full::<ec::capella::mainnet::SignedBlindedBeaconBlock>(v),
            ("capella", "LightClientHeader") => full::<ec::capella::mainnet::LightClientHeader>(v),
            ("capella", "LightClientBootstrap") => full::<ec::capella::mainnet::LightClientBootstrap>(v),
            ("capella", "LightClientUpdate") => full::<ec::capella::mainnet::LightClientUpdate>(v),
            ("capella", "LightClientFinalityUpdate") => full::<ec::capella::mainnet::LightClientFinalityUpdate>(v),
            ("capella", "LightClientOptimisticUpdate") => full::<ec::capella::mainnet::LightClientOptimisticUpdate>(v),
            ("deneb", "BeaconState") => full::<ec::deneb::mainnet::BeaconState>(v),
            ("deneb", "BeaconBlockBody") => full::<ec::deneb::mainnet::BeaconBlockBody>(v),
            ("deneb", "BeaconBlock") => full::<ec::deneb::mainnet::BeaconBlock>(v),
            ("deneb", "SignedBeaconBlock") => full::<ec::deneb::mainnet::SignedBeaconBlock>(v),
            ("deneb", "ExecutionPayload") => full::<ec::deneb::mainnet::ExecutionPayload>(v),
            ("deneb", "ExecutionPayloadHeader") => full::<ec::deneb::mainnet::ExecutionPayloadHeader>(v),
            ("deneb", "BlindedBeaconBlockBody") => full::<ec::deneb::mainnet::BlindedBeaconBlockBody>(v),
            ("deneb", "BlindedBeaconBlock") => full::<ec::deneb::mainnet::BlindedBeaconBlock>(v),
            ("deneb", "SignedBlindedBeaconBlock") => full::<ec::deneb::mainnet::SignedBlindedBeaconBlock>(v),
            ("deneb", "LightClientHeader") => full::<ec::deneb::mainnet::LightClientHeader>(v),
            ("deneb", "LightClientBootstrap") => full::<ec::deneb::mainnet::LightClientBootstrap>(v),
            ("deneb", "LightClientUpdate") => full::<ec::deneb::mainnet::LightClientUpdate>(v),
            ("deneb", "LightClientFinalityUpdate") => full::<ec::deneb::mainnet::LightClientFinalityUpdate>(v),
            ("deneb", "LightClientOptimisticUpdate") => full::<ec::deneb::mainnet::LightClientOptimisticUpdate>(v),
            ("deneb", "BlobSidecar") => full::<ec::deneb::mainnet::BlobSidecar>(v),
            ("electra", "BeaconState") => full::<electra::BeaconState>(v),
            ("electra", "BeaconBlockBody") => full::<electra::BeaconBlockBody>(v),
            ("electra", "BeaconBlock") => full::<electra::BeaconBlock>(v),
            ("electra", "SignedBeaconBlock") => full::<electra::SignedBeaconBlock>(v),
            ("electra", "ExecutionPayload") => full::<electra::ExecutionPayload>(v),
            ("electra", "ExecutionPayloadHeader") => full::<electra::ExecutionPayloadHeader>(v),
            ("electra", "IndexedAttestation") => full::<electra::IndexedAttestation>(v),
            ("electra", "Attestation") => full::<electra::Attestation>(v),
            ("electra", "AttesterSlashing") => full::<electra::AttesterSlashing>(v),
            ("electra", "Consolidation") => full::<ec::electra::Consolidation>(v),
            ("electra", "SignedConsolidation") => full::<ec::electra::SignedConsolidation>(v),
            ("electra", "DepositReceipt") => full::<ec::electra::DepositReceipt>(v),
            ("electra", "PendingBalanceDeposit") => full::<ec::electra::PendingBalanceDeposit>(v),
            ("electra", "PendingPartialWithdrawal") => full::<ec::electra::PendingPartialWithdrawal>(v),
            ("electra", "PendingConsolidation") => full::<ec::electra::PendingConsolidation>(v),
            ("electra", "ExecutionLayerWithdrawalRequest") => full::<ec::electra::ExecutionLayerWithdrawalRequest>(v),
            ("phase0", "Validator") => full::<ec::phase0::Validator>(v),
            ("phase0", "Eth1Block") => full::<ec::phase0::validator::Eth1Block>(v),
            ("phase0", "MetaData") => half::<ec::phase0::networking::MetaData>(v),
            ("phase0", "SigningData") => signing_data(v),
            ("altair", "MetaData") => half::<ec::altair::networking::MetaData>(v),
            ("altair", "LightClientHeader") => full::<ec::altair::light_client::LightClientHeader>(v),
            ("altair", "SyncCommitteeMessage") => full::<ec::altair::validator::SyncCommitteeMessage>(v),
            ("altair", "SyncAggregatorSelectionData") => full::<ec::altair::validator::SyncAggregatorSelectionData>(v),
            ("bellatrix", "PowBlock") => full::<ec::bellatrix::fork_choice::PowBlock>(v),
            ("deneb", "BlobsBundle") => half::<ec::deneb::mainnet::BlobsBundle>(v),
            ("builder", "ValidatorRegistration") => full::<ec::builder::ValidatorRegistration>(v),
            ("builder", "SignedValidatorRegistration") => full::<ec::builder::SignedValidatorRegistration>(v),
            _ => panic!("harness: no container {fork}.{name}"),
        }
    }
}

pub mod minimal {
    use super::*;
    pub mod electra {
        use super::ec::{altair::minimal as a, bellatrix::minimal as b, capella::minimal as c, deneb::minimal as d, electra::minimal as e, phase0::minimal as p, electra as spec};
        pub const PER_SLOT: usize = p::MAX_VALIDATORS_PER_COMMITTEE * p::MAX_COMMITTEES_PER_SLOT as usize;
        pub const COMMITTEES: usize = p::MAX_COMMITTEES_PER_SLOT as usize;
        pub type IndexedAttestation = spec::IndexedAttestation<PER_SLOT>;
        pub type Attestation = spec::Attestation<PER_SLOT, COMMITTEES>;
        pub type AttesterSlashing = spec::AttesterSlashing<PER_SLOT>;
        pub type ExecutionPayload = spec::ExecutionPayload<{b::BYTES_PER_LOGS_BLOOM}, {b::MAX_EXTRA_DATA_BYTES}, {b::MAX_BYTES_PER_TRANSACTION}, {b::MAX_TRANSACTIONS_PER_PAYLOAD}, {c::MAX_WITHDRAWALS_PER_PAYLOAD}, {e::MAX_DEPOSIT_RECEIPTS_PER_PAYLOAD}, {e::MAX_WITHDRAWAL_REQUESTS_PER_PAYLOAD}>;
        pub type ExecutionPayloadHeader = spec::ExecutionPayloadHeader<{b::BYTES_PER_LOGS_BLOOM}, {b::MAX_EXTRA_DATA_BYTES}>;
        pub type BeaconBlockBody = spec::BeaconBlockBody<{p::MAX_PROPOSER_SLASHINGS}, PER_SLOT, COMMITTEES, {e::MAX_ATTESTER_SLASHINGS_ELECTRA}, {e::MAX_ATTESTATIONS_ELECTRA}, {p::MAX_DEPOSITS}, {p::MAX_VOLUNTARY_EXITS}, {a::SYNC_COMMITTEE_SIZE}, {b::BYTES_PER_LOGS_BLOOM}, {b::MAX_EXTRA_DATA_BYTES}, {b::MAX_BYTES_PER_TRANSACTION}, {b::MAX_TRANSACTIONS_PER_PAYLOAD}, {c::MAX_WITHDRAWALS_PER_PAYLOAD}, {e::MAX_DEPOSIT_RECEIPTS_PER_PAYLOAD}, {e::MAX_WITHDRAWAL_REQUESTS_PER_PAYLOAD}, {c::MAX_BLS_TO_EXECUTION_CHANGES}, {d::MAX_BLOB_COMMITMENTS_PER_BLOCK}, {e::MAX_CONSOLIDATIONS}>;
        pub type BeaconBlock = spec::BeaconBlock<{p::MAX_PROPOSER_SLASHINGS}, PER_SLOT, COMMITTEES, {e::MAX_ATTESTER_SLASHINGS_ELECTRA}, {e::MAX_ATTESTATIONS_ELECTRA}, {p::MAX_DEPOSITS}, {p::MAX_VOLUNTARY_EXITS}, {a::SYNC_COMMITTEE_SIZE}, {b::BYTES_PER_LOGS_BLOOM}, {b::MAX_EXTRA_DATA_BYTES}, {b::MAX_BYTES_PER_TRANSACTION}, {b::MAX_TRANSACTIONS_PER_PAYLOAD}, {c::MAX_WITHDRAWALS_PER_PAYLOAD}, {e::MAX_DEPOSIT_RECEIPTS_PER_PAYLOAD}, {e::MAX_WITHDRAWAL_REQUESTS_PER_PAYLOAD}, {c::MAX_BLS_TO_EXECUTION_CHANGES}, {d::MAX_BLOB_COMMITMENTS_PER_BLOCK}, {e::MAX_CONSOLIDATIONS}>;
        pub type SignedBeaconBlock = spec::SignedBeaconBlock<{p::MAX_PROPOSER_SLASHINGS}, PER_SLOT, COMMITTEES, {e::MAX_ATTESTER_SLASHINGS_ELECTRA}, {e::MAX_ATTESTATIONS_ELECTRA}, {p::MAX_DEPOSITS}, {p::MAX_VOLUNTARY_EXITS}, {a::SYNC_COMMITTEE_SIZE}, {b::BYTES_PER_LOGS_BLOOM}, {b::MAX_EXTRA_DATA_BYTES}, {b::MAX_BYTES_PER_TRANSACTION}, {b::MAX_TRANSACTIONS_PER_PAYLOAD}, {c::MAX_WITHDRAWALS_PER_PAYLOAD}, {e::MAX_DEPOSIT_RECEIPTS_PER_PAYLOAD}, {e::MAX_WITHDRAWAL_REQUESTS_PER_PAYLOAD}, {c::MAX_BLS_TO_EXECUTION_CHANGES}, {d::MAX_BLOB_COMMITMENTS_PER_BLOCK}, {e::MAX_CONSOLIDATIONS}>;
        pub type BeaconState = spec::BeaconState<{p::SLOTS_PER_HISTORICAL_ROOT}, {p::HISTORICAL_ROOTS_LIMIT}, {p::ETH1_DATA_VOTES_BOUND}, {p::VALIDATOR_REGISTRY_LIMIT}, {p::EPOCHS_PER_HISTORICAL_VECTOR}, {p::EPOCHS_PER_SLASHINGS_VECTOR}, {p::MAX_VALIDATORS_PER_COMMITTEE}, {a::SYNC_COMMITTEE_SIZE}, {b::BYTES_PER_LOGS_BLOOM}, {b::MAX_EXTRA_DATA_BYTES}, {e::PENDING_BALANCE_DEPOSITS_LIMIT}, {e::PENDING_PARTIAL_WITHDRAWALS_LIMIT}, {e::PENDING_CONSOLIDATIONS_LIMIT}>;
    }
    pub fn run(fork: &str, name: &str, v: &Value) -> Value {
        match (fork, name) {
            ("phase0", "Fork") => full::<ec::phase0::Fork>(v),
            ("phase0", "ForkData") => full::<ec::phase0::ForkData>(v),
            ("phase0", "Checkpoint") => full::<ec::phase0::Checkpoint>(v),
            ("phase0", "AttestationData") => full::<ec::phase0::AttestationData>(v),
            ("phase0", "Eth1Data") => full::<ec::phase0::Eth1Data>(v),
            ("phase0", "DepositMessage") => full::<ec::phase0::DepositMessage>(v),
            ("phase0", "DepositData") => full::<ec::phase0::DepositData>(v),
            ("phase0", "ProposerSlashing") => full::<ec::phase0::ProposerSlashing>(v),
            ("phase0", "Deposit") => full::<ec::phase0::Deposit>(v),
            ("phase0", "VoluntaryExit") => full::<ec::phase0::VoluntaryExit>(v),
            ("phase0", "SignedVoluntaryExit") => full::<ec::phase0::SignedVoluntaryExit>(v),
            ("phase0", "BeaconBlockHeader") => full::<ec::phase0::BeaconBlockHeader>(v),
            ("phase0", "SignedBeaconBlockHeader") => full::<ec::phase0::SignedBeaconBlockHeader>(v),
            ("capella", "Withdrawal") => full::<ec::capella::Withdrawal>(v),
            ("capella", "BlsToExecutionChange") => full::<ec::capella::BlsToExecutionChange>(v),
            ("capella", "SignedBlsToExecutionChange") => full::<ec::capella::SignedBlsToExecutionChange>(v),
            ("capella", "HistoricalSummary") => full::<ec::capella::HistoricalSummary>(v),
            ("deneb", "BlobIdentifier") => full::<ec::deneb::BlobIdentifier>(v),
            ("phase0", "HistoricalBatch") => full::<ec::phase0::minimal::HistoricalBatch>(v),
            ("phase0", "IndexedAttestation") => full::<ec::phase0::minimal::IndexedAttestation>(v),
            ("phase0", "PendingAttestation") => full::<ec::phase0::minimal::PendingAttestation>(v),
            ("phase0", "Attestation") => full::<ec::phase0::minimal::Attestation>(v),
            ("phase0", "AttesterSlashing") => full::<ec::phase0::minimal::AttesterSlashing>(v),
            ("phase0", "AggregateAndProof") => full::<ec::phase0::minimal::AggregateAndProof>(v),
            ("phase0", "SignedAggregateAndProof") => full::<ec::phase0::minimal::SignedAggregateAndProof>(v),
            ("phase0", "BeaconState") => full::<ec::phase0::minimal::BeaconState>(v),
            ("phase0", "BeaconBlockBody") => full::<ec::phase0::minimal::BeaconBlockBody>(v),
            ("phase0", "BeaconBlock") => full::<ec::phase0::minimal::BeaconBlock>(v),
            ("phase0", "SignedBeaconBlock") => full::<ec::phase0::minimal::SignedBeaconBlock>(v),
            ("altair", "SyncAggregate") => full::<ec::altair::minimal::SyncAggregate>(v),
            ("altair", "SyncCommittee") => full::<ec::altair::minimal::SyncCommittee>(v),
            ("altair", "SyncCommitteeContribution") => full::<ec::altair::minimal::SyncCommitteeContribution>(v),
            ("altair", "ContributionAndProof") => full::<ec::altair::minimal::ContributionAndProof>(v),
            ("altair", "SignedContributionAndProof") => full::<ec::altair::minimal::SignedContributionAndProof>(v),
            ("altair", "BeaconState") => full::<ec::altair::minimal::BeaconState>(v),
            ("altair", "BeaconBlockBody") => full::<ec::altair::minimal::BeaconBlockBody>(v),
            ("altair", "BeaconBlock") => full::<ec::altair::minimal::BeaconBlock>(v),
            ("altair", "SignedBeaconBlock") => full::<ec::altair::minimal::SignedBeaconBlock>(v),
            ("altair", "LightClientBootstrap") => full::<ec::altair::minimal::LightClientBootstrap>(v),
            ("altair", "LightClientUpdate") => full::<ec::altair::minimal::LightClientUpdate>(v),
            ("altair", "LightClientFinalityUpdate") => full::<ec::altair::minimal::LightClientFinalityUpdate>(v),
            ("altair", "LightClientOptimisticUpdate") => full::<ec::altair::minimal::LightClientOptimisticUpdate>(v),
            ("bellatrix", "BeaconState") => full::<ec::bellatrix::minimal::BeaconState>(v),
            ("bellatrix", "BeaconBlockBody") => full::<ec::bellatrix::minimal::BeaconBlockBody>(v),
            ("bellatrix", "BeaconBlock") => full::<ec::bellatrix::minimal::BeaconBlock>(v),
            ("bellatrix", "SignedBeaconBlock") => full::<ec::bellatrix::minimal::SignedBeaconBlock>(v),
            ("bellatrix", "ExecutionPayload") => full::<ec::bellatrix::minimal::ExecutionPayload>(v),
            ("bellatrix", "ExecutionPayloadHeader") => full::<ec::bellatrix::minimal::ExecutionPayloadHeader>(v),
            ("bellatrix", "BlindedBeaconBlockBody") => full::<ec::bellatrix::minimal::BlindedBeaconBlockBody>(v),
            ("bellatrix", "BlindedBeaconBlock") => full::<ec::bellatrix::minimal::BlindedBeaconBlock>(v),
            ("bellatrix", "SignedBlindedBeaconBlock") => full::<ec::bellatrix::minimal::SignedBlindedBeaconBlock>(v),
            ("capella", "BeaconState") => full::<ec::capella::minimal::BeaconState>(v),
            ("capella", "BeaconBlockBody") => full::<ec::capella::minimal::BeaconBlockBody>(v),
            ("capella", "BeaconBlock") => full::<ec::capella::minimal::BeaconBlock>(v),
            ("capella", "SignedBeaconBlock") => full::<ec::capella::minimal::SignedBeaconBlock>(v),
            ("capella", "ExecutionPayload") => full::<ec::capella::minimal::ExecutionPayload>(v),
            ("capella", "ExecutionPayloadHeader") => full::<ec::capella::minimal::ExecutionPayloadHeader>(v),
            ("capella", "BlindedBeaconBlockBody") => full::<ec::capella::minimal::BlindedBeaconBlockBody>(v),
            ("capella", "BlindedBeaconBlock") => full::<ec::capella::minimal::BlindedBeaconBlock>(v),
            ("capella", "SignedBlindedBeaconBlock") => full::<ec::capella::minimal::SignedBlindedBeaconBlock>(v),
            ("capella", "LightClientHeader") => full::<ec::capella::minimal::LightClientHeader>(v),
            ("capella", "LightClientBootstrap") => full::<ec::capella::minimal::LightClientBootstrap>(v),
            ("capella", "LightClientUpdate") => full::<ec::capella::minimal::LightClientUpdate>(v),
            ("capella", "LightClientFinalityUpdate") => full::<ec::capella::minimal::LightClientFinalityUpdate>(v),
            ("capella", "LightClientOptimisticUpdate") => full::<ec::capella::minimal::LightClientOptimisticUpdate>(v),
            ("deneb", "BeaconState") => full::<ec::deneb::minimal::BeaconState>(v),
            ("deneb", "BeaconBlockBody") => full::<ec::deneb::minimal::BeaconBlockBody>(v),
            ("deneb", "BeaconBlock") => full::<ec::deneb::minimal::BeaconBlock>(v),
            ("deneb", "SignedBeaconBlock") => full::<ec::deneb::minimal::SignedBeaconBlock>(v),
            ("deneb", "ExecutionPayload") => full::<ec::deneb::minimal::ExecutionPayload>(v),
            ("deneb", "ExecutionPayloadHeader") => full::<ec::deneb::minimal::ExecutionPayloadHeader>(v),
            ("deneb", "BlindedBeaconBlockBody") => full::<ec::deneb::minimal::BlindedBeaconBlockBody>(v),
            ("deneb", "BlindedBeaconBlock") => full::<ec::deneb::minimal::BlindedBeaconBlock>(v),
            ("deneb", "SignedBlindedBeaconBlock") => full::<ec::deneb::minimal::SignedBlindedBeaconBlock>(v),
            ("deneb", "LightClientHeader") => full::<ec::deneb::minimal::LightClientHeader>(v),
            ("deneb", "LightClientBootstrap") => full::<ec::deneb::minimal::LightClientBootstrap>(v),
            ("deneb", "LightClientUpdate") => full::<ec::deneb::minimal::LightClientUpdate>(v),
            ("deneb", "LightClientFinalityUpdate") => full::<ec::deneb::minimal::LightClientFinalityUpdate>(v),
            ("deneb", "LightClientOptimisticUpdate") => full::<ec::deneb::minimal::LightClientOptimisticUpdate>(v),
            ("deneb", "BlobSidecar") => full::<ec::deneb::minimal::BlobSidecar>(v),
            ("electra", "BeaconState") => full::<electra::BeaconState>(v),
            ("electra", "BeaconBlockBody") => full::<electra::BeaconBlockBody>(v),
            ("electra", "BeaconBlock") => full::<electra::BeaconBlock>(v),
            ("electra", "SignedBeaconBlock") => full::<electra::SignedBeaconBlock>(v),
            ("electra", "ExecutionPayload") => full::<electra::ExecutionPayload>(v),
            ("electra", "ExecutionPayloadHeader") => full::<electra::ExecutionPayloadHeader>(v),
            ("electra", "IndexedAttestation") => full::<electra::IndexedAttestation>(v),
            ("electra", "Attestation") => full::<electra::Attestation>(v),
            ("electra", "AttesterSlashing") => full::<electra::AttesterSlashing>(v),
            ("electra", "Consolidation") => full::<ec::electra::Consolidation>(v),
            ("electra", "SignedConsolidation") => full::<ec::electra::SignedConsolidation>(v),
            ("electra", "DepositReceipt") => full::<ec::electra::DepositReceipt>(v),
            ("electra", "PendingBalanceDeposit") => full::<ec::electra::PendingBalanceDeposit>(v),
            ("electra", "PendingPartialWithdrawal") => full::<ec::electra::PendingPartialWithdrawal>(v),
            ("electra", "PendingConsolidation") => full::<ec::electra::PendingConsolidation>(v),
            ("electra", "ExecutionLayerWithdrawalRequest") => full::<ec::electra::ExecutionLayerWithdrawalRequest>(v),
            ("phase0", "Validator") => full::<ec::phase0::Validator>(v),
            ("phase0", "Eth1Block") => full::<ec::phase0::validator::Eth1Block>(v),
            ("phase0", "MetaData") => half::<ec::phase0::networking::MetaData>(v),
            ("phase0", "SigningData") => signing_data(v),
            ("altair", "MetaData") => half::<ec::altair::networking::MetaData>(v),
            ("altair", "LightClientHeader") => full::<ec::altair::light_client::LightClientHeader>(v),
            ("altair", "SyncCommitteeMessage") => full::<ec::altair::validator::SyncCommitteeMessage>(v),
            ("altair", "SyncAggregatorSelectionData") => full::<ec::altair::validator::SyncAggregatorSelectionData>(v),
            ("bellatrix", "PowBlock") => full::<ec::bellatrix::fork_choice::PowBlock>(v),
            ("deneb", "BlobsBundle") => half::<ec::deneb::minimal::BlobsBundle>(v),
            ("builder", "ValidatorRegistration") => full::<ec::builder::ValidatorRegistration>(v),
            ("builder", "SignedValidatorRegistration") => full::<ec::builder::SignedValidatorRegistration>(v),
            _ => panic!("harness: no container {fork}.{name}"),
        }
    }
}

fn signing_data(v: &Value) -> Value {
    let b = |k: &str| v[k].as_str().map(|t| hex::decode(&t[2..]).unwrap()).unwrap_or_default();
    let (r, d) = (b("object_root"), b("domain"));
    if r.len() != 32 || d.len() != 32 {
        return "rejected".into()
    }
    let t = ec::signing::SigningData { object_root: r.as_slice().try_into().unwrap(), domain: d.as_slice().try_into().unwrap() };
    ssz(&t)
}
pub fn exec(op: &str, a: &Value) -> Value {
    let v = expand(&a["v"]);
    let (f, n) = (a["fork"].as_str().unwrap(), a["name"].as_str().unwrap());
    match op {
        "layout.mainnet" => mainnet::run(f, n, &v),
        "layout.minimal" => minimal::run(f, n, &v),
        _ => panic!("harness: unknown op {op}"),
    }
}
