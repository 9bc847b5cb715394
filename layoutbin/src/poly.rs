//! The fork-polymorphic types: every accessor of every view of a value.
use crate::{containers::short, expand};
use ec::ssz::prelude::{serialize, Deserialize as _, HashTreeRoot};
use ec::{primitives::Root, types, Fork};
use ethereum_consensus as ec;
use serde_json::{json, Map, Value};

/// What an accessor returns, as the root of the value it gives access to.
trait Seen {
    fn seen(&self) -> Value;
}
fn root<T: HashTreeRoot + ?Sized>(t: &T) -> Value {
    hex::encode(t.hash_tree_root().expect("has a root")).into()
}
macro_rules! values { ($($t:ty),*) => { $(impl Seen for $t { fn seen(&self) -> Value { root(self) } })* } }
values!(u64, usize, bool, Root);
impl<T: HashTreeRoot> Seen for &T {
    fn seen(&self) -> Value { root(*self) }
}
impl<T: HashTreeRoot> Seen for &mut T {
    fn seen(&self) -> Value { root(&**self) }
}
impl<T: Seen> Seen for Option<T> {
    fn seen(&self) -> Value { self.as_ref().map(|x| x.seen()).unwrap_or_else(|| "none".into()) }
}
fn fork(f: Fork) -> &'static str {
    match f {
        Fork::Phase0 => "phase0",
        Fork::Altair => "altair",
        Fork::Bellatrix => "bellatrix",
        Fork::Capella => "capella",
        Fork::Deneb => "deneb",
        Fork::Electra => "electra",
    }
}
macro_rules! view {
    ($x:expr, [$(($f:literal, $get:ident)),*], [$(($n:literal, $field:ident)),*]) => {{
        let mut a = Map::new();
        $( a.insert($f.into(), $x.$get().seen()); )*
        let mut m = Map::new();
        $( m.insert($n.into(), $x.$field().seen()); )*
        json!({"version": fork($x.version()), "as": a, "fields": m})
    }};
}
impl<const SLOTS_PER_HISTORICAL_ROOT: usize, const HISTORICAL_ROOTS_LIMIT: usize, const ETH1_DATA_VOTES_BOUND: usize, const VALIDATOR_REGISTRY_LIMIT: usize, const EPOCHS_PER_HISTORICAL_VECTOR: usize, const EPOCHS_PER_SLASHINGS_VECTOR: usize, const MAX_VALIDATORS_PER_COMMITTEE: usize, const PENDING_ATTESTATIONS_BOUND: usize, const SYNC_COMMITTEE_SIZE: usize, const BYTES_PER_LOGS_BLOOM: usize, const MAX_EXTRA_DATA_BYTES: usize> Seen for types::BeaconStateRef<'_, SLOTS_PER_HISTORICAL_ROOT, HISTORICAL_ROOTS_LIMIT, ETH1_DATA_VOTES_BOUND, VALIDATOR_REGISTRY_LIMIT, EPOCHS_PER_HISTORICAL_VECTOR, EPOCHS_PER_SLASHINGS_VECTOR, MAX_VALIDATORS_PER_COMMITTEE, PENDING_ATTESTATIONS_BOUND, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES> {
    fn seen(&self) -> Value { root(self) }
}
impl<const SLOTS_PER_HISTORICAL_ROOT: usize, const HISTORICAL_ROOTS_LIMIT: usize, const ETH1_DATA_VOTES_BOUND: usize, const VALIDATOR_REGISTRY_LIMIT: usize, const EPOCHS_PER_HISTORICAL_VECTOR: usize, const EPOCHS_PER_SLASHINGS_VECTOR: usize, const MAX_VALIDATORS_PER_COMMITTEE: usize, const PENDING_ATTESTATIONS_BOUND: usize, const SYNC_COMMITTEE_SIZE: usize, const BYTES_PER_LOGS_BLOOM: usize, const MAX_EXTRA_DATA_BYTES: usize> Seen for types::BeaconStateRefMut<'_, SLOTS_PER_HISTORICAL_ROOT, HISTORICAL_ROOTS_LIMIT, ETH1_DATA_VOTES_BOUND, VALIDATOR_REGISTRY_LIMIT, EPOCHS_PER_HISTORICAL_VECTOR, EPOCHS_PER_SLASHINGS_VECTOR, MAX_VALIDATORS_PER_COMMITTEE, PENDING_ATTESTATIONS_BOUND, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES> {
    fn seen(&self) -> Value { root(self) }
}
impl<const MAX_PROPOSER_SLASHINGS: usize, const MAX_VALIDATORS_PER_COMMITTEE: usize, const MAX_ATTESTER_SLASHINGS: usize, const MAX_ATTESTATIONS: usize, const MAX_DEPOSITS: usize, const MAX_VOLUNTARY_EXITS: usize, const SYNC_COMMITTEE_SIZE: usize, const BYTES_PER_LOGS_BLOOM: usize, const MAX_EXTRA_DATA_BYTES: usize, const MAX_BYTES_PER_TRANSACTION: usize, const MAX_TRANSACTIONS_PER_PAYLOAD: usize, const MAX_WITHDRAWALS_PER_PAYLOAD: usize, const MAX_BLS_TO_EXECUTION_CHANGES: usize, const MAX_BLOB_COMMITMENTS_PER_BLOCK: usize> Seen for types::BeaconBlockBodyRef<'_, MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK> {
    fn seen(&self) -> Value { root(self) }
}
impl<const MAX_PROPOSER_SLASHINGS: usize, const MAX_VALIDATORS_PER_COMMITTEE: usize, const MAX_ATTESTER_SLASHINGS: usize, const MAX_ATTESTATIONS: usize, const MAX_DEPOSITS: usize, const MAX_VOLUNTARY_EXITS: usize, const SYNC_COMMITTEE_SIZE: usize, const BYTES_PER_LOGS_BLOOM: usize, const MAX_EXTRA_DATA_BYTES: usize, const MAX_BYTES_PER_TRANSACTION: usize, const MAX_TRANSACTIONS_PER_PAYLOAD: usize, const MAX_WITHDRAWALS_PER_PAYLOAD: usize, const MAX_BLS_TO_EXECUTION_CHANGES: usize, const MAX_BLOB_COMMITMENTS_PER_BLOCK: usize> Seen for types::BeaconBlockBodyRefMut<'_, MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK> {
    fn seen(&self) -> Value { root(self) }
}
impl<const MAX_PROPOSER_SLASHINGS: usize, const MAX_VALIDATORS_PER_COMMITTEE: usize, const MAX_ATTESTER_SLASHINGS: usize, const MAX_ATTESTATIONS: usize, const MAX_DEPOSITS: usize, const MAX_VOLUNTARY_EXITS: usize, const SYNC_COMMITTEE_SIZE: usize, const BYTES_PER_LOGS_BLOOM: usize, const MAX_EXTRA_DATA_BYTES: usize, const MAX_BYTES_PER_TRANSACTION: usize, const MAX_TRANSACTIONS_PER_PAYLOAD: usize, const MAX_WITHDRAWALS_PER_PAYLOAD: usize, const MAX_BLS_TO_EXECUTION_CHANGES: usize, const MAX_BLOB_COMMITMENTS_PER_BLOCK: usize> Seen for types::BeaconBlockRef<'_, MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK> {
    fn seen(&self) -> Value { root(self) }
}
impl<const MAX_PROPOSER_SLASHINGS: usize, const MAX_VALIDATORS_PER_COMMITTEE: usize, const MAX_ATTESTER_SLASHINGS: usize, const MAX_ATTESTATIONS: usize, const MAX_DEPOSITS: usize, const MAX_VOLUNTARY_EXITS: usize, const SYNC_COMMITTEE_SIZE: usize, const BYTES_PER_LOGS_BLOOM: usize, const MAX_EXTRA_DATA_BYTES: usize, const MAX_BYTES_PER_TRANSACTION: usize, const MAX_TRANSACTIONS_PER_PAYLOAD: usize, const MAX_WITHDRAWALS_PER_PAYLOAD: usize, const MAX_BLS_TO_EXECUTION_CHANGES: usize, const MAX_BLOB_COMMITMENTS_PER_BLOCK: usize> Seen for types::BeaconBlockRefMut<'_, MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK> {
    fn seen(&self) -> Value { root(self) }
}
impl<const MAX_PROPOSER_SLASHINGS: usize, const MAX_VALIDATORS_PER_COMMITTEE: usize, const MAX_ATTESTER_SLASHINGS: usize, const MAX_ATTESTATIONS: usize, const MAX_DEPOSITS: usize, const MAX_VOLUNTARY_EXITS: usize, const SYNC_COMMITTEE_SIZE: usize, const BYTES_PER_LOGS_BLOOM: usize, const MAX_EXTRA_DATA_BYTES: usize, const MAX_BLS_TO_EXECUTION_CHANGES: usize, const MAX_BLOB_COMMITMENTS_PER_BLOCK: usize> Seen for types::BlindedBeaconBlockBodyRef<'_, MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK> {
    fn seen(&self) -> Value { root(self) }
}
impl<const MAX_PROPOSER_SLASHINGS: usize, const MAX_VALIDATORS_PER_COMMITTEE: usize, const MAX_ATTESTER_SLASHINGS: usize, const MAX_ATTESTATIONS: usize, const MAX_DEPOSITS: usize, const MAX_VOLUNTARY_EXITS: usize, const SYNC_COMMITTEE_SIZE: usize, const BYTES_PER_LOGS_BLOOM: usize, const MAX_EXTRA_DATA_BYTES: usize, const MAX_BLS_TO_EXECUTION_CHANGES: usize, const MAX_BLOB_COMMITMENTS_PER_BLOCK: usize> Seen for types::BlindedBeaconBlockBodyRefMut<'_, MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK> {
    fn seen(&self) -> Value { root(self) }
}
impl<const MAX_PROPOSER_SLASHINGS: usize, const MAX_VALIDATORS_PER_COMMITTEE: usize, const MAX_ATTESTER_SLASHINGS: usize, const MAX_ATTESTATIONS: usize, const MAX_DEPOSITS: usize, const MAX_VOLUNTARY_EXITS: usize, const SYNC_COMMITTEE_SIZE: usize, const BYTES_PER_LOGS_BLOOM: usize, const MAX_EXTRA_DATA_BYTES: usize, const MAX_BLS_TO_EXECUTION_CHANGES: usize, const MAX_BLOB_COMMITMENTS_PER_BLOCK: usize> Seen for types::BlindedBeaconBlockRef<'_, MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK> {
    fn seen(&self) -> Value { root(self) }
}
impl<const MAX_PROPOSER_SLASHINGS: usize, const MAX_VALIDATORS_PER_COMMITTEE: usize, const MAX_ATTESTER_SLASHINGS: usize, const MAX_ATTESTATIONS: usize, const MAX_DEPOSITS: usize, const MAX_VOLUNTARY_EXITS: usize, const SYNC_COMMITTEE_SIZE: usize, const BYTES_PER_LOGS_BLOOM: usize, const MAX_EXTRA_DATA_BYTES: usize, const MAX_BLS_TO_EXECUTION_CHANGES: usize, const MAX_BLOB_COMMITMENTS_PER_BLOCK: usize> Seen for types::BlindedBeaconBlockRefMut<'_, MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK> {
    fn seen(&self) -> Value { root(self) }
}
impl<const BYTES_PER_LOGS_BLOOM: usize, const MAX_EXTRA_DATA_BYTES: usize, const MAX_BYTES_PER_TRANSACTION: usize, const MAX_TRANSACTIONS_PER_PAYLOAD: usize, const MAX_WITHDRAWALS_PER_PAYLOAD: usize> Seen for types::ExecutionPayloadRef<'_, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD> {
    fn seen(&self) -> Value { root(self) }
}
impl<const BYTES_PER_LOGS_BLOOM: usize, const MAX_EXTRA_DATA_BYTES: usize, const MAX_BYTES_PER_TRANSACTION: usize, const MAX_TRANSACTIONS_PER_PAYLOAD: usize, const MAX_WITHDRAWALS_PER_PAYLOAD: usize> Seen for types::ExecutionPayloadRefMut<'_, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD> {
    fn seen(&self) -> Value { root(self) }
}
impl<const BYTES_PER_LOGS_BLOOM: usize, const MAX_EXTRA_DATA_BYTES: usize> Seen for types::ExecutionPayloadHeaderRef<'_, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES> {
    fn seen(&self) -> Value { root(self) }
}
impl<const BYTES_PER_LOGS_BLOOM: usize, const MAX_EXTRA_DATA_BYTES: usize> Seen for types::ExecutionPayloadHeaderRefMut<'_, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES> {
    fn seen(&self) -> Value { root(self) }
}

pub mod mainnet {
    use super::*;
    pub fn beacon_state(v: &Value) -> Value {
        let Ok(mut x) = serde_json::from_str::<types::mainnet::BeaconState>(&v.to_string()) else { return "rejected".into() };
        let b = serialize(&x).expect("serializes");
        let back = types::mainnet::BeaconState::deserialize(&b).map(|y| y == x && y.version() == x.version()).unwrap_or(false);
        let mut o = json!({"version": fork(x.version()), "ssz": short(&b), "root": root(&x), "ssz_back": back,
            "json_back": &serde_json::to_value(&x).unwrap() == v});
        o["owned"] = view!(x, [("phase0", phase0), ("altair", altair), ("bellatrix", bellatrix), ("capella", capella), ("deneb", deneb)], [("genesis_time", genesis_time), ("genesis_validators_root", genesis_validators_root), ("slot", slot), ("fork", fork), ("latest_block_header", latest_block_header), ("block_roots", block_roots), ("state_roots", state_roots), ("historical_roots", historical_roots), ("eth1_data", eth1_data), ("eth1_data_votes", eth1_data_votes), ("eth1_deposit_index", eth1_deposit_index), ("validators", validators), ("balances", balances), ("randao_mixes", randao_mixes), ("slashings", slashings), ("previous_epoch_attestations", previous_epoch_attestations), ("current_epoch_attestations", current_epoch_attestations), ("justification_bits", justification_bits), ("previous_justified_checkpoint", previous_justified_checkpoint), ("current_justified_checkpoint", current_justified_checkpoint), ("finalized_checkpoint", finalized_checkpoint), ("previous_epoch_participation", previous_epoch_participation), ("current_epoch_participation", current_epoch_participation), ("inactivity_scores", inactivity_scores), ("current_sync_committee", current_sync_committee), ("next_sync_committee", next_sync_committee), ("latest_execution_payload_header", latest_execution_payload_header), ("next_withdrawal_index", next_withdrawal_index), ("next_withdrawal_validator_index", next_withdrawal_validator_index), ("historical_summaries", historical_summaries)]);
        o["owned_mut"] = view!(x, [("phase0", phase0_mut), ("altair", altair_mut), ("bellatrix", bellatrix_mut), ("capella", capella_mut), ("deneb", deneb_mut)], [("genesis_time", genesis_time_mut), ("genesis_validators_root", genesis_validators_root_mut), ("slot", slot_mut), ("fork", fork_mut), ("latest_block_header", latest_block_header_mut), ("block_roots", block_roots_mut), ("state_roots", state_roots_mut), ("historical_roots", historical_roots_mut), ("eth1_data", eth1_data_mut), ("eth1_data_votes", eth1_data_votes_mut), ("eth1_deposit_index", eth1_deposit_index_mut), ("validators", validators_mut), ("balances", balances_mut), ("randao_mixes", randao_mixes_mut), ("slashings", slashings_mut), ("previous_epoch_attestations", previous_epoch_attestations_mut), ("current_epoch_attestations", current_epoch_attestations_mut), ("justification_bits", justification_bits_mut), ("previous_justified_checkpoint", previous_justified_checkpoint_mut), ("current_justified_checkpoint", current_justified_checkpoint_mut), ("finalized_checkpoint", finalized_checkpoint_mut), ("previous_epoch_participation", previous_epoch_participation_mut), ("current_epoch_participation", current_epoch_participation_mut), ("inactivity_scores", inactivity_scores_mut), ("current_sync_committee", current_sync_committee_mut), ("next_sync_committee", next_sync_committee_mut), ("latest_execution_payload_header", latest_execution_payload_header_mut), ("next_withdrawal_index", next_withdrawal_index_mut), ("next_withdrawal_validator_index", next_withdrawal_validator_index_mut), ("historical_summaries", historical_summaries_mut)]);
        let r = match &x { types::mainnet::BeaconState::Phase0(i) => types::BeaconStateRef::from(&*i), types::mainnet::BeaconState::Altair(i) => types::BeaconStateRef::from(&*i), types::mainnet::BeaconState::Bellatrix(i) => types::BeaconStateRef::from(&*i), types::mainnet::BeaconState::Capella(i) => types::BeaconStateRef::from(&*i), types::mainnet::BeaconState::Deneb(i) => types::BeaconStateRef::from(&*i), };
        o["ref"] = view!(r, [("phase0", phase0), ("altair", altair), ("bellatrix", bellatrix), ("capella", capella), ("deneb", deneb)], [("genesis_time", genesis_time), ("genesis_validators_root", genesis_validators_root), ("slot", slot), ("fork", fork), ("latest_block_header", latest_block_header), ("block_roots", block_roots), ("state_roots", state_roots), ("historical_roots", historical_roots), ("eth1_data", eth1_data), ("eth1_data_votes", eth1_data_votes), ("eth1_deposit_index", eth1_deposit_index), ("validators", validators), ("balances", balances), ("randao_mixes", randao_mixes), ("slashings", slashings), ("previous_epoch_attestations", previous_epoch_attestations), ("current_epoch_attestations", current_epoch_attestations), ("justification_bits", justification_bits), ("previous_justified_checkpoint", previous_justified_checkpoint), ("current_justified_checkpoint", current_justified_checkpoint), ("finalized_checkpoint", finalized_checkpoint), ("previous_epoch_participation", previous_epoch_participation), ("current_epoch_participation", current_epoch_participation), ("inactivity_scores", inactivity_scores), ("current_sync_committee", current_sync_committee), ("next_sync_committee", next_sync_committee), ("latest_execution_payload_header", latest_execution_payload_header), ("next_withdrawal_index", next_withdrawal_index), ("next_withdrawal_validator_index", next_withdrawal_validator_index), ("historical_summaries", historical_summaries)]);
        let mut r = match &mut x { types::mainnet::BeaconState::Phase0(i) => types::BeaconStateRefMut::from(i), types::mainnet::BeaconState::Altair(i) => types::BeaconStateRefMut::from(i), types::mainnet::BeaconState::Bellatrix(i) => types::BeaconStateRefMut::from(i), types::mainnet::BeaconState::Capella(i) => types::BeaconStateRefMut::from(i), types::mainnet::BeaconState::Deneb(i) => types::BeaconStateRefMut::from(i), };
        o["refmut"] = view!(r, [("phase0", phase0), ("altair", altair), ("bellatrix", bellatrix), ("capella", capella), ("deneb", deneb)], [("genesis_time", genesis_time), ("genesis_validators_root", genesis_validators_root), ("slot", slot), ("fork", fork), ("latest_block_header", latest_block_header), ("block_roots", block_roots), ("state_roots", state_roots), ("historical_roots", historical_roots), ("eth1_data", eth1_data), ("eth1_data_votes", eth1_data_votes), ("eth1_deposit_index", eth1_deposit_index), ("validators", validators), ("balances", balances), ("randao_mixes", randao_mixes), ("slashings", slashings), ("previous_epoch_attestations", previous_epoch_attestations), ("current_epoch_attestations", current_epoch_attestations), ("justification_bits", justification_bits), ("previous_justified_checkpoint", previous_justified_checkpoint), ("current_justified_checkpoint", current_justified_checkpoint), ("finalized_checkpoint", finalized_checkpoint), ("previous_epoch_participation", previous_epoch_participation), ("current_epoch_participation", current_epoch_participation), ("inactivity_scores", inactivity_scores), ("current_sync_committee", current_sync_committee), ("next_sync_committee", next_sync_committee), ("latest_execution_payload_header", latest_execution_payload_header), ("next_withdrawal_index", next_withdrawal_index), ("next_withdrawal_validator_index", next_withdrawal_validator_index), ("historical_summaries", historical_summaries)]);
        o["refmut_mut"] = view!(r, [("phase0", phase0_mut), ("altair", altair_mut), ("bellatrix", bellatrix_mut), ("capella", capella_mut), ("deneb", deneb_mut)], [("genesis_time", genesis_time_mut), ("genesis_validators_root", genesis_validators_root_mut), ("slot", slot_mut), ("fork", fork_mut), ("latest_block_header", latest_block_header_mut), ("block_roots", block_roots_mut), ("state_roots", state_roots_mut), ("historical_roots", historical_roots_mut), ("eth1_data", eth1_data_mut), ("eth1_data_votes", eth1_data_votes_mut), ("eth1_deposit_index", eth1_deposit_index_mut), ("validators", validators_mut), ("balances", balances_mut), ("randao_mixes", randao_mixes_mut), ("slashings", slashings_mut), ("previous_epoch_attestations", previous_epoch_attestations_mut), ("current_epoch_attestations", current_epoch_attestations_mut), ("justification_bits", justification_bits_mut), ("previous_justified_checkpoint", previous_justified_checkpoint_mut), ("current_justified_checkpoint", current_justified_checkpoint_mut), ("finalized_checkpoint", finalized_checkpoint_mut), ("previous_epoch_participation", previous_epoch_participation_mut), ("current_epoch_participation", current_epoch_participation_mut), ("inactivity_scores", inactivity_scores_mut), ("current_sync_committee", current_sync_committee_mut), ("next_sync_committee", next_sync_committee_mut), ("latest_execution_payload_header", latest_execution_payload_header_mut), ("next_withdrawal_index", next_withdrawal_index_mut), ("next_withdrawal_validator_index", next_withdrawal_validator_index_mut), ("historical_summaries", historical_summaries_mut)]);
        o
    }
    pub fn beacon_block_body(v: &Value) -> Value {
        let Ok(mut x) = serde_json::from_str::<types::mainnet::BeaconBlockBody>(&v.to_string()) else { return "rejected".into() };
        let b = serialize(&x).expect("serializes");
        let back = types::mainnet::BeaconBlockBody::deserialize(&b).map(|y| y == x && y.version() == x.version()).unwrap_or(false);
        let mut o = json!({"version": fork(x.version()), "ssz": short(&b), "root": root(&x), "ssz_back": back,
            "json_back": &serde_json::to_value(&x).unwrap() == v});
        o["owned"] = view!(x, [("phase0", phase0), ("altair", altair), ("bellatrix", bellatrix), ("capella", capella), ("deneb", deneb)], [("randao_reveal", randao_reveal), ("eth1_data", eth1_data), ("graffiti", graffiti), ("proposer_slashings", proposer_slashings), ("attester_slashings", attester_slashings), ("attestations", attestations), ("deposits", deposits), ("voluntary_exits", voluntary_exits), ("sync_aggregate", sync_aggregate), ("execution_payload", execution_payload), ("bls_to_execution_changes", bls_to_execution_changes), ("blob_kzg_commitments", blob_kzg_commitments)]);
        o["owned_mut"] = view!(x, [("phase0", phase0_mut), ("altair", altair_mut), ("bellatrix", bellatrix_mut), ("capella", capella_mut), ("deneb", deneb_mut)], [("randao_reveal", randao_reveal_mut), ("eth1_data", eth1_data_mut), ("graffiti", graffiti_mut), ("proposer_slashings", proposer_slashings_mut), ("attester_slashings", attester_slashings_mut), ("attestations", attestations_mut), ("deposits", deposits_mut), ("voluntary_exits", voluntary_exits_mut), ("sync_aggregate", sync_aggregate_mut), ("execution_payload", execution_payload_mut), ("bls_to_execution_changes", bls_to_execution_changes_mut), ("blob_kzg_commitments", blob_kzg_commitments_mut)]);
        let r = match &x { types::mainnet::BeaconBlockBody::Phase0(i) => types::BeaconBlockBodyRef::from(&*i), types::mainnet::BeaconBlockBody::Altair(i) => types::BeaconBlockBodyRef::from(&*i), types::mainnet::BeaconBlockBody::Bellatrix(i) => types::BeaconBlockBodyRef::from(&*i), types::mainnet::BeaconBlockBody::Capella(i) => types::BeaconBlockBodyRef::from(&*i), types::mainnet::BeaconBlockBody::Deneb(i) => types::BeaconBlockBodyRef::from(&*i), };
        o["ref"] = view!(r, [("phase0", phase0), ("altair", altair), ("bellatrix", bellatrix), ("capella", capella), ("deneb", deneb)], [("randao_reveal", randao_reveal), ("eth1_data", eth1_data), ("graffiti", graffiti), ("proposer_slashings", proposer_slashings), ("attester_slashings", attester_slashings), ("attestations", attestations), ("deposits", deposits), ("voluntary_exits", voluntary_exits), ("sync_aggregate", sync_aggregate), ("execution_payload", execution_payload), ("bls_to_execution_changes", bls_to_execution_changes), ("blob_kzg_commitments", blob_kzg_commitments)]);
        let mut r = match &mut x { types::mainnet::BeaconBlockBody::Phase0(i) => types::BeaconBlockBodyRefMut::from(i), types::mainnet::BeaconBlockBody::Altair(i) => types::BeaconBlockBodyRefMut::from(i), types::mainnet::BeaconBlockBody::Bellatrix(i) => types::BeaconBlockBodyRefMut::from(i), types::mainnet::BeaconBlockBody::Capella(i) => types::BeaconBlockBodyRefMut::from(i), types::mainnet::BeaconBlockBody::Deneb(i) => types::BeaconBlockBodyRefMut::from(i), };
        o["refmut"] = view!(r, [("phase0", phase0), ("altair", altair), ("bellatrix", bellatrix), ("capella", capella), ("deneb", deneb)], [("randao_reveal", randao_reveal), ("eth1_data", eth1_data), ("graffiti", graffiti), ("proposer_slashings", proposer_slashings), ("attester_slashings", attester_slashings), ("attestations", attestations), ("deposits", deposits), ("voluntary_exits", voluntary_exits), ("sync_aggregate", sync_aggregate), ("execution_payload", execution_payload), ("bls_to_execution_changes", bls_to_execution_changes), ("blob_kzg_commitments", blob_kzg_commitments)]);
        o["refmut_mut"] = view!(r, [("phase0", phase0_mut), ("altair", altair_mut), ("bellatrix", bellatrix_mut), ("capella", capella_mut), ("deneb", deneb_mut)], [("randao_reveal", randao_reveal_mut), ("eth1_data", eth1_data_mut), ("graffiti", graffiti_mut), ("proposer_slashings", proposer_slashings_mut), ("attester_slashings", attester_slashings_mut), ("attestations", attestations_mut), ("deposits", deposits_mut), ("voluntary_exits", voluntary_exits_mut), ("sync_aggregate", sync_aggregate_mut), ("execution_payload", execution_payload_mut), ("bls_to_execution_changes", bls_to_execution_changes_mut), ("blob_kzg_commitments", blob_kzg_commitments_mut)]);
        o
    }
    pub fn beacon_block(v: &Value) -> Value {
        let Ok(mut x) = serde_json::from_str::<types::mainnet::BeaconBlock>(&v.to_string()) else { return "rejected".into() };
        let b = serialize(&x).expect("serializes");
        let back = types::mainnet::BeaconBlock::deserialize(&b).map(|y| y == x && y.version() == x.version()).unwrap_or(false);
        let mut o = json!({"version": fork(x.version()), "ssz": short(&b), "root": root(&x), "ssz_back": back,
            "json_back": &serde_json::to_value(&x).unwrap() == v});
        o["owned"] = view!(x, [("phase0", phase0), ("altair", altair), ("bellatrix", bellatrix), ("capella", capella), ("deneb", deneb)], [("slot", slot), ("proposer_index", proposer_index), ("parent_root", parent_root), ("state_root", state_root), ("body", body)]);
        o["owned_mut"] = view!(x, [("phase0", phase0_mut), ("altair", altair_mut), ("bellatrix", bellatrix_mut), ("capella", capella_mut), ("deneb", deneb_mut)], [("slot", slot_mut), ("proposer_index", proposer_index_mut), ("parent_root", parent_root_mut), ("state_root", state_root_mut), ("body", body_mut)]);
        let r = match &x { types::mainnet::BeaconBlock::Phase0(i) => types::BeaconBlockRef::from(&*i), types::mainnet::BeaconBlock::Altair(i) => types::BeaconBlockRef::from(&*i), types::mainnet::BeaconBlock::Bellatrix(i) => types::BeaconBlockRef::from(&*i), types::mainnet::BeaconBlock::Capella(i) => types::BeaconBlockRef::from(&*i), types::mainnet::BeaconBlock::Deneb(i) => types::BeaconBlockRef::from(&*i), };
        o["ref"] = view!(r, [("phase0", phase0), ("altair", altair), ("bellatrix", bellatrix), ("capella", capella), ("deneb", deneb)], [("slot", slot), ("proposer_index", proposer_index), ("parent_root", parent_root), ("state_root", state_root), ("body", body)]);
        let mut r = match &mut x { types::mainnet::BeaconBlock::Phase0(i) => types::BeaconBlockRefMut::from(i), types::mainnet::BeaconBlock::Altair(i) => types::BeaconBlockRefMut::from(i), types::mainnet::BeaconBlock::Bellatrix(i) => types::BeaconBlockRefMut::from(i), types::mainnet::BeaconBlock::Capella(i) => types::BeaconBlockRefMut::from(i), types::mainnet::BeaconBlock::Deneb(i) => types::BeaconBlockRefMut::from(i), };
        o["refmut"] = view!(r, [("phase0", phase0), ("altair", altair), ("bellatrix", bellatrix), ("capella", capella), ("deneb", deneb)], [("slot", slot), ("proposer_index", proposer_index), ("parent_root", parent_root), ("state_root", state_root), ("body", body)]);
        o["refmut_mut"] = view!(r, [("phase0", phase0_mut), ("altair", altair_mut), ("bellatrix", bellatrix_mut), ("capella", capella_mut), ("deneb", deneb_mut)], [("slot", slot_mut), ("proposer_index", proposer_index_mut), ("parent_root", parent_root_mut), ("state_root", state_root_mut), ("body", body_mut)]);
        o
    }
    pub fn signed_beacon_block(v: &Value) -> Value {
        let Ok(mut x) = serde_json::from_str::<types::mainnet::SignedBeaconBlock>(&v.to_string()) else { return "rejected".into() };
        let b = serialize(&x).expect("serializes");
        let back = types::mainnet::SignedBeaconBlock::deserialize(&b).map(|y| y == x && y.version() == x.version()).unwrap_or(false);
        let mut o = json!({"version": fork(x.version()), "ssz": short(&b), "root": root(&x), "ssz_back": back,
            "json_back": &serde_json::to_value(&x).unwrap() == v});
        o["owned"] = view!(x, [("phase0", phase0), ("altair", altair), ("bellatrix", bellatrix), ("capella", capella), ("deneb", deneb)], [("message", message), ("signature", signature)]);
        o["owned_mut"] = view!(x, [("phase0", phase0_mut), ("altair", altair_mut), ("bellatrix", bellatrix_mut), ("capella", capella_mut), ("deneb", deneb_mut)], [("message", message_mut), ("signature", signature_mut)]);
        o
    }
    pub fn blinded_beacon_block_body(v: &Value) -> Value {
        let Ok(mut x) = serde_json::from_str::<types::mainnet::BlindedBeaconBlockBody>(&v.to_string()) else { return "rejected".into() };
        let b = serialize(&x).expect("serializes");
        let back = types::mainnet::BlindedBeaconBlockBody::deserialize(&b).map(|y| y == x && y.version() == x.version()).unwrap_or(false);
        let mut o = json!({"version": fork(x.version()), "ssz": short(&b), "root": root(&x), "ssz_back": back,
            "json_back": &serde_json::to_value(&x).unwrap() == v});
        o["owned"] = view!(x, [("bellatrix", bellatrix), ("capella", capella), ("deneb", deneb)], [("randao_reveal", randao_reveal), ("eth1_data", eth1_data), ("graffiti", graffiti), ("proposer_slashings", proposer_slashings), ("attester_slashings", attester_slashings), ("attestations", attestations), ("deposits", deposits), ("voluntary_exits", voluntary_exits), ("sync_aggregate", sync_aggregate), ("execution_payload_header", execution_payload_header), ("bls_to_execution_changes", bls_to_execution_changes), ("blob_kzg_commitments", blob_kzg_commitments)]);
        o["owned_mut"] = view!(x, [("bellatrix", bellatrix_mut), ("capella", capella_mut), ("deneb", deneb_mut)], [("randao_reveal", randao_reveal_mut), ("eth1_data", eth1_data_mut), ("graffiti", graffiti_mut), ("proposer_slashings", proposer_slashings_mut), ("attester_slashings", attester_slashings_mut), ("attestations", attestations_mut), ("deposits", deposits_mut), ("voluntary_exits", voluntary_exits_mut), ("sync_aggregate", sync_aggregate_mut), ("execution_payload_header", execution_payload_header_mut), ("bls_to_execution_changes", bls_to_execution_changes_mut), ("blob_kzg_commitments", blob_kzg_commitments_mut)]);
        let r = match &x { types::mainnet::BlindedBeaconBlockBody::Bellatrix(i) => types::BlindedBeaconBlockBodyRef::from(&*i), types::mainnet::BlindedBeaconBlockBody::Capella(i) => types::BlindedBeaconBlockBodyRef::from(&*i), types::mainnet::BlindedBeaconBlockBody::Deneb(i) => types::BlindedBeaconBlockBodyRef::from(&*i), };
        o["ref"] = view!(r, [("bellatrix", bellatrix), ("capella", capella), ("deneb", deneb)], [("randao_reveal", randao_reveal), ("eth1_data", eth1_data), ("graffiti", graffiti), ("proposer_slashings", proposer_slashings), ("attester_slashings", attester_slashings), ("attestations", attestations), ("deposits", deposits), ("voluntary_exits", voluntary_exits), ("sync_aggregate", sync_aggregate), ("execution_payload_header", execution_payload_header), ("bls_to_execution_changes", bls_to_execution_changes), ("blob_kzg_commitments", blob_kzg_commitments)]);
        let mut r = match &mut x { types::mainnet::BlindedBeaconBlockBody::Bellatrix(i) => types::BlindedBeaconBlockBodyRefMut::from(i), types::mainnet::BlindedBeaconBlockBody::Capella(i) => types::BlindedBeaconBlockBodyRefMut::from(i), types::mainnet::BlindedBeaconBlockBody::Deneb(i) => types::BlindedBeaconBlockBodyRefMut::from(i), };
        o["refmut"] = view!(r, [("bellatrix", bellatrix), ("capella", capella), ("deneb", deneb)], [("randao_reveal", randao_reveal), ("eth1_data", eth1_data), ("graffiti", graffiti), ("proposer_slashings", proposer_slashings), ("attester_slashings", attester_slashings), ("attestations", attestations), ("deposits", deposits), ("voluntary_exits", voluntary_exits), ("sync_aggregate", sync_aggregate), ("execution_payload_header", execution_payload_header), ("bls_to_execution_changes", bls_to_execution_changes), ("blob_kzg_commitments", blob_kzg_commitments)]);
        o["refmut_mut"] = view!(r, [("bellatrix", bellatrix_mut), ("capella", capella_mut), ("deneb", deneb_mut)], [("randao_reveal", randao_reveal_mut), ("eth1_data", eth1_data_mut), ("graffiti", graffiti_mut), ("proposer_slashings", proposer_slashings_mut), ("attester_slashings", attester_slashings_mut), ("attestations", attestations_mut), ("deposits", deposits_mut), ("voluntary_exits", voluntary_exits_mut), ("sync_aggregate", sync_aggregate_mut), ("execution_payload_header", execution_payload_header_mut), ("bls_to_execution_changes", bls_to_execution_changes_mut), ("blob_kzg_commitments", blob_kzg_commitments_mut)]);
        o
    }
    pub fn blinded_beacon_block(v: &Value) -> Value {
        let Ok(mut x) = serde_json::from_str::<types::mainnet::BlindedBeaconBlock>(&v.to_string()) else { return "rejected".into() };
        let b = serialize(&x).expect("serializes");
        let back = types::mainnet::BlindedBeaconBlock::deserialize(&b).map(|y| y == x && y.version() == x.version()).unwrap_or(false);
        let mut o = json!({"version": fork(x.version()), "ssz": short(&b), "root": root(&x), "ssz_back": back,
            "json_back": &serde_json::to_value(&x).unwrap() == v});
        o["owned"] = view!(x, [("bellatrix", bellatrix), ("capella", capella), ("deneb", deneb)], [("slot", slot), ("proposer_index", proposer_index), ("parent_root", parent_root), ("state_root", state_root), ("body", body)]);
        o["owned_mut"] = view!(x, [("bellatrix", bellatrix_mut), ("capella", capella_mut), ("deneb", deneb_mut)], [("slot", slot_mut), ("proposer_index", proposer_index_mut), ("parent_root", parent_root_mut), ("state_root", state_root_mut), ("body", body_mut)]);
        let r = match &x { types::mainnet::BlindedBeaconBlock::Bellatrix(i) => types::BlindedBeaconBlockRef::from(&*i), types::mainnet::BlindedBeaconBlock::Capella(i) => types::BlindedBeaconBlockRef::from(&*i), types::mainnet::BlindedBeaconBlock::Deneb(i) => types::BlindedBeaconBlockRef::from(&*i), };
        o["ref"] = view!(r, [("bellatrix", bellatrix), ("capella", capella), ("deneb", deneb)], [("slot", slot), ("proposer_index", proposer_index), ("parent_root", parent_root), ("state_root", state_root), ("body", body)]);
        let mut r = match &mut x { types::mainnet::BlindedBeaconBlock::Bellatrix(i) => types::BlindedBeaconBlockRefMut::from(i), types::mainnet::BlindedBeaconBlock::Capella(i) => types::BlindedBeaconBlockRefMut::from(i), types::mainnet::BlindedBeaconBlock::Deneb(i) => types::BlindedBeaconBlockRefMut::from(i), };
        o["refmut"] = view!(r, [("bellatrix", bellatrix), ("capella", capella), ("deneb", deneb)], [("slot", slot), ("proposer_index", proposer_index), ("parent_root", parent_root), ("state_root", state_root), ("body", body)]);
        o["refmut_mut"] = view!(r, [("bellatrix", bellatrix_mut), ("capella", capella_mut), ("deneb", deneb_mut)], [("slot", slot_mut), ("proposer_index", proposer_index_mut), ("parent_root", parent_root_mut), ("state_root", state_root_mut), ("body", body_mut)]);
        o
    }
    pub fn signed_blinded_beacon_block(v: &Value) -> Value {
        let Ok(mut x) = serde_json::from_str::<types::mainnet::SignedBlindedBeaconBlock>(&v.to_string()) else { return "rejected".into() };
        let b = serialize(&x).expect("serializes");
        let back = types::mainnet::SignedBlindedBeaconBlock::deserialize(&b).map(|y| y == x && y.version() == x.version()).unwrap_or(false);
        let mut o = json!({"version": fork(x.version()), "ssz": short(&b), "root": root(&x), "ssz_back": back,
            "json_back": &serde_json::to_value(&x).unwrap() == v});
        o["owned"] = view!(x, [("bellatrix", bellatrix), ("capella", capella), ("deneb", deneb)], [("message", message), ("signature", signature)]);
        o["owned_mut"] = view!(x, [("bellatrix", bellatrix_mut), ("capella", capella_mut), ("deneb", deneb_mut)], [("message", message_mut), ("signature", signature_mut)]);
        o
    }
    pub fn execution_payload(v: &Value) -> Value {
        let Ok(mut x) = serde_json::from_str::<types::mainnet::ExecutionPayload>(&v.to_string()) else { return "rejected".into() };
        let b = serialize(&x).expect("serializes");
        let back = types::mainnet::ExecutionPayload::deserialize(&b).map(|y| y == x && y.version() == x.version()).unwrap_or(false);
        let mut o = json!({"version": fork(x.version()), "ssz": short(&b), "root": root(&x), "ssz_back": back,
            "json_back": &serde_json::to_value(&x).unwrap() == v});
        o["owned"] = view!(x, [("bellatrix", bellatrix), ("capella", capella), ("deneb", deneb)], [("parent_hash", parent_hash), ("fee_recipient", fee_recipient), ("state_root", state_root), ("receipts_root", receipts_root), ("logs_bloom", logs_bloom), ("prev_randao", prev_randao), ("block_number", block_number), ("gas_limit", gas_limit), ("gas_used", gas_used), ("timestamp", timestamp), ("extra_data", extra_data), ("base_fee_per_gas", base_fee_per_gas), ("block_hash", block_hash), ("transactions", transactions), ("withdrawals", withdrawals), ("blob_gas_used", blob_gas_used), ("excess_blob_gas", excess_blob_gas)]);
        o["owned_mut"] = view!(x, [("bellatrix", bellatrix_mut), ("capella", capella_mut), ("deneb", deneb_mut)], [("parent_hash", parent_hash_mut), ("fee_recipient", fee_recipient_mut), ("state_root", state_root_mut), ("receipts_root", receipts_root_mut), ("logs_bloom", logs_bloom_mut), ("prev_randao", prev_randao_mut), ("block_number", block_number_mut), ("gas_limit", gas_limit_mut), ("gas_used", gas_used_mut), ("timestamp", timestamp_mut), ("extra_data", extra_data_mut), ("base_fee_per_gas", base_fee_per_gas_mut), ("block_hash", block_hash_mut), ("transactions", transactions_mut), ("withdrawals", withdrawals_mut), ("blob_gas_used", blob_gas_used_mut), ("excess_blob_gas", excess_blob_gas_mut)]);
        let r = match &x { types::mainnet::ExecutionPayload::Bellatrix(i) => types::ExecutionPayloadRef::from(&*i), types::mainnet::ExecutionPayload::Capella(i) => types::ExecutionPayloadRef::from(&*i), types::mainnet::ExecutionPayload::Deneb(i) => types::ExecutionPayloadRef::from(&*i), };
        o["ref"] = view!(r, [("bellatrix", bellatrix), ("capella", capella), ("deneb", deneb)], [("parent_hash", parent_hash), ("fee_recipient", fee_recipient), ("state_root", state_root), ("receipts_root", receipts_root), ("logs_bloom", logs_bloom), ("prev_randao", prev_randao), ("block_number", block_number), ("gas_limit", gas_limit), ("gas_used", gas_used), ("timestamp", timestamp), ("extra_data", extra_data), ("base_fee_per_gas", base_fee_per_gas), ("block_hash", block_hash), ("transactions", transactions), ("withdrawals", withdrawals), ("blob_gas_used", blob_gas_used), ("excess_blob_gas", excess_blob_gas)]);
        let mut r = match &mut x { types::mainnet::ExecutionPayload::Bellatrix(i) => types::ExecutionPayloadRefMut::from(i), types::mainnet::ExecutionPayload::Capella(i) => types::ExecutionPayloadRefMut::from(i), types::mainnet::ExecutionPayload::Deneb(i) => types::ExecutionPayloadRefMut::from(i), };
        o["refmut"] = view!(r, [("bellatrix", bellatrix), ("capella", capella), ("deneb", deneb)], [("parent_hash", parent_hash), ("fee_recipient", fee_recipient), ("state_root", state_root), ("receipts_root", receipts_root), ("logs_bloom", logs_bloom), ("prev_randao", prev_randao), ("block_number", block_number), ("gas_limit", gas_limit), ("gas_used", gas_used), ("timestamp", timestamp), ("extra_data", extra_data), ("base_fee_per_gas", base_fee_per_gas), ("block_hash", block_hash), ("transactions", transactions), ("withdrawals", withdrawals), ("blob_gas_used", blob_gas_used), ("excess_blob_gas", excess_blob_gas)]);
        o["refmut_mut"] = view!(r, [("bellatrix", bellatrix_mut), ("capella", capella_mut), ("deneb", deneb_mut)], [("parent_hash", parent_hash_mut), ("fee_recipient", fee_recipient_mut), ("state_root", state_root_mut), ("receipts_root", receipts_root_mut), ("logs_bloom", logs_bloom_mut), ("prev_randao", prev_randao_mut), ("block_number", block_number_mut), ("gas_limit", gas_limit_mut), ("gas_used", gas_used_mut), ("timestamp", timestamp_mut), ("extra_data", extra_data_mut), ("base_fee_per_gas", base_fee_per_gas_mut), ("block_hash", block_hash_mut), ("transactions", transactions_mut), ("withdrawals", withdrawals_mut), ("blob_gas_used", blob_gas_used_mut), ("excess_blob_gas", excess_blob_gas_mut)]);
        o
    }
    pub fn execution_payload_header(v: &Value) -> Value {
        let Ok(mut x) = serde_json::from_str::<types::mainnet::ExecutionPayloadHeader>(&v.to_string()) else { return "rejected".into() };
        let b = serialize(&x).expect("serializes");
        let back = types::mainnet::ExecutionPayloadHeader::deserialize(&b).map(|y| y == x && y.version() == x.version()).unwrap_or(false);
        let mut o = json!({"version": fork(x.version()), "ssz": short(&b), "root": root(&x), "ssz_back": back,
            "json_back": &serde_json::to_value(&x).unwrap() == v});
        o["owned"] = view!(x, [("bellatrix", bellatrix), ("capella", capella), ("deneb", deneb)], [("parent_hash", parent_hash), ("fee_recipient", fee_recipient), ("state_root", state_root), ("receipts_root", receipts_root), ("logs_bloom", logs_bloom), ("prev_randao", prev_randao), ("block_number", block_number), ("gas_limit", gas_limit), ("gas_used", gas_used), ("timestamp", timestamp), ("extra_data", extra_data), ("base_fee_per_gas", base_fee_per_gas), ("block_hash", block_hash), ("transactions_root", transactions_root), ("withdrawals_root", withdrawals_root), ("blob_gas_used", blob_gas_used), ("excess_blob_gas", excess_blob_gas)]);
        o["owned_mut"] = view!(x, [("bellatrix", bellatrix_mut), ("capella", capella_mut), ("deneb", deneb_mut)], [("parent_hash", parent_hash_mut), ("fee_recipient", fee_recipient_mut), ("state_root", state_root_mut), ("receipts_root", receipts_root_mut), ("logs_bloom", logs_bloom_mut), ("prev_randao", prev_randao_mut), ("block_number", block_number_mut), ("gas_limit", gas_limit_mut), ("gas_used", gas_used_mut), ("timestamp", timestamp_mut), ("extra_data", extra_data_mut), ("base_fee_per_gas", base_fee_per_gas_mut), ("block_hash", block_hash_mut), ("transactions_root", transactions_root_mut), ("withdrawals_root", withdrawals_root_mut), ("blob_gas_used", blob_gas_used_mut), ("excess_blob_gas", excess_blob_gas_mut)]);
        let r = match &x { types::mainnet::ExecutionPayloadHeader::Bellatrix(i) => types::ExecutionPayloadHeaderRef::from(&*i), types::mainnet::ExecutionPayloadHeader::Capella(i) => types::ExecutionPayloadHeaderRef::from(&*i), types::mainnet::ExecutionPayloadHeader::Deneb(i) => types::ExecutionPayloadHeaderRef::from(&*i), };
        o["ref"] = view!(r, [("bellatrix", bellatrix), ("capella", capella), ("deneb", deneb)], [("parent_hash", parent_hash), ("fee_recipient", fee_recipient), ("state_root", state_root), ("receipts_root", receipts_root), ("logs_bloom", logs_bloom), ("prev_randao", prev_randao), ("block_number", block_number), ("gas_limit", gas_limit), ("gas_used", gas_used), ("timestamp", timestamp), ("extra_data", extra_data), ("base_fee_per_gas", base_fee_per_gas), ("block_hash", block_hash), ("transactions_root", transactions_root), ("withdrawals_root", withdrawals_root), ("blob_gas_used", blob_gas_used), ("excess_blob_gas", excess_blob_gas)]);
        let mut r = match &mut x { types::mainnet::ExecutionPayloadHeader::Bellatrix(i) => types::ExecutionPayloadHeaderRefMut::from(i), types::mainnet::ExecutionPayloadHeader::Capella(i) => types::ExecutionPayloadHeaderRefMut::from(i), types::mainnet::ExecutionPayloadHeader::Deneb(i) => types::ExecutionPayloadHeaderRefMut::from(i), };
        o["refmut"] = view!(r, [("bellatrix", bellatrix), ("capella", capella), ("deneb", deneb)], [("parent_hash", parent_hash), ("fee_recipient", fee_recipient), ("state_root", state_root), ("receipts_root", receipts_root), ("logs_bloom", logs_bloom), ("prev_randao", prev_randao), ("block_number", block_number), ("gas_limit", gas_limit), ("gas_used", gas_used), ("timestamp", timestamp), ("extra_data", extra_data), ("base_fee_per_gas", base_fee_per_gas), ("block_hash", block_hash), ("transactions_root", transactions_root), ("withdrawals_root", withdrawals_root), ("blob_gas_used", blob_gas_used), ("excess_blob_gas", excess_blob_gas)]);
        o["refmut_mut"] = view!(r, [("bellatrix", bellatrix_mut), ("capella", capella_mut), ("deneb", deneb_mut)], [("parent_hash", parent_hash_mut), ("fee_recipient", fee_recipient_mut), ("state_root", state_root_mut), ("receipts_root", receipts_root_mut), ("logs_bloom", logs_bloom_mut), ("prev_randao", prev_randao_mut), ("block_number", block_number_mut), ("gas_limit", gas_limit_mut), ("gas_used", gas_used_mut), ("timestamp", timestamp_mut), ("extra_data", extra_data_mut), ("base_fee_per_gas", base_fee_per_gas_mut), ("block_hash", block_hash_mut), ("transactions_root", transactions_root_mut), ("withdrawals_root", withdrawals_root_mut), ("blob_gas_used", blob_gas_used_mut), ("excess_blob_gas", excess_blob_gas_mut)]);
        o
    }
    pub fn run(name: &str, v: &Value) -> Value {
        match name {
            "BeaconState" => beacon_state(v),
            "BeaconBlockBody" => beacon_block_body(v),
            "BeaconBlock" => beacon_block(v),
            "SignedBeaconBlock" => signed_beacon_block(v),
            "BlindedBeaconBlockBody" => blinded_beacon_block_body(v),
            "BlindedBeaconBlock" => blinded_beacon_block(v),
            "SignedBlindedBeaconBlock" => signed_blinded_beacon_block(v),
            "ExecutionPayload" => execution_payload(v),
            "ExecutionPayloadHeader" => execution_payload_header(v),
            _ => panic!("harness: no type {name}"),
        }
    }
}

pub mod minimal {
    use super::*;
    pub fn beacon_state(v: &Value) -> Value {
        let Ok(mut x) = serde_json::from_str::<types::minimal::BeaconState>(&v.to_string()) else { return "rejected".into() };
        let b = serialize(&x).expect("serializes");
        let back = types::minimal::BeaconState::deserialize(&b).map(|y| y == x && y.version() == x.version()).unwrap_or(false);
        let mut o = json!({"version": fork(x.version()), "ssz": short(&b), "root": root(&x), "ssz_back": back,
            "json_back": &serde_json::to_value(&x).unwrap() == v});
        o["owned"] = view!(x, [("phase0", phase0), ("altair", altair), ("bellatrix", bellatrix), ("capella", capella), ("deneb", deneb)], [("genesis_time", genesis_time), ("genesis_validators_root", genesis_validators_root), ("slot", slot), ("fork", fork), ("latest_block_header", latest_block_header), ("block_roots", block_roots), ("state_roots", state_roots), ("historical_roots", historical_roots), ("eth1_data", eth1_data), ("eth1_data_votes", eth1_data_votes), ("eth1_deposit_index", eth1_deposit_index), ("validators", validators), ("balances", balances), ("randao_mixes", randao_mixes), ("slashings", slashings), ("previous_epoch_attestations", previous_epoch_attestations), ("current_epoch_attestations", current_epoch_attestations), ("justification_bits", justification_bits), ("previous_justified_checkpoint", previous_justified_checkpoint), ("current_justified_checkpoint", current_justified_checkpoint), ("finalized_checkpoint", finalized_checkpoint), ("previous_epoch_participation", previous_epoch_participation), ("current_epoch_participation", current_epoch_participation), ("inactivity_scores", inactivity_scores), ("current_sync_committee", current_sync_committee), ("next_sync_committee", next_sync_committee), ("latest_execution_payload_header", latest_execution_payload_header), ("next_withdrawal_index", next_withdrawal_index), ("next_withdrawal_validator_index", next_withdrawal_validator_index), ("historical_summaries", historical_summaries)]);
        o["owned_mut"] = view!(x, [("phase0", phase0_mut), ("altair", altair_mut), ("bellatrix", bellatrix_mut), ("capella", capella_mut), ("deneb", deneb_mut)], [("genesis_time", genesis_time_mut), ("genesis_validators_root", genesis_validators_root_mut), ("slot", slot_mut), ("fork", fork_mut), ("latest_block_header", latest_block_header_mut), ("block_roots", block_roots_mut), ("state_roots", state_roots_mut), ("historical_roots", historical_roots_mut), ("eth1_data", eth1_data_mut), ("eth1_data_votes", eth1_data_votes_mut), ("eth1_deposit_index", eth1_deposit_index_mut), ("validators", validators_mut), ("balances", balances_mut), ("randao_mixes", randao_mixes_mut), ("slashings", slashings_mut), ("previous_epoch_attestations", previous_epoch_attestations_mut), ("current_epoch_attestations", current_epoch_attestations_mut), ("justification_bits", justification_bits_mut), ("previous_justified_checkpoint", previous_justified_checkpoint_mut), ("current_justified_checkpoint", current_justified_checkpoint_mut), ("finalized_checkpoint", finalized_checkpoint_mut), ("previous_epoch_participation", previous_epoch_participation_mut), ("current_epoch_participation", current_epoch_participation_mut), ("inactivity_scores", inactivity_scores_mut), ("current_sync_committee", current_sync_committee_mut), ("next_sync_committee", next_sync_committee_mut), ("latest_execution_payload_header", latest_execution_payload_header_mut), ("next_withdrawal_index", next_withdrawal_index_mut), ("next_withdrawal_validator_index", next_withdrawal_validator_index_mut), ("historical_summaries", historical_summaries_mut)]);
        let r = match &x { types::minimal::BeaconState::Phase0(i) => types::BeaconStateRef::from(&*i), types::minimal::BeaconState::Altair(i) => types::BeaconStateRef::from(&*i), types::minimal::BeaconState::Bellatrix(i) => types::BeaconStateRef::from(&*i), types::minimal::BeaconState::Capella(i) => types::BeaconStateRef::from(&*i), types::minimal::BeaconState::Deneb(i) => types::BeaconStateRef::from(&*i), };
        o["ref"] = view!(r, [("phase0", phase0), ("altair", altair), ("bellatrix", bellatrix), ("capella", capella), ("deneb", deneb)], [("genesis_time", genesis_time), ("genesis_validators_root", genesis_validators_root), ("slot", slot), ("fork", fork), ("latest_block_header", latest_block_header), ("block_roots", block_roots), ("state_roots", state_roots), ("historical_roots", historical_roots), ("eth1_data", eth1_data), ("eth1_data_votes", eth1_data_votes), ("eth1_deposit_index", eth1_deposit_index), ("validators", validators), ("balances", balances), ("randao_mixes", randao_mixes), ("slashings", slashings), ("previous_epoch_attestations", previous_epoch_attestations), ("current_epoch_attestations", current_epoch_attestations), ("justification_bits", justification_bits), ("previous_justified_checkpoint", previous_justified_checkpoint), ("current_justified_checkpoint", current_justified_checkpoint), ("finalized_checkpoint", finalized_checkpoint), ("previous_epoch_participation", previous_epoch_participation), ("current_epoch_participation", current_epoch_participation), ("inactivity_scores", inactivity_scores), ("current_sync_committee", current_sync_committee), ("next_sync_committee", next_sync_committee), ("latest_execution_payload_header", latest_execution_payload_header), ("next_withdrawal_index", next_withdrawal_index), ("next_withdrawal_validator_index", next_withdrawal_validator_index), ("historical_summaries", historical_summaries)]);
        let mut r = match &mut x { types::minimal::BeaconState::Phase0(i) => types::BeaconStateRefMut::from(i), types::minimal::BeaconState::Altair(i) => types::BeaconStateRefMut::from(i), types::minimal::BeaconState::Bellatrix(i) => types::BeaconStateRefMut::from(i), types::minimal::BeaconState::Capella(i) => types::BeaconStateRefMut::from(i), types::minimal::BeaconState::Deneb(i) => types::BeaconStateRefMut::from(i), };
        o["refmut"] = view!(r, [("phase0", phase0), ("altair", altair), ("bellatrix", bellatrix), ("capella", capella), ("deneb", deneb)], [("genesis_time", genesis_time), ("genesis_validators_root", genesis_validators_root), ("slot", slot), ("fork", fork), ("latest_block_header", latest_block_header), ("block_roots", block_roots), ("state_roots", state_roots), ("historical_roots", historical_roots), ("eth1_data", eth1_data), ("eth1_data_votes", eth1_data_votes), ("eth1_deposit_index", eth1_deposit_index), ("validators", validators), ("balances", balances), ("randao_mixes", randao_mixes), ("slashings", slashings), ("previous_epoch_attestations", previous_epoch_attestations), ("current_epoch_attestations", current_epoch_attestations), ("justification_bits", justification_bits), ("previous_justified_checkpoint", previous_justified_checkpoint), ("current_justified_checkpoint", current_justified_checkpoint), ("finalized_checkpoint", finalized_checkpoint), ("previous_epoch_participation", previous_epoch_participation), ("current_epoch_participation", current_epoch_participation), ("inactivity_scores", inactivity_scores), ("current_sync_committee", current_sync_committee), ("next_sync_committee", next_sync_committee), ("latest_execution_payload_header", latest_execution_payload_header), ("next_withdrawal_index", next_withdrawal_index), ("next_withdrawal_validator_index", next_withdrawal_validator_index), ("historical_summaries", historical_summaries)]);
        o["refmut_mut"] = view!(r, [("phase0", phase0_mut), ("altair", altair_mut), ("bellatrix", bellatrix_mut), ("capella", capella_mut), ("deneb", deneb_mut)], [("genesis_time", genesis_time_mut), ("genesis_validators_root", genesis_validators_root_mut), ("slot", slot_mut), ("fork", fork_mut), ("latest_block_header", latest_block_header_mut), ("block_roots", block_roots_mut), ("state_roots", state_roots_mut), ("historical_roots", historical_roots_mut), ("eth1_data", eth1_data_mut), ("eth1_data_votes", eth1_data_votes_mut), ("eth1_deposit_index", eth1_deposit_index_mut), ("validators", validators_mut), ("balances", balances_mut), ("randao_mixes", randao_mixes_mut), ("slashings", slashings_mut), ("previous_epoch_attestations", previous_epoch_attestations_mut), ("current_epoch_attestations", current_epoch_attestations_mut), ("justification_bits", justification_bits_mut), ("previous_justified_checkpoint", previous_justified_checkpoint_mut), ("current_justified_checkpoint", current_justified_checkpoint_mut), ("finalized_checkpoint", finalized_checkpoint_mut), ("previous_epoch_participation", previous_epoch_participation_mut), ("current_epoch_participation", current_epoch_participation_mut), ("inactivity_scores", inactivity_scores_mut), ("current_sync_committee", current_sync_committee_mut), ("next_sync_committee", next_sync_committee_mut), ("latest_execution_payload_header", latest_execution_payload_header_mut), ("next_withdrawal_index", next_withdrawal_index_mut), ("next_withdrawal_validator_index", next_withdrawal_validator_index_mut), ("historical_summaries", historical_summaries_mut)]);
        o
    }
    pub fn beacon_block_body(v: &Value) -> Value {
        let Ok(mut x) = serde_json::from_str::<types::minimal::BeaconBlockBody>(&v.to_string()) else { return "rejected".into() };
        let b = serialize(&x).expect("serializes");
        let back = types::minimal::BeaconBlockBody::deserialize(&b).map(|y| y == x && y.version() == x.version()).unwrap_or(false);
        let mut o = json!({"version": fork(x.version()), "ssz": short(&b), "root": root(&x), "ssz_back": back,
            "json_back": &serde_json::to_value(&x).unwrap() == v});
        o["owned"] = view!(x, [("phase0", phase0), ("altair", altair), ("bellatrix", bellatrix), ("capella", capella), ("deneb", deneb)], [("randao_reveal", randao_reveal), ("eth1_data", eth1_data), ("graffiti", graffiti), ("proposer_slashings", proposer_slashings), ("attester_slashings", attester_slashings), ("attestations", attestations), ("deposits", deposits), ("voluntary_exits", voluntary_exits), ("sync_aggregate", sync_aggregate), ("execution_payload", execution_payload), ("bls_to_execution_changes", bls_to_execution_changes), ("blob_kzg_commitments", blob_kzg_commitments)]);
        o["owned_mut"] = view!(x, [("phase0", phase0_mut), ("altair", altair_mut), ("bellatrix", bellatrix_mut), ("capella", capella_mut), ("deneb", deneb_mut)], [("randao_reveal", randao_reveal_mut), ("eth1_data", eth1_data_mut), ("graffiti", graffiti_mut), ("proposer_slashings", proposer_slashings_mut), ("attester_slashings", attester_slashings_mut), ("attestations", attestations_mut), ("deposits", deposits_mut), ("voluntary_exits", voluntary_exits_mut), ("sync_aggregate", sync_aggregate_mut), ("execution_payload", execution_payload_mut), ("bls_to_execution_changes", bls_to_execution_changes_mut), ("blob_kzg_commitments", blob_kzg_commitments_mut)]);
        let r = match &x { types::minimal::BeaconBlockBody::Phase0(i) => types::BeaconBlockBodyRef::from(&*i), types::minimal::BeaconBlockBody::Altair(i) => types::BeaconBlockBodyRef::from(&*i), types::minimal::BeaconBlockBody::Bellatrix(i) => types::BeaconBlockBodyRef::from(&*i), types::minimal::BeaconBlockBody::Capella(i) => types::BeaconBlockBodyRef::from(&*i), types::minimal::BeaconBlockBody::Deneb(i) => types::BeaconBlockBodyRef::from(&*i), };
        o["ref"] = view!(r, [("phase0", phase0), ("altair", altair), ("bellatrix", bellatrix), ("capella", capella), ("deneb", deneb)], [("randao_reveal", randao_reveal), ("eth1_data", eth1_data), ("graffiti", graffiti), ("proposer_slashings", proposer_slashings), ("attester_slashings", attester_slashings), ("attestations", attestations), ("deposits", deposits), ("voluntary_exits", voluntary_exits), ("sync_aggregate", sync_aggregate), ("execution_payload", execution_payload), ("bls_to_execution_changes", bls_to_execution_changes), ("blob_kzg_commitments", blob_kzg_commitments)]);
        let mut r = match &mut x { types::minimal::BeaconBlockBody::Phase0(i) => types::BeaconBlockBodyRefMut::from(i), types::minimal::BeaconBlockBody::Altair(i) => types::BeaconBlockBodyRefMut::from(i), types::minimal::BeaconBlockBody::Bellatrix(i) => types::BeaconBlockBodyRefMut::from(i), types::minimal::BeaconBlockBody::Capella(i) => types::BeaconBlockBodyRefMut::from(i), types::minimal::BeaconBlockBody::Deneb(i) => types::BeaconBlockBodyRefMut::from(i), };
        o["refmut"] = view!(r, [("phase0", phase0), ("altair", altair), ("bellatrix", bellatrix), ("capella", capella), ("deneb", deneb)], [("randao_reveal", randao_reveal), ("eth1_data", eth1_data), ("graffiti", graffiti), ("proposer_slashings", proposer_slashings), ("attester_slashings", attester_slashings), ("attestations", attestations), ("deposits", deposits), ("voluntary_exits", voluntary_exits), ("sync_aggregate", sync_aggregate), ("execution_payload", execution_payload), ("bls_to_execution_changes", bls_to_execution_changes), ("blob_kzg_commitments", blob_kzg_commitments)]);
        o["refmut_mut"] = view!(r, [("phase0", phase0_mut), ("altair", altair_mut), ("bellatrix", bellatrix_mut), ("capella", capella_mut), ("deneb", deneb_mut)], [("randao_reveal", randao_reveal_mut), ("eth1_data", eth1_data_mut), ("graffiti", graffiti_mut), ("proposer_slashings", proposer_slashings_mut), ("attester_slashings", attester_slashings_mut), ("attestations", attestations_mut), ("deposits", deposits_mut), ("voluntary_exits", voluntary_exits_mut), ("sync_aggregate", sync_aggregate_mut), ("execution_payload", execution_payload_mut), ("bls_to_execution_changes", bls_to_execution_changes_mut), ("blob_kzg_commitments", blob_kzg_commitments_mut)]);
        o
    }
    pub fn beacon_block(v: &Value) -> Value {
        let Ok(mut x) = serde_json::from_str::<types::minimal::BeaconBlock>(&v.to_string()) else { return "rejected".into() };
        let b = serialize(&x).expect("serializes");
        let back = types::minimal::BeaconBlock::deserialize(&b).map(|y| y == x && y.version() == x.version()).unwrap_or(false);
        let mut o = json!({"version": fork(x.version()), "ssz": short(&b), "root": root(&x), "ssz_back": back,
            "json_back": &serde_json::to_value(&x).unwrap() == v});
        o["owned"] = view!(x, [("phase0", phase0), ("altair", altair), ("bellatrix", bellatrix), ("capella", capella), ("deneb", deneb)], [("slot", slot), ("proposer_index", proposer_index), ("parent_root", parent_root), ("state_root", state_root), ("body", body)]);
        o["owned_mut"] = view!(x, [("phase0", phase0_mut), ("altair", altair_mut), ("bellatrix", bellatrix_mut), ("capella", capella_mut), ("deneb", deneb_mut)], [("slot", slot_mut), ("proposer_index", proposer_index_mut), ("parent_root", parent_root_mut), ("state_root", state_root_mut), ("body", body_mut)]);
        let r = match &x { types::minimal::BeaconBlock::Phase0(i) => types::BeaconBlockRef::from(&*i), types::minimal::BeaconBlock::Altair(i) => types::BeaconBlockRef::from(&*i), types::minimal::BeaconBlock::Bellatrix(i) => types::BeaconBlockRef::from(&*i), types::minimal::BeaconBlock::Capella(i) => types::BeaconBlockRef::from(&*i), types::minimal::BeaconBlock::Deneb(i) => types::BeaconBlockRef::from(&*i), };
        o["ref"] = view!(r, [("phase0", phase0), ("altair", altair), ("bellatrix", bellatrix), ("capella", capella), ("deneb", deneb)], [("slot", slot), ("proposer_index", proposer_index), ("parent_root", parent_root), ("state_root", state_root), ("body", body)]);
        let mut r = match &mut x { types::minimal::BeaconBlock::Phase0(i) => types::BeaconBlockRefMut::from(i), types::minimal::BeaconBlock::Altair(i) => types::BeaconBlockRefMut::from(i), types::minimal::BeaconBlock::Bellatrix(i) => types::BeaconBlockRefMut::from(i), types::minimal::BeaconBlock::Capella(i) => types::BeaconBlockRefMut::from(i), types::minimal::BeaconBlock::Deneb(i) => types::BeaconBlockRefMut::from(i), };
        o["refmut"] = view!(r, [("phase0", phase0), ("altair", altair), ("bellatrix", bellatrix), ("capella", capella), ("deneb", deneb)], [("slot", slot), ("proposer_index", proposer_index), ("parent_root", parent_root), ("state_root", state_root), ("body", body)]);
        o["refmut_mut"] = view!(r, [("phase0", phase0_mut), ("altair", altair_mut), ("bellatrix", bellatrix_mut), ("capella", capella_mut), ("deneb", deneb_mut)], [("slot", slot_mut), ("proposer_index", proposer_index_mut), ("parent_root", parent_root_mut), ("state_root", state_root_mut), ("body", body_mut)]);
        o
    }
    pub fn signed_beacon_block(v: &Value) -> Value {
        let Ok(mut x) = serde_json::from_str::<types::minimal::SignedBeaconBlock>(&v.to_string()) else { return "rejected".into() };
        let b = serialize(&x).expect("serializes");
        let back = types::minimal::SignedBeaconBlock::deserialize(&b).map(|y| y == x && y.version() == x.version()).unwrap_or(false);
        let mut o = json!({"version": fork(x.version()), "ssz": short(&b), "root": root(&x), "ssz_back": back,
            "json_back": &serde_json::to_value(&x).unwrap() == v});
        o["owned"] = view!(x, [("phase0", phase0), ("altair", altair), ("bellatrix", bellatrix), ("capella", capella), ("deneb", deneb)], [("message", message), ("signature", signature)]);
        o["owned_mut"] = view!(x, [("phase0", phase0_mut), ("altair", altair_mut), ("bellatrix", bellatrix_mut), ("capella", capella_mut), ("deneb", deneb_mut)], [("message", message_mut), ("signature", signature_mut)]);
        o
    }
    pub fn blinded_beacon_block_body(v: &Value) -> Value {
        let Ok(mut x) = serde_json::from_str::<types::minimal::BlindedBeaconBlockBody>(&v.to_string()) else { return "rejected".into() };
        let b = serialize(&x).expect("serializes");
        let back = types::minimal::BlindedBeaconBlockBody::deserialize(&b).map(|y| y == x && y.version() == x.version()).unwrap_or(false);
        let mut o = json!({"version": fork(x.version()), "ssz": short(&b), "root": root(&x), "ssz_back": back,
            "json_back": &serde_json::to_value(&x).unwrap() == v});
        o["owned"] = view!(x, [("bellatrix", bellatrix), ("capella", capella), ("deneb", deneb)], [("randao_reveal", randao_reveal), ("eth1_data", eth1_data), ("graffiti", graffiti), ("proposer_slashings", proposer_slashings), ("attester_slashings", attester_slashings), ("attestations", attestations), ("deposits", deposits), ("voluntary_exits", voluntary_exits), ("sync_aggregate", sync_aggregate), ("execution_payload_header", execution_payload_header), ("bls_to_execution_changes", bls_to_execution_changes), ("blob_kzg_commitments", blob_kzg_commitments)]);
        o["owned_mut"] = view!(x, [("bellatrix", bellatrix_mut), ("capella", capella_mut), ("deneb", deneb_mut)], [("randao_reveal", randao_reveal_mut), ("eth1_data", eth1_data_mut), ("graffiti", graffiti_mut), ("proposer_slashings", proposer_slashings_mut), ("attester_slashings", attester_slashings_mut), ("attestations", attestations_mut), ("deposits", deposits_mut), ("voluntary_exits", voluntary_exits_mut), ("sync_aggregate", sync_aggregate_mut), ("execution_payload_header", execution_payload_header_mut), ("bls_to_execution_changes", bls_to_execution_changes_mut), ("blob_kzg_commitments", blob_kzg_commitments_mut)]);
        let r = match &x { types::minimal::BlindedBeaconBlockBody::Bellatrix(i) => types::BlindedBeaconBlockBodyRef::from(&*i), types::minimal::BlindedBeaconBlockBody::Capella(i) => types::BlindedBeaconBlockBodyRef::from(&*i), types::minimal::BlindedBeaconBlockBody::Deneb(i) => types::BlindedBeaconBlockBodyRef::from(&*i), };
        o["ref"] = view!(r, [("bellatrix", bellatrix), ("capella", capella), ("deneb", deneb)], [("randao_reveal", randao_reveal), ("eth1_data", eth1_data), ("graffiti", graffiti), ("proposer_slashings", proposer_slashings), ("attester_slashings", attester_slashings), ("attestations", attestations), ("deposits", deposits), ("voluntary_exits", voluntary_exits), ("sync_aggregate", sync_aggregate), ("execution_payload_header", execution_payload_header), ("bls_to_execution_changes", bls_to_execution_changes), ("blob_kzg_commitments", blob_kzg_commitments)]);
        let mut r = match &mut x { types::minimal::BlindedBeaconBlockBody::Bellatrix(i) => types::BlindedBeaconBlockBodyRefMut::from(i), types::minimal::BlindedBeaconBlockBody::Capella(i) => types::BlindedBeaconBlockBodyRefMut::from(i), types::minimal::BlindedBeaconBlockBody::Deneb(i) => types::BlindedBeaconBlockBodyRefMut::from(i), };
        o["refmut"] = view!(r, [("bellatrix", bellatrix), ("capella", capella), ("deneb", deneb)], [("randao_reveal", randao_reveal), ("eth1_data", eth1_data), ("graffiti", graffiti), ("proposer_slashings", proposer_slashings), ("attester_slashings", attester_slashings), ("attestations", attestations), ("deposits", deposits), ("voluntary_exits", voluntary_exits), ("sync_aggregate", sync_aggregate), ("execution_payload_header", execution_payload_header), ("bls_to_execution_changes", bls_to_execution_changes), ("blob_kzg_commitments", blob_kzg_commitments)]);
        o["refmut_mut"] = view!(r, [("bellatrix", bellatrix_mut), ("capella", capella_mut), ("deneb", deneb_mut)], [("randao_reveal", randao_reveal_mut), ("eth1_data", eth1_data_mut), ("graffiti", graffiti_mut), ("proposer_slashings", proposer_slashings_mut), ("attester_slashings", attester_slashings_mut), ("attestations", attestations_mut), ("deposits", deposits_mut), ("voluntary_exits", voluntary_exits_mut), ("sync_aggregate", sync_aggregate_mut), ("execution_payload_header", execution_payload_header_mut), ("bls_to_execution_changes", bls_to_execution_changes_mut), ("blob_kzg_commitments", blob_kzg_commitments_mut)]);
        o
    }
    pub fn blinded_beacon_block(v: &Value) -> Value {
        let Ok(mut x) = serde_json::from_str::<types::minimal::BlindedBeaconBlock>(&v.to_string()) else { return "rejected".into() };
        let b = serialize(&x).expect("serializes");
        let back = types::minimal::BlindedBeaconBlock::deserialize(&b).map(|y| y == x && y.version() == x.version()).unwrap_or(false);
        let mut o = json!({"version": fork(x.version()), "ssz": short(&b), "root": root(&x), "ssz_back": back,
            "json_back": &serde_json::to_value(&x).unwrap() == v});
        o["owned"] = view!(x, [("bellatrix", bellatrix), ("capella", capella), ("deneb", deneb)], [("slot", slot), ("proposer_index", proposer_index), ("parent_root", parent_root), ("state_root", state_root), ("body", body)]);
        o["owned_mut"] = view!(x, [("bellatrix", bellatrix_mut), ("capella", capella_mut), ("deneb", deneb_mut)], [("slot", slot_mut), ("proposer_index", proposer_index_mut), ("parent_root", parent_root_mut), ("state_root", state_root_mut), ("body", body_mut)]);
        let r = match &x { types::minimal::BlindedBeaconBlock::Bellatrix(i) => types::BlindedBeaconBlockRef::from(&*i), types::minimal::BlindedBeaconBlock::Capella(i) => types::BlindedBeaconBlockRef::from(&*i), types::minimal::BlindedBeaconBlock::Deneb(i) => types::BlindedBeaconBlockRef::from(&*i), };
        o["ref"] = view!(r, [("bellatrix", bellatrix), ("capella", capella), ("deneb", deneb)], [("slot", slot), ("proposer_index", proposer_index), ("parent_root", parent_root), ("state_root", state_root), ("body", body)]);
        let mut r = match &mut x { types::minimal::BlindedBeaconBlock::Bellatrix(i) => types::BlindedBeaconBlockRefMut::from(i), types::minimal::BlindedBeaconBlock::Capella(i) => types::BlindedBeaconBlockRefMut::from(i), types::minimal::BlindedBeaconBlock::Deneb(i) => types::BlindedBeaconBlockRefMut::from(i), };
        o["refmut"] = view!(r, [("bellatrix", bellatrix), ("capella", capella), ("deneb", deneb)], [("slot", slot), ("proposer_index", proposer_index), ("parent_root", parent_root), ("state_root", state_root), ("body", body)]);
        o["refmut_mut"] = view!(r, [("bellatrix", bellatrix_mut), ("capella", capella_mut), ("deneb", deneb_mut)], [("slot", slot_mut), ("proposer_index", proposer_index_mut), ("parent_root", parent_root_mut), ("state_root", state_root_mut), ("body", body_mut)]);
        o
    }
    pub fn signed_blinded_beacon_block(v: &Value) -> Value {
        let Ok(mut x) = serde_json::from_str::<types::minimal::SignedBlindedBeaconBlock>(&v.to_string()) else { return "rejected".into() };
        let b = serialize(&x).expect("serializes");
        let back = types::minimal::SignedBlindedBeaconBlock::deserialize(&b).map(|y| y == x && y.version() == x.version()).unwrap_or(false);
        let mut o = json!({"version": fork(x.version()), "ssz": short(&b), "root": root(&x), "ssz_back": back,
            "json_back": &serde_json::to_value(&x).unwrap() == v});
        o["owned"] = view!(x, [("bellatrix", bellatrix), ("capella", capella), ("deneb", deneb)], [("message", message), ("signature", signature)]);
        o["owned_mut"] = view!(x, [("bellatrix", bellatrix_mut), ("capella", capella_mut), ("deneb", deneb_mut)], [("message", message_mut), ("signature", signature_mut)]);
        o
    }
    pub fn execution_payload(v: &Value) -> Value {
        let Ok(mut x) = serde_json::from_str::<types::minimal::ExecutionPayload>(&v.to_string()) else { return "rejected".into() };
        let b = serialize(&x).expect("serializes");
        let back = types::minimal::ExecutionPayload::deserialize(&b).map(|y| y == x && y.version() == x.version()).unwrap_or(false);
        let mut o = json!({"version": fork(x.version()), "ssz": short(&b), "root": root(&x), "ssz_back": back,
            "json_back": &serde_json::to_value(&x).unwrap() == v});
        o["owned"] = view!(x, [("bellatrix", bellatrix), ("capella", capella), ("deneb", deneb)], [("parent_hash", parent_hash), ("fee_recipient", fee_recipient), ("state_root", state_root), ("receipts_root", receipts_root), ("logs_bloom", logs_bloom), ("prev_randao", prev_randao), ("block_number", block_number), ("gas_limit", gas_limit), ("gas_used", gas_used), ("timestamp", timestamp), ("extra_data", extra_data), ("base_fee_per_gas", base_fee_per_gas), ("block_hash", block_hash), ("transactions", transactions), ("withdrawals", withdrawals), ("blob_gas_used", blob_gas_used), ("excess_blob_gas", excess_blob_gas)]);
        o["owned_mut"] = view!(x, [("bellatrix", bellatrix_mut), ("capella", capella_mut), ("deneb", deneb_mut)], [("parent_hash", parent_hash_mut), ("fee_recipient", fee_recipient_mut), ("state_root", state_root_mut), ("receipts_root", receipts_root_mut), ("logs_bloom", logs_bloom_mut), ("prev_randao", prev_randao_mut), ("block_number", block_number_mut), ("gas_limit", gas_limit_mut), ("gas_used", gas_used_mut), ("timestamp", timestamp_mut), ("extra_data", extra_data_mut), ("base_fee_per_gas", base_fee_per_gas_mut), ("block_hash", block_hash_mut), ("transactions", transactions_mut), ("withdrawals", withdrawals_mut), ("blob_gas_used", blob_gas_used_mut), ("excess_blob_gas", excess_blob_gas_mut)]);
        let r = match &x { types::minimal::ExecutionPayload::Bellatrix(i) => types::ExecutionPayloadRef::from(&*i), types::minimal::ExecutionPayload::Capella(i) => types::ExecutionPayloadRef::from(&*i), types::minimal::ExecutionPayload::Deneb(i) => types::ExecutionPayloadRef::from(&*i), };
        o["ref"] = view!(r, [("bellatrix", bellatrix), ("capella", capella), ("deneb", deneb)], [("parent_hash", parent_hash), ("fee_recipient", fee_recipient), ("state_root", state_root), ("receipts_root", receipts_root), ("logs_bloom", logs_bloom), ("prev_randao", prev_randao), ("block_number", block_number), ("gas_limit", gas_limit), ("gas_used", gas_used), ("timestamp", timestamp), ("extra_data", extra_data), ("base_fee_per_gas", base_fee_per_gas), ("block_hash", block_hash), ("transactions", transactions), ("withdrawals", withdrawals), ("blob_gas_used", blob_gas_used), ("excess_blob_gas", excess_blob_gas)]);
        let mut r = match &mut x { types::minimal::ExecutionPayload::Bellatrix(i) => types::ExecutionPayloadRefMut::from(i), types::minimal::ExecutionPayload::Capella(i) => types::ExecutionPayloadRefMut::from(i), types::minimal::ExecutionPayload::Deneb(i) => types::ExecutionPayloadRefMut::from(i), };
        o["refmut"] = view!(r, [("bellatrix", bellatrix), ("capella", capella), ("deneb", deneb)], [("parent_hash", parent_hash), ("fee_recipient", fee_recipient), ("state_root", state_root), ("receipts_root", receipts_root), ("logs_bloom", logs_bloom), ("prev_randao", prev_randao), ("block_number", block_number), ("gas_limit", gas_limit), ("gas_used", gas_used), ("timestamp", timestamp), ("extra_data", extra_data), ("base_fee_per_gas", base_fee_per_gas), ("block_hash", block_hash), ("transactions", transactions), ("withdrawals", withdrawals), ("blob_gas_used", blob_gas_used), ("excess_blob_gas", excess_blob_gas)]);
        o["refmut_mut"] = view!(r, [("bellatrix", bellatrix_mut), ("capella", capella_mut), ("deneb", deneb_mut)], [("parent_hash", parent_hash_mut), ("fee_recipient", fee_recipient_mut), ("state_root", state_root_mut), ("receipts_root", receipts_root_mut), ("logs_bloom", logs_bloom_mut), ("prev_randao", prev_randao_mut), ("block_number", block_number_mut), ("gas_limit", gas_limit_mut), ("gas_used", gas_used_mut), ("timestamp", timestamp_mut), ("extra_data", extra_data_mut), ("base_fee_per_gas", base_fee_per_gas_mut), ("block_hash", block_hash_mut), ("transactions", transactions_mut), ("withdrawals", withdrawals_mut), ("blob_gas_used", blob_gas_used_mut), ("excess_blob_gas", excess_blob_gas_mut)]);
        o
    }
    pub fn execution_payload_header(v: &Value) -> Value {
        let Ok(mut x) = serde_json::from_str::<types::minimal::ExecutionPayloadHeader>(&v.to_string()) else { return "rejected".into() };
        let b = serialize(&x).expect("serializes");
        let back = types::minimal::ExecutionPayloadHeader::deserialize(&b).map(|y| y == x && y.version() == x.version()).unwrap_or(false);
        let mut o = json!({"version": fork(x.version()), "ssz": short(&b), "root": root(&x), "ssz_back": back,
            "json_back": &serde_json::to_value(&x).unwrap() == v});
        o["owned"] = view!(x, [("bellatrix", bellatrix), ("capella", capella), ("deneb", deneb)], [("parent_hash", parent_hash), ("fee_recipient", fee_recipient), ("state_root", state_root), ("receipts_root", receipts_root), ("logs_bloom", logs_bloom), ("prev_randao", prev_randao), ("block_number", block_number), ("gas_limit", gas_limit), ("gas_used", gas_used), ("timestamp", timestamp), ("extra_data", extra_data), ("base_fee_per_gas", base_fee_per_gas), ("block_hash", block_hash), ("transactions_root", transactions_root), ("withdrawals_root", withdrawals_root), ("blob_gas_used", blob_gas_used), ("excess_blob_gas", excess_blob_gas)]);
        o["owned_mut"] = view!(x, [("bellatrix", bellatrix_mut), ("capella", capella_mut), ("deneb", deneb_mut)], [("parent_hash", parent_hash_mut), ("fee_recipient", fee_recipient_mut), ("state_root", state_root_mut), ("receipts_root", receipts_root_mut), ("logs_bloom", logs_bloom_mut), ("prev_randao", prev_randao_mut), ("block_number", block_number_mut), ("gas_limit", gas_limit_mut), ("gas_used", gas_used_mut), ("timestamp", timestamp_mut), ("extra_data", extra_data_mut), ("base_fee_per_gas", base_fee_per_gas_mut), ("block_hash", block_hash_mut), ("transactions_root", transactions_root_mut), ("withdrawals_root", withdrawals_root_mut), ("blob_gas_used", blob_gas_used_mut), ("excess_blob_gas", excess_blob_gas_mut)]);
        let r = match &x { types::minimal::ExecutionPayloadHeader::Bellatrix(i) => types::ExecutionPayloadHeaderRef::from(&*i), types::minimal::ExecutionPayloadHeader::Capella(i) => types::ExecutionPayloadHeaderRef::from(&*i), types::minimal::ExecutionPayloadHeader::Deneb(i) => types::ExecutionPayloadHeaderRef::from(&*i), };
        o["ref"] = view!(r, [("bellatrix", bellatrix), ("capella", capella), ("deneb", deneb)], [("parent_hash", parent_hash), ("fee_recipient", fee_recipient), ("state_root", state_root), ("receipts_root", receipts_root), ("logs_bloom", logs_bloom), ("prev_randao", prev_randao), ("block_number", block_number), ("gas_limit", gas_limit), ("gas_used", gas_used), ("timestamp", timestamp), ("extra_data", extra_data), ("base_fee_per_gas", base_fee_per_gas), ("block_hash", block_hash), ("transactions_root", transactions_root), ("withdrawals_root", withdrawals_root), ("blob_gas_used", blob_gas_used), ("excess_blob_gas", excess_blob_gas)]);
        let mut r = match &mut x { types::minimal::ExecutionPayloadHeader::Bellatrix(i) => types::ExecutionPayloadHeaderRefMut::from(i), types::minimal::ExecutionPayloadHeader::Capella(i) => types::ExecutionPayloadHeaderRefMut::from(i), types::minimal::ExecutionPayloadHeader::Deneb(i) => types::ExecutionPayloadHeaderRefMut::from(i), };
        o["refmut"] = view!(r, [("bellatrix", bellatrix), ("capella", capella), ("deneb", deneb)], [("parent_hash", parent_hash), ("fee_recipient", fee_recipient), ("state_root", state_root), ("receipts_root", receipts_root), ("logs_bloom", logs_bloom), ("prev_randao", prev_randao), ("block_number", block_number), ("gas_limit", gas_limit), ("gas_used", gas_used), ("timestamp", timestamp), ("extra_data", extra_data), ("base_fee_per_gas", base_fee_per_gas), ("block_hash", block_hash), ("transactions_root", transactions_root), ("withdrawals_root", withdrawals_root), ("blob_gas_used", blob_gas_used), ("excess_blob_gas", excess_blob_gas)]);
        o["refmut_mut"] = view!(r, [("bellatrix", bellatrix_mut), ("capella", capella_mut), ("deneb", deneb_mut)], [("parent_hash", parent_hash_mut), ("fee_recipient", fee_recipient_mut), ("state_root", state_root_mut), ("receipts_root", receipts_root_mut), ("logs_bloom", logs_bloom_mut), ("prev_randao", prev_randao_mut), ("block_number", block_number_mut), ("gas_limit", gas_limit_mut), ("gas_used", gas_used_mut), ("timestamp", timestamp_mut), ("extra_data", extra_data_mut), ("base_fee_per_gas", base_fee_per_gas_mut), ("block_hash", block_hash_mut), ("transactions_root", transactions_root_mut), ("withdrawals_root", withdrawals_root_mut), ("blob_gas_used", blob_gas_used_mut), ("excess_blob_gas", excess_blob_gas_mut)]);
        o
    }
    pub fn run(name: &str, v: &Value) -> Value {
        match name {
            "BeaconState" => beacon_state(v),
            "BeaconBlockBody" => beacon_block_body(v),
            "BeaconBlock" => beacon_block(v),
            "SignedBeaconBlock" => signed_beacon_block(v),
            "BlindedBeaconBlockBody" => blinded_beacon_block_body(v),
            "BlindedBeaconBlock" => blinded_beacon_block(v),
            "SignedBlindedBeaconBlock" => signed_blinded_beacon_block(v),
            "ExecutionPayload" => execution_payload(v),
            "ExecutionPayloadHeader" => execution_payload_header(v),
            _ => panic!("harness: no type {name}"),
        }
    }
}

pub fn exec(op: &str, a: &Value) -> Value {
    let v = expand(&a["v"]);
    match op {
        "poly.mainnet" => mainnet::run(a["name"].as_str().unwrap(), &v),
        "poly.minimal" => minimal::run(a["name"].as_str().unwrap(), &v),
        _ => panic!("harness: unknown op {op}"),
    }
}
