//! The tiny preset (spec/cfg/tiny.json): concrete container types of every fork, and the uniform
//! view of a beacon state of any fork that sessions drive.
use ethereum_consensus as ec;
use ethereum_consensus::{
    altair, bellatrix, capella, deneb, electra, phase0,
    state_transition::{Context, Executor, Validation},
    types,
};
use serde_json::{json, Value};
use ssz_rs::J;
use std::collections::HashSet;

pub const SPHR: usize = 8;
pub const HRL: usize = 16;
pub const VOTES: usize = 8;
pub const VRL: usize = 64;
pub const EPHV: usize = 8;
pub const EPSV: usize = 8;
pub const MVC: usize = 16;
pub const MVS: usize = 32;
pub const MCPS: usize = 2;
pub const PAB: usize = 32;
pub const SYNC: usize = 8;
pub const LOGS: usize = 8;
pub const EXTRA: usize = 8;
pub const TXB: usize = 64;
pub const TXS: usize = 4;
pub const WDS: usize = 4;
pub const BLSC: usize = 4;
pub const BLOBS: usize = 4;
pub const PS: usize = 2;
pub const AS: usize = 2;
pub const ATTS: usize = 8;
pub const DEPS: usize = 4;
pub const EXITS: usize = 4;
pub const ASE: usize = 1;
pub const ATTSE: usize = 4;
pub const RECEIPTS: usize = 4;
pub const WREQ: usize = 4;
pub const CONS: usize = 1;
pub const PBD: usize = 32;
pub const PPW: usize = 8;
pub const PC: usize = 4;

pub type PState = phase0::BeaconState<SPHR, HRL, VOTES, VRL, EPHV, EPSV, MVC, PAB>;
pub type AState = altair::BeaconState<SPHR, HRL, VOTES, VRL, EPHV, EPSV, MVC, SYNC>;
pub type BState = bellatrix::BeaconState<SPHR, HRL, VOTES, VRL, EPHV, EPSV, MVC, SYNC, LOGS, EXTRA>;
pub type CState = capella::BeaconState<SPHR, HRL, VOTES, VRL, EPHV, EPSV, MVC, SYNC, LOGS, EXTRA>;
pub type DState = deneb::BeaconState<SPHR, HRL, VOTES, VRL, EPHV, EPSV, MVC, SYNC, LOGS, EXTRA>;
pub type EState = electra::BeaconState<SPHR, HRL, VOTES, VRL, EPHV, EPSV, MVC, SYNC, LOGS, EXTRA, PBD, PPW, PC>;
pub type PSigned = phase0::SignedBeaconBlock<PS, MVC, AS, ATTS, DEPS, EXITS>;
pub type ASigned = altair::SignedBeaconBlock<PS, MVC, AS, ATTS, DEPS, EXITS, SYNC>;
pub type BSigned = bellatrix::SignedBeaconBlock<PS, MVC, AS, ATTS, DEPS, EXITS, SYNC, LOGS, EXTRA, TXB, TXS>;
pub type CSigned = capella::SignedBeaconBlock<PS, MVC, AS, ATTS, DEPS, EXITS, SYNC, LOGS, EXTRA, TXB, TXS, WDS, BLSC>;
pub type DSigned = deneb::SignedBeaconBlock<PS, MVC, AS, ATTS, DEPS, EXITS, SYNC, LOGS, EXTRA, TXB, TXS, WDS, BLSC, BLOBS>;
pub type ESigned = electra::SignedBeaconBlock<PS, MVS, MCPS, ASE, ATTSE, DEPS, EXITS, SYNC, LOGS, EXTRA, TXB, TXS, WDS, RECEIPTS, WREQ, BLSC, BLOBS, CONS>;
pub type PBody = phase0::BeaconBlockBody<PS, MVC, AS, ATTS, DEPS, EXITS>;
pub type ABody = altair::BeaconBlockBody<PS, MVC, AS, ATTS, DEPS, EXITS, SYNC>;
pub type BBody = bellatrix::BeaconBlockBody<PS, MVC, AS, ATTS, DEPS, EXITS, SYNC, LOGS, EXTRA, TXB, TXS>;
pub type CBody = capella::BeaconBlockBody<PS, MVC, AS, ATTS, DEPS, EXITS, SYNC, LOGS, EXTRA, TXB, TXS, WDS, BLSC>;
pub type DBody = deneb::BeaconBlockBody<PS, MVC, AS, ATTS, DEPS, EXITS, SYNC, LOGS, EXTRA, TXB, TXS, WDS, BLSC, BLOBS>;
pub type EBody = electra::BeaconBlockBody<PS, MVS, MCPS, ASE, ATTSE, DEPS, EXITS, SYNC, LOGS, EXTRA, TXB, TXS, WDS, RECEIPTS, WREQ, BLSC, BLOBS, CONS>;
pub type Att = phase0::Attestation<MVC>;
pub type AttE = electra::Attestation<MVS, MCPS>;
pub type Slashing = phase0::AttesterSlashing<MVC>;
pub type SlashingE = electra::AttesterSlashing<MVS>;
pub type BPayload = bellatrix::ExecutionPayload<LOGS, EXTRA, TXB, TXS>;
pub type DRequest = deneb::NewPayloadRequest<LOGS, EXTRA, TXB, TXS, WDS>;
pub type ERequest = electra::NewPayloadRequest<LOGS, EXTRA, TXB, TXS, WDS, RECEIPTS, WREQ>;
pub type CPayload = capella::ExecutionPayload<LOGS, EXTRA, TXB, TXS, WDS>;
pub type DPayload = deneb::ExecutionPayload<LOGS, EXTRA, TXB, TXS, WDS>;
pub type EPayload = electra::ExecutionPayload<LOGS, EXTRA, TXB, TXS, WDS, RECEIPTS, WREQ>;
pub type AnyState = types::BeaconState<SPHR, HRL, VOTES, VRL, EPHV, EPSV, MVC, PAB, SYNC, LOGS, EXTRA>;
pub type AnySigned = types::SignedBeaconBlock<PS, MVC, AS, ATTS, DEPS, EXITS, SYNC, LOGS, EXTRA, TXB, TXS, WDS, BLSC, BLOBS>;
pub type Exec = Executor<SPHR, HRL, VOTES, VRL, EPHV, EPSV, MVC, PAB, SYNC, LOGS, EXTRA, TXB, TXS, PS, AS, ATTS, DEPS, EXITS, WDS, BLSC, BLOBS>;

pub const FORKS: [&str; 6] = ["phase0", "altair", "bellatrix", "capella", "deneb", "electra"];
pub fn fnum(f: &str) -> usize {
    FORKS.iter().position(|x| *x == f).unwrap_or_else(|| panic!("harness: fork {f}"))
}
pub fn cfg() -> &'static Value {
    static C: std::sync::OnceLock<Value> = std::sync::OnceLock::new();
    C.get_or_init(|| serde_json::from_str(include_str!("../../spec/cfg/tiny.json")).unwrap())
}
pub fn c(k: &str) -> u64 {
    u64::uj(&cfg()[k])
}
macro_rules! context { ($x:ident; $($f:ident)*; $($s:ident)*) => {{ $( $x.$f = J::uj(&cfg()[stringify!($f)]); )* $( $x.$s = J::uj(&cfg()[stringify!($s)]); )* }} }
/// The context of the tiny preset.
pub fn context() -> Context {
    static C: std::sync::OnceLock<Context> = std::sync::OnceLock::new();
    C.get_or_init(|| {
        let mut x = Context::for_minimal();
        context!(x; max_committees_per_slot target_committee_size max_validators_per_committee shuffle_round_count
            hysteresis_quotient hysteresis_downward_multiplier hysteresis_upward_multiplier min_deposit_amount max_effective_balance
            effective_balance_increment min_attestation_inclusion_delay slots_per_epoch min_seed_lookahead max_seed_lookahead
            min_epochs_to_inactivity_penalty epochs_per_eth1_voting_period slots_per_historical_root epochs_per_historical_vector
            epochs_per_slashings_vector historical_roots_limit validator_registry_limit base_reward_factor
            whistleblower_reward_quotient proposer_reward_quotient inactivity_penalty_quotient min_slashing_penalty_quotient
            proportional_slashing_multiplier max_proposer_slashings max_attester_slashings max_attestations max_deposits
            max_voluntary_exits inactivity_penalty_quotient_altair min_slashing_penalty_quotient_altair
            proportional_slashing_multiplier_altair sync_committee_size epochs_per_sync_committee_period
            min_sync_committee_participants update_timeout inactivity_penalty_quotient_bellatrix
            min_slashing_penalty_quotient_bellatrix proportional_slashing_multiplier_bellatrix max_bytes_per_transaction
            max_transactions_per_payload bytes_per_logs_bloom max_extra_data_bytes max_bls_to_execution_changes
            max_withdrawals_per_payload max_validators_per_withdrawals_sweep field_elements_per_blob
            max_blob_commitments_per_block max_blobs_per_block min_activation_balance max_effective_balance_electra
            min_slashing_penalty_quotient_electra whistleblower_reward_quotient_electra pending_balance_deposits_limit
            pending_partial_withdrawals_limit pending_consolidations_limit max_attester_slashings_electra max_attestations_electra
            max_consolidations max_deposit_receipts_per_payload max_withdrawal_requests_per_payload
            max_pending_partials_per_withdrawals_sweep terminal_block_hash terminal_block_hash_activation_epoch
            min_genesis_active_validator_count min_genesis_time genesis_fork_version genesis_delay altair_fork_version
            altair_fork_epoch bellatrix_fork_version bellatrix_fork_epoch capella_fork_version capella_fork_epoch
            deneb_fork_version deneb_fork_epoch electra_fork_version electra_fork_epoch seconds_per_slot seconds_per_eth1_block
            min_validator_withdrawability_delay shard_committee_period eth1_follow_distance inactivity_score_bias
            inactivity_score_recovery_rate ejection_balance min_per_epoch_churn_limit max_per_epoch_activation_churn_limit
            min_per_epoch_churn_limit_electra max_per_epoch_activation_exit_churn_limit churn_limit_quotient
            proposer_score_boost deposit_chain_id deposit_network_id; deposit_contract_address execution_engine);
        x
    })
    .clone()
}

/// What an operation gave: a value, or the error's text.
pub type Res = Result<Value, String>;
pub trait IntoRes {
    fn r(self) -> Res;
}
impl IntoRes for () {
    fn r(self) -> Res {
        Ok(Value::Null)
    }
}
impl IntoRes for Value {
    fn r(self) -> Res {
        Ok(self)
    }
}
impl<T: IntoRes, E: std::fmt::Debug> IntoRes for Result<T, E> {
    fn r(self) -> Res {
        match self {
            Ok(v) => v.r(),
            Err(e) => Err(format!("{e:?}").chars().take(160).collect()),
        }
    }
}
macro_rules! plain { ($($t:ty),*) => {$( impl IntoRes for $t { fn r(self) -> Res { Ok(self.j()) } } )*} }
plain!(u64, usize, bool);
impl IntoRes for Vec<usize> {
    fn r(self) -> Res {
        Ok(self.iter().map(|x| x.j()).collect())
    }
}
impl IntoRes for HashSet<usize> {
    fn r(self) -> Res {
        let mut v: Vec<_> = self.into_iter().collect();
        v.sort();
        v.r()
    }
}
impl IntoRes for (Vec<u64>, Vec<u64>) {
    fn r(self) -> Res {
        let f = |v: Vec<u64>| v.iter().map(|x| x.j()).collect::<Value>();
        Ok(json!({"r": f(self.0), "p": f(self.1)}))
    }
}
pub fn jv<T: J>(v: &[T]) -> Value {
    v.iter().map(|x| x.j()).collect()
}
pub fn a<T: J>(v: &Value, k: &str) -> T {
    T::uj(&v[k])
}
pub fn validation(v: &Value) -> Validation {
    if v["validate"] == json!(false) { Validation::Disabled } else { Validation::Enabled }
}

/// A beacon state of some fork.
pub trait St {
    fn fork(&self) -> &'static str;
    fn json(&self) -> Value;
    /// Runs an operation or a query; None: this fork has no such operation.
    fn op(&mut self, op: &str, v: &Value, c: &Context) -> Option<Res>;
    fn upgrade(&self, c: &Context) -> Result<Box<dyn St>, String>;
    fn boxed(&self) -> Box<dyn St>;
    fn any(&self) -> Option<AnyState>;
    fn root(&self) -> String;
}
macro_rules! fork {
    ($f:ident, $st:ty, $signed:ty, $body:ty, $att:ty, $slashing:ty, $any:expr, $upgrade:expr; $( $op:literal => |$s:ident, $a:ident, $c:ident| $e:expr, )* ) => {
        impl St for $st {
            fn fork(&self) -> &'static str { stringify!($f) }
            fn json(&self) -> Value {
                let mut v = self.j();
                v["fk"] = stringify!($f).into();
                v
            }
            fn boxed(&self) -> Box<dyn St> { Box::new(self.clone()) }
            fn any(&self) -> Option<AnyState> { let f: fn($st) -> Option<AnyState> = $any; f(self.clone()) }
            fn root(&self) -> String { hex::encode(ssz_rs::HashTreeRoot::hash_tree_root(self).unwrap()) }
            fn upgrade(&self, c: &Context) -> Result<Box<dyn St>, String> {
                let f: fn(&$st, &Context) -> Result<Box<dyn St>, String> = $upgrade;
                f(self, c)
            }
            fn op(&mut self, op: &str, v: &Value, c: &Context) -> Option<Res> {
                let s = self;
                let e = |v: &Value| -> u64 { a(v, "e") };
                Some(match op {
                    // the chain
                    "slot" => $f::process_slot(s, c).r(),
                    "slots" => $f::process_slots(s, a(v, "to"), c).r(),
                    "epoch" => $f::process_epoch(s, c).r(),
                    "header" => $f::process_block_header(s, &<$signed>::uj(&v["x"]).message, c).r(),
                    "randao" => $f::process_randao(s, &<$body>::uj(&v["x"]), c).r(),
                    "eth1" => $f::process_eth1_data(s, &<$body>::uj(&v["x"]), c).r(),
                    "operations" => $f::process_operations(s, &<$body>::uj(&v["x"]), c).r(),
                    "block" => $f::process_block(s, &<$signed>::uj(&v["x"]).message, c).r(),
                    "transition" => $f::state_transition(s, &<$signed>::uj(&v["x"]), validation(v), c).r(),
                    "in_slot" => $f::state_transition_block_in_slot(s, &<$signed>::uj(&v["x"]), validation(v), c).r(),
                    "verify_block" => $f::verify_block_signature(s, &<$signed>::uj(&v["x"]), c).r(),
                    // operations
                    "attestation" => $f::process_attestation(s, &<$att>::uj(&v["x"]), c).r(),
                    "proposer_slashing" => $f::process_proposer_slashing(s, &a(v, "x"), c).r(),
                    "attester_slashing" => $f::process_attester_slashing(s, &<$slashing>::uj(&v["x"]), c).r(),
                    "deposit" => $f::process_deposit(s, &a(v, "x"), c).r(),
                    "exit" => $f::process_voluntary_exit(s, &a(v, "x"), c).r(),
                    "slash" => $f::slash_validator(s, a(v, "i"), v.get("w").map(|w| usize::uj(w)), c).r(),
                    "initiate_exit" => $f::initiate_validator_exit(s, a(v, "i"), c).r(),
                    // epoch steps
                    "ep.justification" => $f::process_justification_and_finalization(s, c).r(),
                    "ep.rewards" => $f::process_rewards_and_penalties(s, c).r(),
                    "ep.registry" => $f::process_registry_updates(s, c).r(),
                    "ep.slashings" => $f::process_slashings(s, c).r(),
                    "ep.eth1_reset" => $f::process_eth1_data_reset(s, c).r(),
                    "ep.effective" => $f::process_effective_balance_updates(s, c).r(),
                    "ep.slashings_reset" => $f::process_slashings_reset(s, c).r(),
                    "ep.randao_reset" => $f::process_randao_mixes_reset(s, c).r(),
                    // queries
                    "q.committee" => $f::get_beacon_committee(s, a(v, "slot"), a(v, "x"), c).r(),
                    "q.committee_count" => $f::get_committee_count_per_slot(s, e(v), c).r(),
                    "q.proposer" => $f::get_beacon_proposer_index(s, c).r(),
                    "q.active" => $f::get_active_validator_indices(s, e(v)).r(),
                    "q.total_active" => $f::get_total_active_balance(s, c).r(),
                    "q.churn" => $f::get_validator_churn_limit(s, c).r(),
                    "q.seed" => Ok($f::get_seed(s, e(v), domain_type(&v["d"]), c).j()),
                    "q.domain" => match $f::get_domain(s, domain_type(&v["d"]), v.get("e").map(u64::uj), c) { Ok(d) => Ok(hex::encode(d).into()), Err(x) => Err(format!("{x:?}")) },
                    "q.block_root" => match $f::get_block_root_at_slot(s, a(v, "slot")) { Ok(r) => Ok(r.j()), Err(x) => Err(format!("{x:?}")) },
                    "q.epoch_root" => match $f::get_block_root(s, e(v), c) { Ok(r) => Ok(r.j()), Err(x) => Err(format!("{x:?}")) },
                    "q.mix" => Ok($f::get_randao_mix(s, e(v)).j()),
                    "q.epochs" => Ok(json!([$f::get_current_epoch(s, c).j(), $f::get_previous_epoch(s, c).j()])),
                    "q.eligible" => $f::get_eligible_validator_indices(s, c).collect::<Vec<usize>>().r(),
                    "q.shuffled" => $f::compute_shuffled_index(a(v, "i"), a(v, "n"), &a(v, "seed"), c).r(),
                    "q.shuffle_list" => Ok(jv(&$f::compute_shuffled_indices(&Vec::<usize>::from_iter(v["x"].as_array().unwrap().iter().map(usize::uj)), &a(v, "seed"), c))),
                    "q.attesting" => Ok({ let x = match $f::get_indexed_attestation(s, &<$att>::uj(&v["x"]), c) { Ok(x) => x, Err(x) => return Some(Err(format!("{x:?}"))) }; x.j() }),
                    "q.valid_genesis" => $f::is_valid_genesis_state(s, c).r(),
                    "q.genesis_block" => match $f::get_genesis_block(s) { Ok(message) => Ok(<$signed>::j(&$f::SignedBeaconBlock { message, ..Default::default() })), Err(x) => Err(format!("{x:?}")) },
                    $( $op => { let f = |$s: &mut $st, $a: &Value, $c: &Context| $e; f(s, v, c).r() } )*
                    _ => return None,
                })
            }
        }
    };
}
pub fn domain_type(v: &Value) -> ec::domains::DomainType {
    use ec::domains::DomainType::*;
    match v.as_str().unwrap() {
        "00000000" => BeaconProposer,
        "01000000" => BeaconAttester,
        "02000000" => Randao,
        "03000000" => Deposit,
        "04000000" => VoluntaryExit,
        "05000000" => SelectionProof,
        "06000000" => AggregateAndProof,
        "07000000" => SyncCommittee,
        "08000000" => SyncCommitteeSelectionProof,
        "09000000" => ContributionAndProof,
        "0a000000" => BlsToExecutionChange,
        x => panic!("harness: domain {x}"),
    }
}
fn none<T>(_: T) -> Option<AnyState> {
    None
}
macro_rules! altair_on { ($f:ident, $st:ty, $signed:ty, $body:ty, $att:ty, $slashing:ty, $any:expr, $up:expr; $($rest:tt)*) => {
    fork!($f, $st, $signed, $body, $att, $slashing, $any, $up;
        "ep.inactivity" => |s, _v, c| $f::process_inactivity_updates(s, c),
        "ep.participation" => |s, _v, _c| $f::process_participation_flag_updates(s),
        "ep.sync" => |s, _v, c| $f::process_sync_committee_updates(s, c),
        "sync" => |s, v, c| $f::process_sync_aggregate(s, &a(v, "x"), c),
        "q.next_sync" => |s, _v, c| $f::get_next_sync_committee(s, c).map(|x| x.j()),
        "q.next_sync_indices" => |s, _v, c| $f::get_next_sync_committee_indices(s, c),
        "q.flag_deltas" => |s, v, c| $f::get_flag_index_deltas(s, a(v, "k"), c),
        "q.inactivity_deltas" => |s, _v, c| $f::get_inactivity_penalty_deltas(s, c),
        "q.flags" => |s, v, c| $f::get_attestation_participation_flag_indices(s, &a(v, "x"), a(v, "delay"), c),
        "q.base_reward" => |s, v, c| $f::get_base_reward(s, a(v, "i"), c),
        "q.unslashed" => |s, v, c| $f::get_unslashed_participating_indices(s, a(v, "k"), a(v, "e"), c),
        $($rest)*);
} }
fork!(phase0, PState, PSigned, PBody, Att, Slashing, |s| Some(AnyState::Phase0(s)),
    |s, c| altair::upgrade_to_altair::<SPHR, HRL, VOTES, VRL, EPHV, EPSV, MVC, PAB, SYNC>(s, c).map(|x| Box::new(x) as Box<dyn St>).map_err(|e| format!("{e:?}"));
    "ep.history" => |s, _v, c| phase0::process_historical_roots_update(s, c),
    "ep.participation" => |s, _v, _c| phase0::process_participation_record_updates(s),
    "q.source_deltas" => |s, _v, c| phase0::get_source_deltas(s, c),
    "q.target_deltas" => |s, _v, c| phase0::get_target_deltas(s, c),
    "q.head_deltas" => |s, _v, c| phase0::get_head_deltas(s, c),
    "q.inclusion_deltas" => |s, _v, c| phase0::get_inclusion_delay_deltas(s, c),
    "q.inactivity_deltas" => |s, _v, c| phase0::get_inactivity_penalty_deltas(s, c),
);
altair_on!(altair, AState, ASigned, ABody, Att, Slashing, |s| Some(AnyState::Altair(s)),
    |s, c| Ok(Box::new(bellatrix::upgrade_to_bellatrix::<SPHR, HRL, VOTES, VRL, EPHV, EPSV, MVC, SYNC, LOGS, EXTRA>(s, c)));
    "ep.history" => |s, _v, c| altair::process_historical_roots_update(s, c),
);
altair_on!(bellatrix, BState, BSigned, BBody, Att, Slashing, |s| Some(AnyState::Bellatrix(s)),
    |s, c| Ok(Box::new(capella::upgrade_to_capella(s, c)));
    "ep.history" => |s, _v, c| bellatrix::process_historical_roots_update(s, c),
    "payload" => |s, v, c| bellatrix::process_execution_payload(s, &BBody::uj(&v["x"]), c),
    "q.execution_enabled" => |s, v, _c| bellatrix::is_execution_enabled(s, &BBody::uj(&v["x"])),
);
altair_on!(capella, CState, CSigned, CBody, Att, Slashing, |s| Some(AnyState::Capella(s)),
    |s, c| Ok(Box::new(deneb::upgrade_to_deneb(s, c)));
    "ep.history" => |s, _v, c| capella::process_historical_summaries_update(s, c),
    "payload" => |s, v, c| capella::process_execution_payload(s, &CBody::uj(&v["x"]), c),
    "withdrawals" => |s, v, c| capella::process_withdrawals(s, &CPayload::uj(&v["x"]), c),
    "bls_change" => |s, v, c| capella::process_bls_to_execution_change(s, &a(v, "x"), c),
    "q.withdrawals" => |s, _v, c| jv(&capella::get_expected_withdrawals(s, c)),
);
altair_on!(deneb, DState, DSigned, DBody, Att, Slashing, |s| Some(AnyState::Deneb(s)),
    |s, c| electra::upgrade_to_electra::<SPHR, HRL, VOTES, VRL, EPHV, EPSV, MVC, SYNC, LOGS, EXTRA, PBD, PPW, PC>(s, c).map(|x| Box::new(x) as Box<dyn St>).map_err(|e| format!("{e:?}"));
    "ep.history" => |s, _v, c| deneb::process_historical_summaries_update(s, c),
    "payload" => |s, v, c| deneb::process_execution_payload(s, &DBody::uj(&v["x"]), c),
    "withdrawals" => |s, v, c| deneb::process_withdrawals(s, &DPayload::uj(&v["x"]), c),
    "bls_change" => |s, v, c| deneb::process_bls_to_execution_change(s, &a(v, "x"), c),
    "q.withdrawals" => |s, _v, c| jv(&deneb::get_expected_withdrawals(s, c)),
    "q.activation_churn" => |s, _v, c| deneb::get_validator_activation_churn_limit(s, c),
);
altair_on!(electra, EState, ESigned, EBody, AttE, SlashingE, none, |_, _| Err("none".into());
    "ep.history" => |s, _v, c| electra::process_historical_summaries_update(s, c),
    "ep.pending_deposits" => |s, _v, c| electra::process_pending_balance_deposits(s, c),
    "ep.pending_consolidations" => |s, _v, c| electra::process_pending_consolidations(s, c),
    "payload" => |s, v, c| electra::process_execution_payload(s, &EBody::uj(&v["x"]), c),
    "withdrawals" => |s, v, c| electra::process_withdrawals(s, &EPayload::uj(&v["x"]), c),
    "bls_change" => |s, v, c| electra::process_bls_to_execution_change(s, &a(v, "x"), c),
    "withdrawal_request" => |s, v, c| electra::process_execution_layer_withdrawal_request(s, &a(v, "x"), c),
    "deposit_receipt" => |s, v, c| electra::process_deposit_receipt(s, &a(v, "x"), c),
    "consolidation" => |s, v, c| electra::process_consolidation(s, &a(v, "x"), c),
    "switch" => |s, v, c| electra::switch_to_compounding_validator(s, a(v, "i"), c),
    "queue_excess" => |s, v, c| electra::queue_excess_active_balance(s, a(v, "i"), c),
    "take_exit" => |s, v, c| electra::compute_exit_epoch_and_update_churn(s, a(v, "amount"), c),
    "take_consolidation" => |s, v, c| electra::compute_consolidation_epoch_and_update_churn(s, a(v, "amount"), c),
    "q.withdrawals" => |s, _v, c| jv(&electra::get_expected_withdrawals(s, c).0),
    "q.balance_churn" => |s, _v, c| electra::get_balance_churn_limit(s, c),
    "q.exit_churn" => |s, _v, c| electra::get_activation_exit_churn_limit(s, c),
    "q.consolidation_churn" => |s, _v, c| electra::get_consolidation_churn_limit(s, c),
    "q.pending_to_withdraw" => |s, v, _c| electra::get_pending_balance_to_withdraw(s, a(v, "i")),
    "q.active_balance" => |s, v, c| electra::get_active_balance(s, a(v, "i"), c),
);

pub fn state_of(v: &Value) -> Box<dyn St> {
    match v["fk"].as_str().expect("harness: fork name") {
        "phase0" => Box::new(PState::uj(v)),
        "altair" => Box::new(AState::uj(v)),
        "bellatrix" => Box::new(BState::uj(v)),
        "capella" => Box::new(CState::uj(v)),
        "deneb" => Box::new(DState::uj(v)),
        "electra" => Box::new(EState::uj(v)),
        f => panic!("harness: fork {f}"),
    }
}
pub fn default_state(f: &str) -> Value {
    match f {
        "phase0" => PState::default().json(),
        "altair" => AState::default().json(),
        "bellatrix" => BState::default().json(),
        "capella" => CState::default().json(),
        "deneb" => DState::default().json(),
        "electra" => EState::default().json(),
        f => panic!("harness: fork {f}"),
    }
}
pub fn default_signed(f: &str) -> Value {
    match f {
        "phase0" => PSigned::default().j(),
        "altair" => ASigned::default().j(),
        "bellatrix" => BSigned::default().j(),
        "capella" => CSigned::default().j(),
        "deneb" => DSigned::default().j(),
        "electra" => ESigned::default().j(),
        f => panic!("harness: fork {f}"),
    }
}
fn unany(s: AnyState) -> Box<dyn St> {
    match s {
        AnyState::Phase0(s) => Box::new(s),
        AnyState::Altair(s) => Box::new(s),
        AnyState::Bellatrix(s) => Box::new(s),
        AnyState::Capella(s) => Box::new(s),
        AnyState::Deneb(s) => Box::new(s),
    }
}
/// Applies a signed block of fork v.f through the executor.
pub fn execute(s: AnyState, v: &Value, c: &Context) -> (Box<dyn St>, Res) {
    let x = &v["x"];
    let b = match v["f"].as_str().unwrap() {
        "phase0" => AnySigned::Phase0(J::uj(x)),
        "altair" => AnySigned::Altair(J::uj(x)),
        "bellatrix" => AnySigned::Bellatrix(J::uj(x)),
        "capella" => AnySigned::Capella(J::uj(x)),
        "deneb" => AnySigned::Deneb(J::uj(x)),
        f => panic!("harness: fork {f}"),
    };
    let mut ex = Exec::new(s, c.clone());
    let r = match validation(v) {
        Validation::Enabled => ex.apply_block(&b).r(),
        w => ex.apply_block_with_validation(&b, w).r(),
    };
    (unany(ex.state), r)
}
/// Builds a genesis state of fork v.f.
pub fn genesis(v: &Value, c: &Context) -> Result<Box<dyn St>, String> {
    let deps: Vec<phase0::Deposit> = v["deposits"].as_array().unwrap().iter().map(J::uj).collect();
    let (h, t) = (a::<ec::primitives::Hash32>(v, "hash"), a::<u64>(v, "time"));
    macro_rules! g { ($e:expr) => { $e.map(|x| Box::new(x) as Box<dyn St>).map_err(|e| format!("{e:?}")) } }
    macro_rules! hdr { ($t:ty) => { v.get("header").map(|x| <$t>::uj(x)) } }
    match v["f"].as_str().unwrap() {
        "phase0" => g!(phase0::initialize_beacon_state_from_eth1::<SPHR, HRL, VOTES, VRL, EPHV, EPSV, MVC, PAB, PS, AS, ATTS, DEPS, EXITS>(h, t, &deps, c)),
        "altair" => g!(altair::initialize_beacon_state_from_eth1::<SPHR, HRL, VOTES, VRL, EPHV, EPSV, MVC, SYNC, PS, AS, ATTS, DEPS, EXITS>(h, t, &deps, c)),
        "bellatrix" => g!(bellatrix::initialize_beacon_state_from_eth1::<SPHR, HRL, VOTES, VRL, EPHV, EPSV, MVC, SYNC, PS, AS, ATTS, DEPS, EXITS, LOGS, EXTRA, TXB, TXS>(h, t, &deps, hdr!(bellatrix::ExecutionPayloadHeader<LOGS, EXTRA>).as_ref(), c)),
        "capella" => g!(capella::initialize_beacon_state_from_eth1::<SPHR, HRL, VOTES, VRL, EPHV, EPSV, MVC, SYNC, PS, AS, ATTS, DEPS, EXITS, LOGS, EXTRA, TXB, TXS, WDS, BLSC>(h, t, &deps, hdr!(capella::ExecutionPayloadHeader<LOGS, EXTRA>).as_ref(), c)),
        "deneb" => g!(deneb::initialize_beacon_state_from_eth1::<SPHR, HRL, VOTES, VRL, EPHV, EPSV, MVC, SYNC, PS, AS, ATTS, DEPS, EXITS, LOGS, EXTRA, TXB, TXS, WDS, BLSC, BLOBS>(h, t, &deps, hdr!(deneb::ExecutionPayloadHeader<LOGS, EXTRA>).as_ref(), c)),
        "electra" => g!(electra::initialize_beacon_state_from_eth1::<SPHR, HRL, VOTES, VRL, EPHV, EPSV, MVC, SYNC, PBD, PPW, PC, PS, MVS, MCPS, ASE, ATTSE, DEPS, EXITS, LOGS, EXTRA, TXB, TXS, WDS, RECEIPTS, WREQ, BLSC, BLOBS, CONS>(h, t, &deps, hdr!(electra::ExecutionPayloadHeader<LOGS, EXTRA>).as_ref(), c)),
        f => panic!("harness: fork {f}"),
    }
}
