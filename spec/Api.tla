--------------------------------- MODULE Api ---------------------------------
(* The beacon node's HTTP interface (ethereum/beacon-APIs) as a client sees it: the request each call makes and what each *)
(* reply means to it.                                                                                                     *)
EXTENDS Layout
Text == [t |-> "text"]
Texts == [t |-> "texts"]                      \* any texts by name
Flag == [t |-> "flag"]                        \* true or false, or left out
Enum(vs) == [t |-> "enum", vs |-> vs]
Num(n) == [t |-> "num", n |-> n]              \* a plain number below n
LstA(e) == Lst(e, "1000000")
ValidatorStates == <<"pending_initialized", "pending_queued", "active_ongoing", "active_exiting", "active_slashed", "exited_unslashed",
                     "exited_slashed", "withdrawal_possible", "withdrawal_done", "active", "pending", "exited", "withdrawal">>
PeerStates == <<"disconnected", "connecting", "connected", "disconnecting">>
Directions == <<"inbound", "outbound">>
Validations == <<"gossip", "consensus", "consensus_and_equivocation">>
ForkNames == <<"phase0", "altair", "bellatrix", "capella", "deneb", "electra">>

\* ---- what replies carry
RootT == Cont(<<F("root", B32)>>)
GenesisT == Cont(<<F("genesis_time", U64), F("genesis_validators_root", B32), F("genesis_fork_version", B4)>>)
FinalityT == Cont(<<F("previous_justified", CheckpointT), F("current_justified", CheckpointT), F("finalized", CheckpointT)>>)
ValidatorSummaryT == Cont(<<F("index", U64), F("balance", U64), F("status", Enum(ValidatorStates)), F("validator", ValidatorT)>>)
BalanceT == Cont(<<F("index", U64), F("balance", U64)>>)
CommitteeT == Cont(<<F("index", U64), F("slot", U64), F("validators", LstA(U64))>>)
SyncCommitteesT == Cont(<<F("validators", LstA(U64)), F("validator_aggregates", LstA(LstA(U64)))>>)
RandaoT == Cont(<<F("randao", B32)>>)
HeaderSummaryT == Cont(<<F("root", B32), F("canonical", Bool), F("header", SignedHeaderT)>>)
SnapshotT == Cont(<<F("finalized", LstA(B32)), F("deposit_root", B32), F("deposit_count", U64), F("execution_block_hash", B32), F("execution_block_height", U64)>>)
ContractT == Cont(<<F("chain_id", U64), F("address", B20)>>)
HeadT == Cont(<<F("slot", U64), F("root", B32), F("execution_optimistic", Flag)>>)
IdentityT == Cont(<<F("peer_id", [t |-> "peer"]), F("enr", Text), F("p2p_addresses", LstA(Text)), F("discovery_addresses", LstA(Text)), F("metadata", MetaDataT["altair"])>>)
PeerT == Cont(<<F("peer_id", [t |-> "peer"]), F("enr", Text), F("last_seen_p2p_address", Text), F("state", Enum(PeerStates)), F("direction", Enum(Directions))>>)
PeerCountT == Cont(<<F("disconnected", U64), F("connecting", U64), F("connected", U64), F("disconnecting", U64)>>)
VersionT == Cont(<<F("version", Text)>>)
SyncingT == Cont(<<F("head_slot", U64), F("sync_distance", U64), F("is_syncing", Bool)>>)
AttesterDutyT == Cont(<<F("public_key", B48), F("validator_index", U64), F("committee_index", U64), F("committee_length", U64),
   F("committees_at_slot", U64), F("validator_committee_index", U64), F("slot", U64)>>)
ProposerDutyT == Cont(<<F("public_key", B48), F("validator_index", U64), F("slot", U64)>>)
SyncDutyT == Cont(<<F("public_key", B48), F("validator_index", U64), F("validator_sync_committee_indices", LstA(U64))>>)
LivenessT == Cont(<<F("index", U64), F("is_live", Bool)>>)
\* what requests carry
SubscriptionT == Cont(<<F("validator_index", U64), F("committee_index", U64), F("committees_at_slot", U64), F("slot", U64), F("is_aggregator", Bool)>>)
SyncSubscriptionT == Cont(<<F("validator_index", U64), F("sync_committee_indices", LstA(U64)), F("until_epoch", U64)>>)
PreparationT == Cont(<<F("validator_index", U64), F("fee_recipient", B20)>>)
SubmissionT == Cont(<<F("signed_block", SignedBlockT["deneb"]), F("kzg_proofs", LstA(B48)), F("blobs", LstA(BlobT))>>)
AttributesT(f) == Cont(<<F("timestamp", U64), F("prev_randao", B32), F("suggested_fee_recipient", B20)>>
   \o (IF f = "bellatrix" THEN <<>> ELSE <<F("withdrawals", LstA(WithdrawalT))>>)
   \o (IF f = "deneb" THEN <<F("parent_beacon_block_root", B32)>> ELSE <<>>))
AttributesEventT(f) == Cont(<<F("proposer_index", U64), F("proposal_slot", U64), F("parent_block_number", U64), F("parent_block_root", B32),
   F("parent_block_hash", B32), F("payload_attributes", AttributesT(f))>>)

\* ---- every call: what it is given and what comes back
\* replies: data (the member `data`, or one member of it), versioned (with the fork's name; data by fork), duties (with the root
\* they depend on), updates (a list of versioned values), events (one versioned value after the other), health (the status alone),
\* none (acknowledged or refused)
Data(ty) == [kind |-> "data", at |-> "", tys |-> [all |-> ty]]
Inside(ty, m) == [kind |-> "data", at |-> m, tys |-> [all |-> ty]]
ByFork(fs, n) == TLCEval([f \in fs |-> Containers[f][n]])
Versioned(fs, n) == [kind |-> "versioned", at |-> "", tys |-> ByFork(fs, n)]
Plainly(ty) == [kind |-> "versioned", at |-> "", tys |-> [deneb |-> ty]]
Duties(ty) == [kind |-> "duties", at |-> "", tys |-> [all |-> LstA(ty)]]
None == [kind |-> "none", at |-> "", tys |-> [all |-> Bool]]
Main5 == {"phase0", "altair", "bellatrix", "capella", "deneb"}
G(args, reply) == [args |-> args, body |-> [t |-> "none"], reply |-> reply]
P(args, body, reply) == [args |-> args, body |-> body, reply |-> reply]
State == <<"state_id", "state">>
Block == <<"block_id", "block">>
Endpoints == [
  get_genesis_details |-> G(<<>>, Data(GenesisT)),
  get_state_root |-> G(<<State>>, Inside(RootT, "root")),
  get_fork |-> G(<<State>>, Data(ForkT)),
  get_finality_checkpoints |-> G(<<State>>, Data(FinalityT)),
  get_validators |-> G(<<State, <<"ids", "validators">>, <<"statuses", "statuses">>>>, Data(LstA(ValidatorSummaryT))),
  get_validator |-> G(<<State, <<"id", "validator">>>>, Data(ValidatorSummaryT)),
  get_balances |-> G(<<State, <<"ids", "validators">>>>, Data(LstA(BalanceT))),
  get_all_committees |-> G(<<State>>, Data(LstA(CommitteeT))),
  get_committees |-> G(<<State, <<"epoch", "maybe">>, <<"index", "maybe">>, <<"slot", "maybe">>>>, Data(LstA(CommitteeT))),
  get_sync_committees |-> G(<<State, <<"epoch", "maybe">>>>, Data(SyncCommitteesT)),
  get_randao |-> G(<<State, <<"epoch", "maybe">>>>, Inside(RandaoT, "randao")),
  get_beacon_header_at_head |-> G(<<>>, [Data(LstA(HeaderSummaryT)) EXCEPT !.kind = "first"]),
  get_beacon_header_for_slot |-> G(<<<<"slot", "u64">>>>, [Data(LstA(HeaderSummaryT)) EXCEPT !.kind = "first"]),
  get_beacon_header_for_parent_root |-> G(<<<<"root", "root">>>>, [Data(LstA(HeaderSummaryT)) EXCEPT !.kind = "first"]),
  get_beacon_header |-> G(<<Block>>, Data(HeaderSummaryT)),
  post_signed_blinded_beacon_block |-> P(<<>>, SignedT(BlindedBlockT["deneb"]), None),
  post_signed_blinded_beacon_block_v2 |-> P(<<<<"fork", "fork">>, <<"validation", "validation">>>>, SignedT(BlindedBlockT["deneb"]), None),
  post_signed_beacon_block |-> P(<<>>, SignedBlockT["deneb"], None),
  post_signed_beacon_block_v2 |-> P(<<<<"fork", "fork">>, <<"validation", "validation">>>>, SubmissionT, None),
  get_beacon_block |-> G(<<Block>>, Versioned(Main5, "SignedBeaconBlock")),
  get_beacon_block_root |-> G(<<Block>>, Inside(RootT, "root")),
  get_attestations_from_beacon_block |-> G(<<Block>>, Data(LstA(AttestationT("phase0")))),
  get_blob_sidecars |-> G(<<Block, <<"indices", "indices">>>>, Data(LstA(SidecarT))),
  get_deposit_snapshot |-> G(<<>>, Data(SnapshotT)),
  get_blinded_block |-> G(<<Block>>, Versioned(Execs, "SignedBlindedBeaconBlock")),
  get_light_client_bootstrap |-> G(<<<<"root", "root">>>>, Data(LcBootstrapT["altair"])),
  get_light_client_updates |-> G(<<<<"start", "u64">>, <<"count", "u64">>>>, [kind |-> "updates", at |-> "", tys |-> [altair |-> LcUpdateT["altair"]]]),
  get_light_client_finality_update |-> G(<<>>, Data(LcFinalityT["altair"])),
  get_light_client_optimistic_update |-> G(<<>>, Data(LcOptimisticT["altair"])),
  get_attestations_from_pool |-> G(<<<<"slot", "maybe">>, <<"index", "maybe">>>>, Data(LstA(AttestationT("phase0")))),
  post_attestations |-> P(<<>>, LstA(AttestationT("phase0")), None),
  get_attester_slashings_from_pool |-> G(<<>>, Data(LstA(AttesterSlashingT("phase0")))),
  post_attester_slashing |-> P(<<>>, AttesterSlashingT("phase0"), None),
  get_proposer_slashings_from_pool |-> G(<<>>, Data(LstA(ProposerSlashingT))),
  post_proposer_slashing |-> P(<<>>, ProposerSlashingT, None),
  post_sync_committee_messages |-> P(<<>>, LstA(SyncMessageT), None),
  get_voluntary_exits_from_pool |-> G(<<>>, Data(LstA(SignedVoluntaryExitT))),
  post_signed_voluntary_exit |-> P(<<>>, SignedVoluntaryExitT, None),
  get_bls_to_execution_changes |-> G(<<>>, Data(LstA(SignedBlsChangeT))),
  post_bls_to_execution_changes |-> P(<<>>, LstA(SignedBlsChangeT), None),
  get_expected_withdrawals |-> G(<<State, <<"slot", "maybe">>>>, Data(LstA(WithdrawalT))),
  get_fork_schedule |-> G(<<>>, Data(LstA(ForkT))),
  get_spec |-> G(<<>>, Data(Texts)),
  get_deposit_contract_address |-> G(<<>>, Data(ContractT)),
  get_state |-> G(<<State>>, Versioned(Main5, "BeaconState")),
  get_heads |-> G(<<>>, Data(LstA(HeadT))),
  get_events |-> G(<<>>, [kind |-> "events", at |-> "", tys |-> [f \in Execs |-> AttributesEventT(f)]]),
  get_node_identity |-> G(<<>>, Data(IdentityT)),
  get_node_peers |-> G(<<<<"states", "peerstates">>, <<"directions", "directions">>>>, Data(LstA(PeerT))),
  get_peer |-> G(<<<<"peer", "peer">>>>, Data(PeerT)),
  get_peer_summary |-> G(<<>>, Data(PeerCountT)),
  get_node_version |-> G(<<>>, Inside(VersionT, "version")),
  get_sync_status |-> G(<<>>, Data(SyncingT)),
  get_health |-> G(<<>>, [None EXCEPT !.kind = "health"]),
  get_attester_duties |-> P(<<<<"epoch", "u64">>>>, LstA(U64), Duties(AttesterDutyT)),
  get_proposer_duties |-> G(<<<<"epoch", "u64">>>>, Duties(ProposerDutyT)),
  get_sync_committee_duties |-> P(<<<<"epoch", "u64">>>>, LstA(U64), Data(LstA(SyncDutyT))),
  get_block_proposal |-> G(<<<<"slot", "u64">>, <<"randao", "signature">>, <<"graffiti", "mayberoot">>>>, Versioned(Main5, "BeaconBlock")),
  get_blinded_block_proposal |-> G(<<<<"slot", "u64">>, <<"randao", "signature">>, <<"graffiti", "mayberoot">>>>, Versioned(Execs, "BlindedBeaconBlock")),
  get_attestation_data |-> G(<<<<"slot", "u64">>, <<"index", "u64">>>>, Data(AttDataT)),
  get_attestation_aggregate |-> G(<<<<"root", "root">>, <<"slot", "u64">>>>, Data(AttestationT("phase0"))),
  post_aggregates_with_proofs |-> P(<<>>, LstA(SignedT(AggregateAndProofT)), None),
  subscribe_subnets_for_attestation_committees |-> P(<<>>, LstA(SubscriptionT), None),
  subscribe_subnets_for_sync_committees |-> P(<<>>, LstA(SyncSubscriptionT), None),
  get_sync_committee_contribution |-> G(<<<<"slot", "u64">>, <<"index", "u64">>, <<"root", "root">>>>, Data(ContributionT)),
  post_sync_committee_contributions_with_proofs |-> P(<<>>, LstA(SignedT(ContributionAndProofT)), None),
  prepare_proposers |-> P(<<>>, LstA(PreparationT), None),
  register_validators_with_builders |-> P(<<>>, LstA(SignedT(RegistrationT)), None),
  post_liveness |-> P(<<<<"epoch", "u64">>>>, LstA(U64), Data(LstA(LivenessT)))]

\* ---- the request
Maybe(a, n, k) == IF n \in DOMAIN a THEN {<<k, a[n]>>} ELSE {}
RECURSIVE Commas(_)
Commas(s) == IF Len(s) = 1 THEN s[1] ELSE s[1] \o "," \o Commas(Tail(s))
ListOf(a, n, k) == IF a[n] = <<>> THEN {} ELSE {<<k, Commas(a[n])>>}
B == "eth/v1/beacon/"
V == "eth/v1/validator/"
Path(op, a) ==
  CASE op = "get_genesis_details" -> B \o "genesis"
    [] op = "get_state_root" -> B \o "states/" \o a.state_id \o "/root"
    [] op = "get_fork" -> B \o "states/" \o a.state_id \o "/fork"
    [] op = "get_finality_checkpoints" -> B \o "states/" \o a.state_id \o "/finality_checkpoints"
    [] op = "get_validators" -> B \o "states/" \o a.state_id \o "/validators"
    [] op = "get_validator" -> B \o "states/" \o a.state_id \o "/validators/" \o a.id
    [] op = "get_balances" -> B \o "states/" \o a.state_id \o "/validator_balances"
    [] op \in {"get_committees", "get_all_committees"} -> B \o "states/" \o a.state_id \o "/committees"
    [] op = "get_sync_committees" -> B \o "states/" \o a.state_id \o "/sync_committees"
    [] op = "get_randao" -> B \o "states/" \o a.state_id \o "/randao"
    [] op \in {"get_beacon_header_at_head", "get_beacon_header_for_slot", "get_beacon_header_for_parent_root"} -> B \o "headers"
    [] op = "get_beacon_header" -> B \o "headers/" \o a.block_id
    [] op = "post_signed_blinded_beacon_block" -> B \o "blinded_blocks"
    [] op = "post_signed_blinded_beacon_block_v2" -> "eth/v2/beacon/blinded_blocks"
    [] op = "post_signed_beacon_block" -> B \o "blocks"
    [] op = "post_signed_beacon_block_v2" -> "eth/v2/beacon/blocks"
    [] op = "get_beacon_block" -> "eth/v2/beacon/blocks/" \o a.block_id
    [] op = "get_beacon_block_root" -> B \o "blocks/" \o a.block_id \o "/root"
    [] op = "get_attestations_from_beacon_block" -> B \o "blocks/" \o a.block_id \o "/attestations"
    [] op = "get_blob_sidecars" -> B \o "blob_sidecars/" \o a.block_id
    [] op = "get_deposit_snapshot" -> B \o "deposit_snapshot"
    [] op = "get_blinded_block" -> B \o "blinded_blocks/" \o a.block_id
    [] op = "get_light_client_bootstrap" -> B \o "light_client/bootstrap/" \o a.root
    [] op = "get_light_client_updates" -> B \o "light_client/updates"
    [] op = "get_light_client_finality_update" -> B \o "light_client/finality_update"
    [] op = "get_light_client_optimistic_update" -> B \o "light_client/optimistic_update"
    [] op \in {"get_attestations_from_pool", "post_attestations"} -> B \o "pool/attestations"
    [] op \in {"get_attester_slashings_from_pool", "post_attester_slashing"} -> B \o "pool/attester_slashings"
    [] op \in {"get_proposer_slashings_from_pool", "post_proposer_slashing"} -> B \o "pool/proposer_slashings"
    [] op = "post_sync_committee_messages" -> B \o "pool/sync_committees"
    [] op \in {"get_voluntary_exits_from_pool", "post_signed_voluntary_exit"} -> B \o "pool/voluntary_exits"
    [] op \in {"get_bls_to_execution_changes", "post_bls_to_execution_changes"} -> B \o "pool/bls_to_execution_changes"
    [] op = "get_expected_withdrawals" -> "eth/v1/builder/states/" \o a.state_id \o "/expected_withdrawals"
    [] op = "get_fork_schedule" -> "eth/v1/config/fork_schedule"
    [] op = "get_spec" -> "eth/v1/config/spec"
    [] op = "get_deposit_contract_address" -> "eth/v1/config/deposit_contract"
    [] op = "get_state" -> "eth/v2/debug/beacon/states/" \o a.state_id
    [] op = "get_heads" -> "eth/v2/debug/beacon/heads"
    [] op = "get_events" -> "eth/v1/events"
    [] op = "get_node_identity" -> "eth/v1/node/identity"
    [] op = "get_node_peers" -> "eth/v1/node/peers"
    [] op = "get_peer" -> "eth/v1/node/peers/" \o a.peer
    [] op = "get_peer_summary" -> "eth/v1/node/peer_count"
    [] op = "get_node_version" -> "eth/v1/node/version"
    [] op = "get_sync_status" -> "eth/v1/node/syncing"
    [] op = "get_health" -> "eth/v1/node/health"
    [] op = "get_attester_duties" -> V \o "duties/attester/" \o a.epoch
    [] op = "get_proposer_duties" -> V \o "duties/proposer/" \o a.epoch
    [] op = "get_sync_committee_duties" -> V \o "duties/sync/" \o a.epoch
    [] op = "get_block_proposal" -> "eth/v2/validator/blocks/" \o a.slot
    [] op = "get_blinded_block_proposal" -> V \o "blinded_blocks/" \o a.slot
    [] op = "get_attestation_data" -> V \o "attestation_data"
    [] op = "get_attestation_aggregate" -> V \o "aggregate_attestation"
    [] op = "post_aggregates_with_proofs" -> V \o "aggregate_and_proofs"
    [] op = "subscribe_subnets_for_attestation_committees" -> V \o "beacon_committee_subscriptions"
    [] op = "subscribe_subnets_for_sync_committees" -> V \o "sync_committee_subscriptions"
    [] op = "get_sync_committee_contribution" -> V \o "sync_committee_contribution"
    [] op = "post_sync_committee_contributions_with_proofs" -> V \o "contribution_and_proofs"
    [] op = "prepare_proposers" -> V \o "prepare_beacon_proposer"
    [] op = "register_validators_with_builders" -> V \o "register_validator"
    [] op = "post_liveness" -> V \o "liveness/" \o a.epoch
Query(op, a) ==
  CASE op = "get_validators" -> ListOf(a, "ids", "id") \cup ListOf(a, "statuses", "status")
    [] op = "get_balances" -> ListOf(a, "ids", "id")
    [] op = "get_committees" -> Maybe(a, "epoch", "epoch") \cup Maybe(a, "index", "index") \cup Maybe(a, "slot", "slot")
    [] op \in {"get_sync_committees", "get_randao"} -> Maybe(a, "epoch", "epoch")
    [] op = "get_beacon_header_for_slot" -> {<<"slot", a.slot>>}
    [] op = "get_beacon_header_for_parent_root" -> {<<"parent_root", a.root>>}
    [] op \in {"post_signed_blinded_beacon_block_v2", "post_signed_beacon_block_v2"} -> Maybe(a, "validation", "broadcast_validation")
    [] op = "get_blob_sidecars" -> ListOf(a, "indices", "indices")
    [] op = "get_light_client_updates" -> {<<"start_period", a.start>>, <<"count", a.count>>}
    [] op = "get_attestations_from_pool" -> Maybe(a, "slot", "slot") \cup Maybe(a, "index", "committee_index")
    [] op = "get_expected_withdrawals" -> Maybe(a, "slot", "proposal_slot")
    [] op = "get_events" -> {<<"topics", "payload_attributes">>}
    [] op = "get_node_peers" -> ListOf(a, "states", "state") \cup ListOf(a, "directions", "direction")
    [] op \in {"get_block_proposal", "get_blinded_block_proposal"} -> {<<"randao_reveal", a.randao>>} \cup Maybe(a, "graffiti", "graffiti")
    [] op = "get_attestation_data" -> {<<"slot", a.slot>>, <<"committee_index", a.index>>}
    [] op = "get_attestation_aggregate" -> {<<"attestation_data_root", a.root>>, <<"slot", a.slot>>}
    [] op = "get_sync_committee_contribution" -> {<<"slot", a.slot>>, <<"subcommittee_index", a.index>>, <<"beacon_block_root", a.root>>}
    [] OTHER -> {}
AsRecord(pairs) == TLCEval([k \in {p[1] : p \in pairs} |-> (CHOOSE p \in pairs : p[1] = k)[2]])
Request(op, a) ==
  LET post == Endpoints[op].body.t # "none" IN
  [method |-> IF post THEN "POST" ELSE "GET", at |-> a.base \o Path(op, a), query |-> [pairs |-> AsRecord(Query(op, a))],
   body |-> IF post THEN "as given" ELSE "none", type |-> IF post THEN "application/json" ELSE "none",
   version |-> IF "fork" \in DOMAIN a THEN a.fork ELSE "none"]

\* ---- the reply
Refusal(r) == IF r.body.code \in 100..999 THEN "refused as told" ELSE "err"
Whole(ty, body) == "data" \in DOMAIN body /\ Fits(ty, body.data)
Known(rep, body) == "version" \in DOMAIN body /\ \E k \in 1..Len(ForkNames) : ForkNames[k] = body.version
Meaning(rep, r) ==
  CASE rep.kind = "data" -> IF Whole(rep.tys.all, r.body) THEN "/data" \o (IF rep.at = "" THEN "" ELSE "/" \o rep.at) ELSE "err"
    [] rep.kind = "first" -> IF ~Whole(rep.tys.all, r.body) \/ Len(r.body.data) = 0 THEN "err" ELSE "/data/0"
    [] rep.kind = "versioned" -> IF Known(rep, r.body) /\ "data" \in DOMAIN r.body THEN (IF Fits(rep.tys[r.of], r.body.data) THEN "/data" ELSE "err") ELSE "err"
    [] rep.kind = "duties" -> IF Whole(rep.tys.all, r.body) /\ "dependent_root" \in DOMAIN r.body /\ Fits(B32, r.body.dependent_root) THEN "/data and its root" ELSE "err"
    [] rep.kind = "updates" -> IF \A k \in 1..Len(r.body) : Known(rep, r.body[k]) /\ Whole(rep.tys.altair, r.body[k]) THEN "each /data" ELSE "err"
    [] rep.kind = "events" -> TLCEval([k \in 1..Len(r.body) |->
         IF Known(rep, r.body[k]) /\ "data" \in DOMAIN r.body[k] /\ Fits(rep.tys[r.of], r.body[k].data) THEN "same" ELSE "err"])
Result(op, r) ==
  LET rep == Endpoints[op].reply IN
  CASE r.kind = "broken" -> "err"
    [] rep.kind = "health" -> CASE r.status = 200 -> "Ready" [] r.status = 206 -> "Syncing" [] r.status = 503 -> "NotInitialized" [] OTHER -> "Unknown"
    [] rep.kind = "none" /\ r.status \in {200, 202} -> "ok"
    [] r.kind = "error" -> Refusal(r)
    [] r.kind = "junk" -> "err"
    [] rep.kind = "none" -> "err"
    [] OTHER -> Meaning(rep, r)
\* ---- identifiers as text
IsDec(s) == Len(s) > 0 /\ \A k \in 1..Len(s) : \E d \in 0..9 : ToString(d) = SubSeq(s, k, k)
IsHex32(s) == Len(s) = 66 /\ SubSeq(s, 1, 2) = "0x" /\ \A k \in 3..66 : \E d \in 1..16 : HexDigits[d] = SubSeq(s, k, k)
StateName(s) == IF s \in {"head", "genesis", "finalized", "justified"} \/ IsHex32(s) \/ (IsDec(s) /\ BLeq(s, BFromLE(Repeat("ff", 8)))) THEN s ELSE "err"
ApiExp(c) ==
  LET op == SubSeq(c.op, 5, Len(c.op)) IN
  IF op = "state_name" THEN StateName(c.a.text)
  ELSE [sent |-> <<Request(op, c.a)>>, result |-> Result(op, c.a.reply)]
=============================================================================
