#!/usr/bin/env python3
"""Writes properties.jsonl. One P(...) per property."""
import json, os
EC = "ethereum-consensus/src/"
OUT = []
def P(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    assert len(title) <= 80, (id, len(title))
    OUT.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=[(f if f.startswith(("spec-gen", "beacon-api")) else EC + f) for f in files],
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     observe_at=list(observe), hook_needed=None)))

NOT_RUN = "The crate's spec-test vectors are not available offline and no unit test runs this code; vectors would also only sample it."

P("P01", "Clock conversions between time, slots and epochs are exact",
  "For every genesis time, slot length, epoch length and clock reading, the clock reports no slot and no epoch strictly before genesis and otherwise exactly floor((now - genesis) / seconds_per_slot) and floor(slot / slots_per_epoch), for second- and nanosecond-precision inputs alike. The timestamp of a slot is genesis + slot * seconds_per_slot and converts back to that slot; the duration until a slot or until the next slot is exactly the remaining nanoseconds, saturating at zero for past slots and measured to genesis before genesis.",
  ["inputs", "configurations"], "all genesis times, slot lengths, epoch lengths, slots and nanosecond clock readings, including readings one nanosecond either side of genesis and of slot boundaries",
  "Two tests sample one slot length, genesis 0 and 10 and a dozen readings; boundaries, other lengths and large values are not reached.",
  ["clock.rs"], [("Clock / convert_* functions", "clock.rs"), ("TimeProvider", "clock.rs")],
  ["clock::Clock public methods with a custom TimeProvider"])
P("P02", "The slot stream yields the current slot, then each next slot on time",
  "A slot stream first yields the slot current at its creation (nothing immediately if that is before genesis), then yields once per timer expiry the slot the clock reads at that moment and re-arms the timer for the start of the following slot. Hence with a steadily advancing clock it yields every slot exactly once, in increasing order, never before the slot has begun, starting with slot 0 when created before genesis.",
  ["schedules", "histories"], "all creation times (before genesis, at, inside and at the edge of a slot) and all sequences of clock advances between polls",
  "One test polls with a fake clock at one slot length; creation before genesis, skipped slots, and timer/clock interleavings are not explored.",
  ["clock.rs"], [("SlotStream::poll_next", "clock.rs"), ("into_stream", "clock.rs")],
  ["SlotStream under tokio's paused time with a controlled TimeProvider"])
P("P03", "Presets, configs and network contexts carry the published values",
  "Every constant of the mainnet and minimal presets, and every runtime configuration value (genesis, fork versions and epochs, timing, churn, deposit contract, blob limits) exposed for mainnet, sepolia, goerli, holesky, hoodi and minimal equals the published consensus-specs/eth-clients value (Electra, whose rules here are those of v1.5.0-alpha.2, stays unscheduled except on hoodi). The context built for a network exposes exactly that network's preset and configuration, unchanged and in the right fields, and derived bounds agree with the constants they derive from.",
  ["configurations"], "every network/preset, every field",
  "No test compares any constant; a wrong value compiles and passes.",
  ["configs/mainnet.rs", "configs/minimal.rs", "configs/sepolia.rs", "configs/goerli.rs", "configs/holesky.rs", "configs/hoodi.rs", "phase0/presets/mainnet.rs", "phase0/presets/minimal.rs", "altair/presets/mod.rs", "state_transition/context.rs"],
  [("Context::for_*", "state_transition/context.rs"), ("preset constants", "*/presets/*.rs")], ["Context fields", "pub const items"])
P("P04", "Fork schedule: the active fork and its version follow the configured epochs",
  "For every context whose fork epochs are non-decreasing and every slot or epoch, the fork reported is the latest one whose activation epoch is not after that epoch, and the fork version reported is that fork's configured version. Forks map to and from their lower-case names (phase0, altair, bellatrix, capella, deneb, electra), and no other text denotes a fork.",
  ["inputs", "configurations"], "all epochs and slots around every boundary, all non-decreasing schedules including simultaneous and never-scheduled forks",
  "No test calls the schedule functions; only single values would be sampled.",
  ["fork.rs", "state_transition/context.rs"], [("Context::fork_for / fork_version_for", "state_transition/context.rs"), ("Fork", "fork.rs")], ["Context::fork_for", "Fork ordering and serde"])
P("P05", "Signing domains, fork digests and signing roots bind type, fork and chain",
  "Each signing domain is the 4-byte domain type (with the published numeric code, little-endian) followed by the first 28 bytes of the fork-data root of the fork version and genesis validators root; the version used for a message is the previous fork version exactly when the message's epoch precedes the state's fork epoch, and defaults to the state's current epoch. Fork digests are the first 4 bytes of the same root, the signing root is the root of (object root, domain), and distinct domain codes, versions or chains never share a domain (application mask and application builder have the same published code).",
  ["inputs", "configurations"], "all domain types, fork versions, genesis roots, state fork records and message epochs",
  "No test covers domain computation; one wrong code or a swapped version is invisible to compile and tests.",
  ["domains.rs", "signing.rs", "phase0/helpers.rs", "deneb/helpers.rs"], [("compute_domain/get_domain/compute_fork_digest", "phase0/helpers.rs"), ("DomainType::as_bytes", "domains.rs"), ("compute_signing_root", "signing.rs")], ["public helper functions"])
P("P06", "Network identities map consistently to names, genesis times and contexts",
  "Each well-known network converts to and from its lower-case name, any other string denotes a custom network, and converting a network to text and back yields the same network. The genesis time known for a network and its context agree with that network's published values, and unknown networks yield no made-up genesis time.",
  ["inputs", "configurations"], "all known networks and arbitrary other names",
  "No test exercises network names or genesis lookup.",
  ["networks.rs", "state_transition/context.rs", "clock.rs"], [("Network", "networks.rs"), ("Network::typical_genesis_time / Context::try_from", "networks.rs, state_transition/context.rs")], ["Network Display/From/serde", "Context::try_from(Network)"])
P("P07", "API text encodings of bytes and integers round-trip exactly",
  "Byte values serialize as '0x' followed by two lower-case hex digits per byte and deserialize back to the same bytes; integers (including 256-bit ones) serialize as decimal strings, sequences of integers as sequences of such strings, and deserialize back to the same value. Values decode alike from text, readers and parsed JSON, with or without the '0x' prefix. Malformed text - odd or non-hex digits, wrong length for fixed-size values, over-long for bounded ones, non-decimal or out-of-range numbers - is rejected with an error and never accepted as a different value.",
  ["inputs"], "all byte strings and integers, all malformed texts",
  "One test formats a single value; decoding, malformed input and bounds are not tested.",
  ["serde.rs", "ssz/byte_list.rs", "ssz/byte_vector.rs", "primitives.rs"], [("serde::{as_hex, as_str, seq_of_str, try_bytes_from_hex_str}", "serde.rs"), ("ByteList/ByteVector", "ssz/")], ["serde_json to/from"])
P("P08", "SSZ layout, roots and JSON names of every container follow the specification",
  "For every fork, each consensus container (states, blocks, bodies, payloads, operations, sidecars, light-client and validator types) has exactly the specified fields in the specified order with the specified SSZ types and limits, so that its serialization, hash tree root and JSON object are those of the consensus specification. Serialization and JSON both decode back to an equal value.",
  ["inputs", "configurations"], "all containers of all forks, arbitrary field values including empty, partial and full lists",
  "Field order, types and limits are only checked by external vectors that are not run here.",
  ["phase0/beacon_state.rs", "phase0/operations.rs", "electra/beacon_state.rs", "electra/operations.rs", "deneb/execution_payload.rs"],
  [("derived SimpleSerialize / serde", "*/*.rs")], ["hash_tree_root", "serialize/deserialize", "serde_json"])
P("P09", "Fork-polymorphic types dispatch every accessor to the wrapped fork's value",
  "A fork-polymorphic state, block, body, payload or header reports as its version the fork of the value it wraps; every accessor returns that value's own field, and returns nothing exactly for fields the fork does not have. Decoding JSON yields the newest fork (phase0 to deneb) all of whose fields the input has with valid values, nothing when there is none, and ignores unknown members; re-encoding reproduces the input when it has exactly one fork's members. References and mutable views agree with the value.",
  ["inputs", "configurations"], "all forks, all accessors, all wrapped values",
  "The 10k generated lines have no tests; a swapped arm compiles.",
  ["types/beacon_state.rs", "types/beacon_block.rs", "types/beacon_block_body.rs", "types/execution_payload.rs", "types/signed_beacon_block.rs"],
  [("generated accessors", "types/*.rs")], ["types::* accessors, version(), serde"])
P("P10", "Merkle inclusion proofs accept exactly the valid branches",
  "A Merkle branch is accepted exactly when hashing the leaf with the given siblings in the order fixed by the index yields the given root; branches of the wrong length are never accepted. A blob sidecar's inclusion proof verifies exactly when its commitment is the one at the sidecar's index in the block body whose root is in the signed header. The published generalized indices and branch depths for light clients are those of the fields they name.",
  ["inputs"], "all trees, leaves, indices and branches, valid and corrupted in any one place",
  "No test calls proof verification with corrupted branches or other indices.",
  ["deneb/blob_sidecar.rs", "phase0/block_processing.rs", "altair/light_client.rs", "capella/light_client.rs"], [("is_valid_merkle_branch use", "phase0/block_processing.rs"), ("verify_blob_sidecar_inclusion_proof", "deneb/blob_sidecar.rs"), ("*_INDEX, *_FLOOR_LOG_2", "altair,capella/light_client.rs")], ["public functions"])
P("P11", "Slot advance records history exactly and runs each epoch transition once",
  "Advancing a state to a later slot increments the slot one at a time, records for each passed slot the state root and latest block root at that slot's position of the ring buffers, completes the latest block header's state root, and runs the epoch transition exactly at each epoch boundary; advancing to a slot that is not later is refused. The recorded roots are the ones later returned for any slot within the last history window and queries outside it are refused.",
  ["inputs", "histories"], "all states, target slots and skipped-slot patterns across epoch boundaries and ring wrap-around",
  NOT_RUN, ["phase0/slot_processing.rs", "phase0/helpers.rs"], [("process_slots/process_slot", "phase0/slot_processing.rs"), ("get_block_root_at_slot", "phase0/helpers.rs")], ["process_slots post-state"],
  [("block_roots/state_roots", "ring buffers of recent roots", "BeaconState")])
P("P12", "Only the right proposer's child of the latest header is accepted as a block",
  "A block is applied only if its slot equals the state's slot and is later than the latest block's slot, its proposer index is the one selected for that slot, its parent root is the root of the latest block header, and that proposer is not slashed. Applying it makes its own header (with an empty state root) the latest one.",
  ["inputs", "histories"], "all states and block headers, each condition violated alone and together",
  NOT_RUN, ["phase0/block_processing.rs"], [("process_block_header", "phase0/block_processing.rs")], ["process_block_header"])
P("P13", "RANDAO reveals are verified and mixed into the current epoch only",
  "A block's RANDAO reveal is accepted only if it is the proposer's signature over the current epoch in the RANDAO domain, and then the current epoch's mix becomes the old mix XOR the hash of the reveal, all other mixes unchanged. At an epoch's end the next epoch's mix starts as a copy of the current one, and seeds derive from domain, epoch and the mix of the epoch before the lookahead.",
  ["inputs", "histories"], "all states, reveals (valid, wrong key, wrong epoch, wrong domain)",
  NOT_RUN, ["phase0/block_processing.rs", "phase0/epoch_processing.rs", "phase0/helpers.rs"], [("process_randao", "phase0/block_processing.rs"), ("get_seed", "phase0/helpers.rs")], ["process_randao", "get_seed", "process_randao_mixes_reset"])
P("P14", "Eth1 data changes exactly on a strict majority of the voting period",
  "Each block appends its eth1 vote; the state's eth1 data becomes that vote exactly when the number of equal votes in the current period exceeds half the period's slots, and is otherwise unchanged. Votes are cleared exactly at the end of each voting period.",
  ["inputs", "histories"], "all vote histories within a period",
  NOT_RUN, ["phase0/block_processing.rs", "phase0/epoch_processing.rs"], [("process_eth1_data", "phase0/block_processing.rs"), ("process_eth1_data_reset", "phase0/epoch_processing.rs")], ["process_eth1_data", "process_eth1_data_reset"])
P("P15", "Justification and finalization follow the Casper FFG rules",
  "At each epoch end, an epoch's checkpoint is justified exactly when unslashed validators holding at least two thirds of total active balance attested to it as target, and a checkpoint is finalized exactly by the four supermajority-link rules over the last four epochs' justification bits; nothing changes in the first two epochs. Justified and finalized epochs never move backwards, the finalized epoch never exceeds the justified one, and checkpoints carry the root of their epoch's boundary block.",
  ["inputs", "histories"], "all participation patterns per epoch, all justification histories, balances on and next to the two-thirds threshold",
  NOT_RUN, ["phase0/epoch_processing.rs", "altair/epoch_processing.rs"], [("weigh_justification_and_finalization", "phase0/epoch_processing.rs"), ("process_justification_and_finalization", "phase0,altair/epoch_processing.rs")], ["process_justification_and_finalization"],
  [("justification_bits, *_justified_checkpoint, finalized_checkpoint", "FFG state", "BeaconState")])
P("P16", "Attestations are included only when timely, well-targeted, linked and signed",
  "An attestation is accepted only if its target is the previous or current epoch and the epoch of its slot, its inclusion delay is within the fork's window, its committee index exists, its bitfield matches the committee, its source is the justified checkpoint of the target epoch, and its aggregate signature is that of exactly the participating, sorted and non-empty set of members. Any other attestation is rejected without being counted.",
  ["inputs", "histories"], "all forks before electra, all slots, delays, committees, bitfields and signers, each condition violated in turn",
  NOT_RUN, ["phase0/block_processing.rs", "altair/block_processing.rs", "deneb/block_processing.rs", "phase0/helpers.rs"], [("process_attestation", "*/block_processing.rs"), ("is_valid_indexed_attestation", "phase0/helpers.rs")], ["process_attestation"])
P("P17", "Participation flags and proposer rewards count each timely vote once",
  "From altair on, an accepted attestation sets for each participant exactly the source, target and head flags its timeliness and correctness earn and clears none; the proposer is paid for exactly the flags newly set, (sum of base reward * flag weight) / ((64 - 8) * 64 / 8), so repeating an attestation pays nothing. In phase0 an accepted attestation is appended to the pending list of its target epoch with its inclusion delay and proposer; at each epoch end current participation becomes previous and a fresh empty one starts.",
  ["inputs", "histories"], "all attestations, prior flags, delays and effective balances",
  NOT_RUN, ["altair/block_processing.rs", "altair/helpers.rs", "deneb/helpers.rs", "phase0/block_processing.rs", "altair/epoch_processing.rs"], [("get_attestation_participation_flag_indices", "altair,deneb/helpers.rs"), ("process_participation_flag_updates", "altair/epoch_processing.rs")], ["process_attestation post-state"])
P("P18", "Epoch rewards and penalties equal the specified deltas",
  "At every epoch end after the first, each eligible validator's balance changes by exactly the specified source, target, head (and in phase0 inclusion-delay, from altair on inactivity) rewards and penalties computed from its base reward, the participating balances and whether the chain is leaking; ineligible validators' balances do not change and balances never go below zero. While leaking no participation reward is paid beyond the neutral amount.",
  ["inputs", "histories"], "all participation patterns, balances, slashed/exited mixes, leaking or not",
  NOT_RUN, ["phase0/epoch_processing.rs", "altair/epoch_processing.rs", "altair/helpers.rs", "bellatrix/helpers.rs"], [("process_rewards_and_penalties", "phase0,altair/epoch_processing.rs"), ("get_*_deltas", "phase0/epoch_processing.rs, altair/helpers.rs")], ["process_rewards_and_penalties"])
P("P19", "Inactivity scores rise and recover exactly as specified",
  "At each epoch end from altair on, an eligible validator's score falls by one (not below zero) if it attested to the target and otherwise rises by the bias, and when the chain is not leaking it additionally falls by up to the recovery rate; other scores are unchanged. The chain is leaking exactly when the previous epoch is more than the configured number of epochs past finalization, and the inactivity penalty is effective balance * score / (bias * the fork's quotient) for those who missed the target.",
  ["inputs", "histories"], "all scores, participation patterns and finality delays around the threshold",
  NOT_RUN, ["altair/epoch_processing.rs", "altair/helpers.rs", "bellatrix/helpers.rs", "phase0/epoch_processing.rs"], [("process_inactivity_updates", "altair/epoch_processing.rs"), ("get_inactivity_penalty_deltas", "altair,bellatrix/helpers.rs")], ["process_inactivity_updates", "get_inactivity_penalty_deltas"])
P("P20", "Validators activate and are ejected in queue order within the churn limit",
  "At each epoch end, validators with enough balance become eligible for activation at the next epoch, active ones at or below the ejection balance begin to exit, and only those whose eligibility is finalized are activated - ordered by eligibility then index, at most the churn limit (from deneb the activation churn limit; electra has no count limit) per epoch, at the activation-exit delay. Exits are queued so that no epoch receives more than the churn limit and withdrawability follows the exit by the configured delay.",
  ["inputs", "histories"], "all validator sets, eligibility and exit epochs, finality and churn sizes",
  NOT_RUN, ["phase0/epoch_processing.rs", "phase0/helpers.rs", "deneb/epoch_processing.rs", "deneb/helpers.rs", "electra/epoch_processing.rs"], [("process_registry_updates", "*/epoch_processing.rs"), ("initiate_validator_exit", "phase0,electra/helpers.rs")], ["process_registry_updates"])
P("P21", "Voluntary exits are accepted only from mature active validators who signed",
  "A voluntary exit is accepted only if the validator is active, has not already begun to exit, the exit's epoch has been reached, the validator has been active (since its activation epoch) for the shard committee period, and the message is signed by the validator in the voluntary-exit domain (from deneb on, always the capella fork's domain; in electra also only with no pending partial withdrawal). Acceptance only starts that validator's exit.",
  ["inputs", "histories"], "all validators' lifecycle epochs, exit epochs, forks and signatures",
  NOT_RUN, ["phase0/block_processing.rs", "deneb/block_processing.rs", "electra/block_processing.rs"], [("process_voluntary_exit", "phase0,deneb,electra/block_processing.rs")], ["process_voluntary_exit"])
P("P22", "Only genuine slashing evidence slashes, with exactly the specified effects",
  "A proposer slashing is accepted only for two different signed headers by the same slashable proposer for the same slot; an attester slashing only for two valid indexed attestations that are a double or surround vote, and it slashes exactly the slashable validators in both. Slashing starts the validator's exit, marks it slashed, extends withdrawability by the slashings window, adds its effective balance to the current slashings entry, charges the fork's minimum penalty, and credits proposer and whistleblower shares.",
  ["inputs", "histories"], "all evidence pairs, validator lifecycles, forks, and whistleblowers",
  NOT_RUN, ["phase0/block_processing.rs", "phase0/helpers.rs", "altair/helpers.rs", "bellatrix/helpers.rs", "electra/helpers.rs"], [("process_proposer_slashing/process_attester_slashing", "phase0/block_processing.rs"), ("slash_validator", "*/helpers.rs"), ("is_slashable_attestation_data", "phase0/helpers.rs")], ["process_*_slashing", "slash_validator"])
P("P23", "Correlated slashing penalties are charged once, at the window's midpoint",
  "At each epoch end exactly the slashed validators whose withdrawable epoch is half the slashings window away lose effective_balance_increments * min(total slashings * the fork's multiplier, total balance) / total balance * increment, and no one else. The slashings entry for the next epoch is then cleared, so a slashing counts in exactly one window.",
  ["inputs", "histories"], "all slashing histories, balances and epochs",
  NOT_RUN, ["phase0/epoch_processing.rs", "altair/epoch_processing.rs", "bellatrix/epoch_processing.rs"], [("process_slashings", "phase0,altair,bellatrix/epoch_processing.rs"), ("process_slashings_reset", "phase0/epoch_processing.rs")], ["process_slashings", "process_slashings_reset"])
P("P24", "Effective balances follow balances with the specified hysteresis",
  "At each epoch end a validator's effective balance changes exactly when its balance has fallen more than a quarter increment below it or risen more than one and a quarter increments above it, and then becomes the balance rounded down to an increment and capped at the maximum (in electra the cap of its credential type). Otherwise it is unchanged.",
  ["inputs"], "all balances and effective balances around every threshold",
  NOT_RUN, ["phase0/epoch_processing.rs", "electra/epoch_processing.rs"], [("process_effective_balance_updates", "phase0,electra/epoch_processing.rs")], ["process_effective_balance_updates"])
P("P25", "Deposits are credited in order, once, against the eth1 deposit root",
  "A deposit is accepted only with a Merkle proof for the next deposit index under the state's deposit root, and always advances that index by one; a new key with a valid proof of possession appends one validator (all per-validator lists growing together) with the rounded, capped effective balance, a new key with an invalid signature changes nothing else, and a known key only increases that validator's balance. A block must contain exactly min(MAX_DEPOSITS, outstanding) deposits.",
  ["inputs", "histories"], "all deposit trees, proofs, amounts, keys (new/known), signatures, forks before electra",
  NOT_RUN, ["phase0/block_processing.rs", "altair/block_processing.rs"], [("process_deposit/apply_deposit", "phase0,altair/block_processing.rs"), ("process_operations", "phase0/block_processing.rs")], ["process_deposit", "process_operations"])
P("P26", "Capella/deneb withdrawals are exactly the next ones due in sweep order",
  "A payload is accepted only if its withdrawals equal, in order, the full or partial withdrawals due when sweeping validators from the saved position, bounded by the per-payload and per-sweep limits, with consecutive indices. Each debits its validator by its amount, and the saved index and position advance so that every validator is visited in turn and none is paid twice.",
  ["inputs", "histories"], "all validator sets, balances, credentials, sweep positions and payload lists",
  NOT_RUN, ["capella/block_processing.rs", "capella/helpers.rs"], [("get_expected_withdrawals/process_withdrawals", "capella/block_processing.rs")], ["get_expected_withdrawals", "process_withdrawals"])
P("P27", "Withdrawal credentials change only by a matching signed BLS-to-execution",
  "A BLS-to-execution change is accepted only if the validator exists, has BLS credentials equal to the hash of the given key with the BLS prefix, and the change is signed by that key in the genesis-fork domain of the change type; it then sets exactly that validator's credentials to the execution address form. No other block operation before electra changes credentials.",
  ["inputs"], "all credentials, keys, addresses, signatures and fork versions",
  NOT_RUN, ["capella/block_processing.rs"], [("process_bls_to_execution_change", "capella/block_processing.rs")], ["process_bls_to_execution_change"])
P("P28", "Sync committees are sampled, rotated and rewarded as specified",
  "A sync aggregate is accepted only if it is the signature of exactly the flagged members over the previous slot's block root (an empty set only with the infinity signature); each flagged member gains and each unflagged one loses the participant reward, and the proposer gains its share per flagged member. Committees are drawn by effective-balance-weighted sampling from the next period's active set, and at each period boundary the next committee becomes current and a new next one is drawn, at no other time.",
  ["inputs", "histories"], "all bit patterns, signers, balances, seeds and epochs",
  NOT_RUN, ["altair/block_processing.rs", "altair/helpers.rs", "altair/epoch_processing.rs", "electra/helpers.rs"], [("process_sync_aggregate", "altair/block_processing.rs"), ("get_next_sync_committee(_indices)", "altair,electra/helpers.rs"), ("process_sync_committee_updates", "altair/epoch_processing.rs")], ["process_sync_aggregate", "get_next_sync_committee"])
P("P29", "Committees partition the active validators by the swap-or-not shuffle",
  "For every epoch, the committees of all its slots partition the active validators: each is in exactly one committee, sizes differ by at most one, and the number of committees per slot is the clamped active count. Committee membership is the swap-or-not shuffle by the epoch's attester seed; the list-wise and index-wise shuffles agree and are permutations.",
  ["inputs"], "all validator counts, seeds, epochs and round counts",
  "One vector-style unit test exists for the shuffle in code the baseline cannot run; the partition is untested.",
  ["phase0/helpers.rs"], [("compute_shuffled_index(_es)", "phase0/helpers.rs"), ("get_beacon_committee/compute_committee", "phase0/helpers.rs")], ["get_beacon_committee", "compute_shuffled_indices"])
P("P30", "The proposer is the balance-weighted draw for the slot's seed",
  "For every state, the slot's proposer is the first candidate in the shuffled order of active validators whose effective balance passes the random-byte test against the maximum effective balance (electra: its own maximum), with seed hash(proposer seed of the epoch, slot). It is always an active validator and does not depend on anything else.",
  ["inputs"], "all active sets, balances, seeds and slots",
  NOT_RUN, ["phase0/helpers.rs", "electra/helpers.rs"], [("compute_proposer_index", "phase0,electra/helpers.rs"), ("get_beacon_proposer_index", "phase0/helpers.rs")], ["get_beacon_proposer_index"])
P("P31", "Execution payloads extend the execution chain and are engine-approved",
  "From bellatrix on, a payload is applied only if (once the merge is complete) its parent hash is the latest payload header's block hash, its prev_randao is the current mix, its timestamp is the slot's time, and the execution engine accepts it; the state then stores exactly its header, with transactions (and withdrawals) as roots. Before the merge an empty payload leaves the execution state untouched.",
  ["inputs", "histories"], "all states (pre-, at and post-merge), payloads and engine verdicts",
  NOT_RUN, ["bellatrix/block_processing.rs", "bellatrix/helpers.rs", "capella/block_processing.rs", "deneb/block_processing.rs", "electra/block_processing.rs"], [("process_execution_payload", "*/block_processing.rs"), ("is_merge_transition_complete/block, is_execution_enabled", "bellatrix/helpers.rs")], ["process_execution_payload"])
P("P32", "Blob commitments stay within the limit and bind to versioned hashes",
  "From deneb on a block with more than the maximum blobs per block is rejected, and the engine is asked about the payload together with exactly the versioned hashes (version byte 0x01 followed by the last 31 bytes of the SHA-256 of the commitment) of the block's commitments in order and the parent beacon block root. The engine's rejection rejects the block.",
  ["inputs"], "all commitment lists including limit and limit+1, all engine verdicts",
  NOT_RUN, ["deneb/block_processing.rs", "deneb/helpers.rs", "deneb/execution_engine.rs", "electra/block_processing.rs"], [("process_execution_payload", "deneb,electra/block_processing.rs"), ("kzg_commitment_to_versioned_hash", "deneb/helpers.rs")], ["process_execution_payload with a recording engine"])
P("P33", "A signed block is applied only with a valid signature and its own state root",
  "With validation enabled, a signed block transforms the state only if the slot can be reached, the signature is the proposer's over the block in the proposer domain, every part of the block is valid in the specified order and within the specified operation limits, and the resulting state's root equals the one in the block. The result is the same as advancing the slots and then processing the header, withdrawals, payload, RANDAO, eth1 vote, operations and sync aggregate one by one.",
  ["inputs", "histories"], "all blocks on all forks: valid ones and ones with any one field or signature altered",
  NOT_RUN, ["phase0/state_transition.rs", "phase0/block_processing.rs", "altair/state_transition.rs", "electra/block_processing.rs"], [("state_transition", "*/state_transition.rs / spec/mod.rs"), ("process_block", "*/block_processing.rs")], ["state_transition"])
P("P34", "Fork upgrades carry every field over and initialize only the new ones",
  "Upgrading a state to the next fork preserves every shared field, sets the fork record to (old current version, new version, current epoch), and initializes the new fields as specified: participation translated from pending attestations and fresh sync committees at altair, an empty payload header at bellatrix, its extension at capella and deneb, and the electra balances-to-consume, earliest epochs and queued excess/pending balances.",
  ["inputs"], "all states on each fork",
  NOT_RUN, ["altair/fork.rs", "bellatrix/fork.rs", "capella/fork.rs", "deneb/fork.rs", "electra/fork.rs"], [("upgrade_to_*", "*/fork.rs")], ["upgrade_to_*"])
P("P35", "The executor applies blocks across fork boundaries exactly once each",
  "Applying signed blocks one after another through the executor gives the same state as advancing to each fork epoch, upgrading once exactly there, and running that fork's state transition; a block of a fork other than the one active at its slot is rejected. The validating entry point checks signature and state root; the non-validating one skips exactly those checks.",
  ["inputs", "histories", "configurations"], "all fork schedules and block sequences including skipped slots across one or several fork boundaries",
  NOT_RUN, ["state_transition/executor.rs"], [("Executor::apply_block*", "state_transition/executor.rs")], ["Executor"])
P("P36", "Genesis states are built from deposits exactly as specified",
  "The genesis state built from an eth1 block and deposits contains exactly the validators of the valid deposits, with those at full effective balance active at genesis, the specified fork record, eth1 data with the progressive deposit root, randao mixes equal to the eth1 hash, the genesis validators root, and for later forks the sync committees and payload header. A state is a valid genesis exactly when its time has come and enough validators are active.",
  ["inputs", "configurations"], "all deposit lists (valid, invalid, top-ups), timestamps, forks",
  NOT_RUN, ["phase0/genesis.rs", "altair/genesis.rs", "bellatrix/genesis.rs", "capella/genesis.rs", "deneb/genesis.rs", "electra/genesis.rs"], [("initialize_beacon_state_from_eth1", "*/genesis.rs"), ("is_valid_genesis_state", "phase0/genesis.rs")], ["initialize_beacon_state_from_eth1", "is_valid_genesis_state"])
P("P37", "Electra exits and consolidations respect balance-based churn",
  "In electra, exits are assigned to the earliest epoch with remaining exit churn so that the balance exiting in an epoch never exceeds the activation-exit churn limit, with unused churn carried within the epoch only. Consolidations are accepted only between distinct active validators with matching execution credentials, signed by both, within the consolidation churn limit; they start the source's exit and are applied once, when the source becomes withdrawable, by moving its active balance to the target.",
  ["inputs", "histories"], "all balances, queues, earliest epochs and consolidation pairs",
  NOT_RUN, ["electra/helpers.rs", "electra/block_processing.rs", "electra/epoch_processing.rs"], [("compute_exit_epoch_and_update_churn / compute_consolidation_epoch_and_update_churn", "electra/helpers.rs"), ("process_consolidation", "electra/block_processing.rs"), ("process_pending_consolidations", "electra/epoch_processing.rs")], ["helpers, process_consolidation, process_pending_consolidations"])
P("P38", "Electra deposits are queued and credited in order within the deposit churn",
  "In electra a deposit never fails a block because of its signature: a new key with a valid proof of possession is registered with zero balance and its amount queued, a known key's amount is always queued, and a validly signed compounding deposit switches the validator to compounding, queueing its excess. Queued balances are credited in order at epoch ends within the activation-exit churn, carrying unused churn only while deposits remain, and never lost or credited twice.",
  ["inputs", "histories"], "all deposit/receipt sequences, queue contents and churn limits",
  NOT_RUN, ["electra/block_processing.rs", "electra/epoch_processing.rs", "electra/helpers.rs"], [("apply_deposit/process_deposit_receipt", "electra/block_processing.rs"), ("process_pending_balance_deposits", "electra/epoch_processing.rs"), ("switch_to_compounding_validator", "electra/helpers.rs")], ["process_deposit, process_deposit_receipt, process_pending_balance_deposits"])
P("P39", "Electra withdrawals pay due partial requests first, then the sweep",
  "In electra the expected withdrawals are the due pending partial withdrawals (at most the per-sweep limit, paid from balance above the activation minimum of validators not exiting) followed by the sweep with credential-dependent maximums; accepted payloads carry exactly them, processed requests leave the queue, and sweep positions advance by validator index. Execution-layer withdrawal requests from the right address start a full exit or queue a churn-limited partial withdrawal, and invalid requests change nothing.",
  ["inputs", "histories"], "all queues, balances, credentials, requests and payload lists",
  NOT_RUN, ["electra/block_processing.rs", "electra/helpers.rs"], [("get_expected_withdrawals/process_withdrawals", "electra/block_processing.rs"), ("process_execution_layer_withdrawal_request", "electra/block_processing.rs")], ["get_expected_withdrawals, process_withdrawals, process_execution_layer_withdrawal_request"])
P("P40", "Electra aggregates span committees and count each committee's own bits",
  "In electra an attestation is accepted only with committee index zero in its data, committee bits naming existing committees of its slot, a bitfield exactly as long as those committees together, and the signature of exactly the attesters selected. The attesting set is, for each named committee in order, the members whose bit in that committee's own segment is set.",
  ["inputs"], "all committee-bit combinations, bitfields, committee sizes and signers",
  NOT_RUN, ["electra/helpers.rs", "electra/block_processing.rs"], [("get_attesting_indices/get_committee_indices", "electra/helpers.rs"), ("process_attestation", "electra/block_processing.rs")], ["get_attesting_indices", "process_attestation"])
P("P41", "Blob packing is lossless for both framings",
  "Any byte string packed into blobs unpacks to the same bytes: with size framing exactly, with raw framing up to trailing zero padding. Every packed blob has full length and only canonical field elements, and malformed framing (unknown version, missing header, size beyond the data) is rejected with an error.",
  ["inputs"], "all payload lengths (around every field-element and blob boundary) and contents",
  "No test packs or unpacks blobs.",
  ["bin/ec/blobs/encode.rs", "bin/ec/blobs/decode.rs", "bin/ec/blobs/framing.rs"], [("pack_into_blobs/unpack_from_blobs", "bin/ec/blobs/encode.rs, decode.rs"), ("framing", "bin/ec/blobs/framing.rs")], ["encode/decode functions"])
P("P42", "Validator keys and keystores derive deterministically from the mnemonic",
  "The seed is the BIP-39 seed of the mnemonic and passphrase, keys follow EIP-2333 along the EIP-2334 signing and withdrawal paths for each account index, and distinct indices give distinct paths. A keystore written for a key and password records that path and public key, decrypts to the same key with that password, and its checksum rejects any other password.",
  ["inputs"], "all mnemonics, passphrases, index ranges and passwords",
  "No test covers derivation or keystores.",
  ["bin/ec/validator/mnemonic.rs", "bin/ec/validator/keys.rs", "bin/ec/validator/keystores.rs"], [("to_seed / generate", "bin/ec/validator/"), ("keystores", "bin/ec/validator/keystores.rs")], ["bin functions included by path"])
P("P43", "The spec generator overlays each fork's changes on its predecessors",
  "For every set of fork modules, the generated module of a fork exposes exactly its own public definitions plus, for every name it does not redefine, what the fork before it exposed (but for the phase 0 attestation functions Altair drops); an inherited function is written out again in the fork exactly when its signature or a typed local names, by path or reference, a container redefined in the fork: it then speaks of the containers and traits as the fork defines them, keeps its body, lifetimes and type parameters, and declares every parameter it uses. Everything else is re-exported from where it lives. Generation is deterministic and repeatable.",
  ["programs"], "all fork-diff source trees: functions, containers, constants, presets, with overrides at any fork",
  "Only fork comparison is tested.",
  ["spec-gen/src/generator.rs", "spec-gen/src/visitors.rs", "spec-gen/src/type_generator.rs"], [("generate", "spec-gen/src/generator.rs"), ("visitors", "spec-gen/src/visitors.rs")], ["spec-gen output on synthetic source trees"])
P("P44", "The Beacon API client sends the specified request and decodes the reply",
  "Each client method issues the HTTP method, path, query and body the Beacon API specifies for its arguments, below whatever path its endpoint has, returns exactly the data a successful reply carries and refuses a reply of another form, and returns the API's error for an error reply. Identifiers (state, block, validator ids, topics, statuses) convert to and from their API text without loss, and unknown text is rejected.",
  ["inputs"], "all methods, identifiers and replies",
  "No test runs the client.",
  ["beacon-api-client/src/api_client.rs", "beacon-api-client/src/types.rs", "beacon-api-client/src/api_error.rs"], [("Client methods", "beacon-api-client/src/api_client.rs"), ("StateId/BlockId/...", "beacon-api-client/src/types.rs")], ["recorded requests"])
P("P45", "Signature and KZG wrappers accept exactly what the primitives accept",
  "Individual, aggregate and fast-aggregate verification accept exactly the signatures valid under the ideal scheme, aggregation of nothing is refused, and the sync-committee variants accept the empty set only with the infinity signature. Key and signature decoding rejects malformed, non-group and zero/infinity encodings where the specification forbids them, and proof wrappers pass their arguments through and report the verdict unchanged. A secret key prints nothing of itself unless the library is built to show it.",
  ["inputs"], "all key sets, messages, signatures (valid, swapped, aggregated, empty, infinity), encodings",
  "The unit tests need the real curve library, which the baseline cannot build, and sample a few keys.",
  ["crypto/bls.rs", "crypto/kzg.rs"], [("verify_signature, aggregate_verify, fast_aggregate_verify, eth_*", "crypto/bls.rs"), ("kzg wrappers", "crypto/kzg.rs")], ["crypto functions over an ideal group"])
P("P46", "Peer identities name exactly the multihashes the network uses, without loss",
  "Bytes, base-58 text, JSON, a binary encoding or a multihash name a peer exactly when they are a well-formed multihash of SHA-256 (any digest up to 64 bytes) or an inlined key of at most 42 bytes: minimal header, declared length equal to the digest's, nothing after it. Anything else is refused without panicking (and a refused multihash is handed back as it was). Every accepted identity prints the same bytes and base-58 text through every route, reading what it printed gives it back, and two identities are equal, hash and order alike exactly when their bytes are.",
  ["inputs"], "all headers and digests around every limit, all texts, any damage to either",
  "The two existing tests read one identity each.",
  ["networking.rs"], [("PeerId::from_bytes/from_multihash/from_str, Display, to_base58, serde", "networking.rs"), ("MAX_INLINE_KEY_LENGTH", "networking.rs")], ["public PeerId API, serde_json and bincode"])
P("P47", "Long-term accumulators and periodic resets happen exactly on schedule",
  "At each epoch end, and only when the next epoch begins a new period, the eth1 votes are cleared and the block/state root ring is folded into the historical roots (from capella on into historical summaries, leaving historical roots frozen); the slashings and randao positions of the next epoch are initialised every epoch. No other epoch-end step touches these fields.",
  ["inputs", "histories"], "all epochs modulo every period, all ring contents",
  NOT_RUN, ["phase0/epoch_processing.rs", "capella/epoch_processing.rs"], [("process_historical_roots_update / process_historical_summaries_update", "phase0,capella/epoch_processing.rs")], ["process_epoch post-state"])
P("P48", "Hostile blocks and operations are rejected without panicking",
  "For any reachable state and any decodable block or operation, however malformed (indices out of range, empty or oversized lists, inconsistent counters), processing either succeeds or returns an error; it never panics or aborts.",
  ["inputs", "histories"], "all forks, all operations with boundary and out-of-range values in every field",
  NOT_RUN, ["phase0/block_processing.rs", "altair/block_processing.rs", "capella/block_processing.rs", "electra/block_processing.rs", "phase0/helpers.rs"], [("checked lookups in process_* and helpers", "*/block_processing.rs, */helpers.rs")], ["process_* under catch_unwind"])
P("P49", "Regenerating the library from its fork modules yields the same protocol",
  "Run on the repository's own fork modules, the generator writes multi-fork container types (blocks, bodies, blinded and signed blocks, payloads, payload headers, states) that compile and behave exactly as those types must: one variant per fork from the one that introduces the container, each field readable, writable and copied as its fork has it and absent where its fork lacks it, owned and borrowed views alike, serialized as the inner value, read back as the latest fork it fits. The specification modules it writes, wherever they compile, perform every state transition exactly as the specification says.",
  ["programs", "inputs"], "all containers of all forks, all values; all state transitions",
  "No test runs the generator, and nothing compiles what it writes.",
  ["spec-gen/src/type_generator.rs", "spec-gen/src/generator.rs"], [("derive_*", "spec-gen/src/type_generator.rs"), ("generate", "spec-gen/src/generator.rs")], ["the library compiled with the generator's output in place of the committed one"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in OUT:
        f.write(json.dumps(p) + "\n")
print(len(OUT))
