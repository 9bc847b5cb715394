------------------------------- MODULE Layout -------------------------------
(* Every container of the consensus specification with its JSON form: names, text of every kind of value, limits. *)
EXTENDS Types

\* ---- containers that no state transition touches
U256 == [t |-> "u256"]
Eth1BlockT == Cont(<<F("timestamp", U64), F("deposit_root", B32), F("deposit_count", U64)>>)
AggregateAndProofT == Cont(<<F("aggregator_index", U64), F("aggregate", AttestationT("phase0")), F("selection_proof", B96)>>)
SyncMessageT == Cont(<<F("slot", U64), F("beacon_block_root", B32), F("validator_index", U64), F("signature", B96)>>)
ContributionT == Cont(<<F("slot", U64), F("beacon_block_root", B32), F("subcommittee_index", U64),
   F("aggregation_bits", BitV(C.sync_committee_size \div 4)), F("signature", B96)>>)
ContributionAndProofT == Cont(<<F("aggregator_index", U64), F("contribution", ContributionT), F("selection_proof", B96)>>)
SelectionDataT == Cont(<<F("slot", U64), F("subcommittee_index", U64)>>)
PowBlockT == Cont(<<F("block_hash", B32), F("parent_hash", B32), F("total_difficulty", U256)>>)
RegistrationT == Cont(<<F("fee_recipient", B20), F("gas_limit", U64), F("timestamp", U64), F("public_key", B48)>>)
BlobIdT == Cont(<<F("block_root", B32), F("index", U64)>>)
BlobT == BV(32 * C.field_elements_per_blob)
SidecarT == Cont(<<F("index", U64), F("blob", BlobT), F("kzg_commitment", B48), F("kzg_proof", B48),
   F("signed_block_header", SignedHeaderT), F("kzg_commitment_inclusion_proof", Vec(B32, C.kzg_commitment_inclusion_proof_depth))>>)
\* the list limit is the engine's, not the specification's; only the JSON form is fixed
BlobsBundleT == Cont(<<F("commitments", Lst(B48, "1099511627776")), F("proofs", Lst(B48, "1099511627776")), F("blobs", Lst(BlobT, "1099511627776"))>>)
MetaDataT == [f \in {"phase0", "altair"} |-> Cont(<<F("seq_number", U64), F("attnets", BitV(64))>>
   \o IF f = "altair" THEN <<F("syncnets", BitV(4))>> ELSE <<>>)]
SignedT(m) == Cont(<<F("message", m), F("signature", B96)>>)

\* ---- blinded blocks: the payload's header in place of the payload
Execs == {"bellatrix", "capella", "deneb"}
BlindedBodyT == [f \in Execs |-> Cont(TLCEval([k \in 1..Len(BodyT[f].fs) |->
   IF BodyT[f].fs[k][1] = "execution_payload" THEN F("execution_payload_header", PayloadHeaderT[f]) ELSE BodyT[f].fs[k]]))]
BlindedBlockT == [f \in Execs |-> Cont(<<F("slot", U64), F("proposer_index", U64), F("parent_root", B32), F("state_root", B32), F("body", BlindedBodyT[f])>>)]

\* ---- light client
LcForks == {"altair", "capella", "deneb"}
LcHeaderT == [f \in LcForks |-> Cont(<<F("beacon", HeaderT)>> \o IF f = "altair" THEN <<>> ELSE
   <<F("execution", PayloadHeaderT[f]), F("execution_branch", Vec(B32, 4))>>)]
LcBootstrapT == [f \in LcForks |-> Cont(<<F("header", LcHeaderT[f]), F("current_sync_committee", SyncCommitteeT),
   F("current_sync_committee_branch", Vec(B32, 5))>>)]
LcTail == <<F("sync_aggregate", SyncAggregateT), F("signature_slot", U64)>>
LcFinal(f) == <<F("finalized_header", LcHeaderT[f]), F("finality_branch", Vec(B32, 6))>>
LcUpdateT == [f \in LcForks |-> Cont(<<F("attested_header", LcHeaderT[f]), F("next_sync_committee", SyncCommitteeT),
   F("next_sync_committee_branch", Vec(B32, 5))>> \o LcFinal(f) \o LcTail)]
LcFinalityT == [f \in LcForks |-> Cont(<<F("attested_header", LcHeaderT[f])>> \o LcFinal(f) \o LcTail)]
LcOptimisticT == [f \in LcForks |-> Cont(<<F("attested_header", LcHeaderT[f])>> \o LcTail)]

\* ---- all containers by fork
PrePhase0 == [Fork |-> ForkT, ForkData |-> ForkDataT, SigningData |-> SigningDataT, HistoricalBatch |-> HistoricalBatchT, Checkpoint |-> CheckpointT,
   AttestationData |-> AttDataT, IndexedAttestation |-> IndexedAttT("phase0"), PendingAttestation |-> PendingAttT,
   Attestation |-> AttestationT("phase0"), Eth1Data |-> Eth1DataT, DepositMessage |-> DepositMessageT, DepositData |-> DepositDataT,
   ProposerSlashing |-> ProposerSlashingT, AttesterSlashing |-> AttesterSlashingT("phase0"), Deposit |-> DepositT,
   VoluntaryExit |-> VoluntaryExitT, SignedVoluntaryExit |-> SignedVoluntaryExitT, Validator |-> ValidatorT, Eth1Block |-> Eth1BlockT,
   AggregateAndProof |-> AggregateAndProofT, SignedAggregateAndProof |-> SignedT(AggregateAndProofT),
   BeaconBlockHeader |-> HeaderT, SignedBeaconBlockHeader |-> SignedHeaderT, MetaData |-> MetaDataT["phase0"]]
PreAltair == [SyncAggregate |-> SyncAggregateT, SyncCommittee |-> SyncCommitteeT, SyncCommitteeMessage |-> SyncMessageT,
   SyncCommitteeContribution |-> ContributionT, ContributionAndProof |-> ContributionAndProofT,
   SignedContributionAndProof |-> SignedT(ContributionAndProofT), SyncAggregatorSelectionData |-> SelectionDataT,
   MetaData |-> MetaDataT["altair"]]
PreCapella == [Withdrawal |-> WithdrawalT, BlsToExecutionChange |-> BlsChangeT, SignedBlsToExecutionChange |-> SignedBlsChangeT,
   HistoricalSummary |-> HistoricalSummaryT]
PreDeneb == [BlobIdentifier |-> BlobIdT, BlobSidecar |-> SidecarT, BlobsBundle |-> BlobsBundleT]
PreElectra == [IndexedAttestation |-> IndexedAttT("electra"), Attestation |-> AttestationT("electra"), AttesterSlashing |-> AttesterSlashingT("electra"),
   Consolidation |-> ConsolidationT, SignedConsolidation |-> SignedConsolidationT, DepositReceipt |-> DepositReceiptT,
   PendingBalanceDeposit |-> PendingBalanceDepositT, PendingPartialWithdrawal |-> PendingPartialWithdrawalT,
   PendingConsolidation |-> PendingConsolidationT, ExecutionLayerWithdrawalRequest |-> WithdrawalRequestT]
Main(f) == [BeaconState |-> StateT[f], BeaconBlockBody |-> BodyT[f], BeaconBlock |-> BlockT[f], SignedBeaconBlock |-> SignedBlockT[f]]
Exec(f) == [ExecutionPayload |-> PayloadT[f], ExecutionPayloadHeader |-> PayloadHeaderT[f]]
Blinded(f) == [BlindedBeaconBlockBody |-> BlindedBodyT[f], BlindedBeaconBlock |-> BlindedBlockT[f], SignedBlindedBeaconBlock |-> SignedT(BlindedBlockT[f])]
Lc(f) == [LightClientHeader |-> LcHeaderT[f], LightClientBootstrap |-> LcBootstrapT[f], LightClientUpdate |-> LcUpdateT[f],
   LightClientFinalityUpdate |-> LcFinalityT[f], LightClientOptimisticUpdate |-> LcOptimisticT[f]]
Containers == [
   phase0 |-> PrePhase0 @@ Main("phase0"),
   altair |-> PreAltair @@ Main("altair") @@ Lc("altair"),
   bellatrix |-> [PowBlock |-> PowBlockT] @@ Main("bellatrix") @@ Exec("bellatrix") @@ Blinded("bellatrix"),
   capella |-> PreCapella @@ Main("capella") @@ Exec("capella") @@ Blinded("capella") @@ Lc("capella"),
   deneb |-> PreDeneb @@ Main("deneb") @@ Exec("deneb") @@ Blinded("deneb") @@ Lc("deneb"),
   electra |-> PreElectra @@ Main("electra") @@ Exec("electra"),
   builder |-> [ValidatorRegistration |-> RegistrationT, SignedValidatorRegistration |-> SignedT(RegistrationT)]]
\* without a serialization of their own here, or without a JSON form
JsonOnly == {<<"deneb", "BlobsBundle">>, <<"phase0", "MetaData">>, <<"altair", "MetaData">>}
SszOnly == {<<"phase0", "SigningData">>}

\* ---- JSON
\* names: the specification abbreviates public keys
JKey(n) == CASE n = "public_key" -> "pubkey"
             [] n = "public_keys" -> "pubkeys"
             [] n = "aggregate_public_key" -> "aggregate_pubkey"
             [] n = "from_bls_public_key" -> "from_bls_pubkey"
             [] n = "validator_public_key" -> "validator_pubkey"
             [] OTHER -> n
\* the one 256-bit quantity inside payloads is text in decimal, not bytes
FT(f) == IF f[1] = "base_fee_per_gas" THEN U256 ELSE f[2]
Max256 == "115792089237316195423570985008687907853269984665640564039457584007913129639935"
UnHex(s) == SubSeq(s, 3, Len(s))
BitLen(h) == LET b == ByteAt(h, HLen(h) - 1) IN 8 * (HLen(h) - 1) + (CHOOSE k \in 0..7 : 2^k <= b /\ b < 2^(k + 1))
RECURSIVE Fits(_, _)
\* j is the JSON form of some value of type ty
Fits(ty, j) ==
  CASE ty.t = "u" -> BLeq(j, BFromLE(Repeat("ff", ty.n)))
    [] ty.t = "u256" -> BLeq(j, Max256)
    [] ty.t \in {"bool", "flag", "text", "texts", "peer"} -> TRUE
    [] ty.t = "enum" -> \E k \in 1..Len(ty.vs) : ty.vs[k] = j
    [] ty.t = "bv" -> HLen(UnHex(j)) = ty.n
    [] ty.t = "bl" -> HLen(UnHex(j)) <= ty.n
    [] ty.t = "bitv" -> LET h == UnHex(j) IN HLen(h) = (ty.n + 7) \div 8 /\ \A k \in ty.n..(8 * HLen(h) - 1) : BitAt(h, k) = 0
    [] ty.t = "bitl" -> LET h == UnHex(j) IN h # "" /\ ByteAt(h, HLen(h) - 1) # 0 /\ BitLen(h) <= ty.n
    [] ty.t = "vec" -> LET v == Dense(j) IN Len(v) = ty.n /\ \A k \in 1..Len(v) : Fits(ty.e, v[k])
    [] ty.t = "list" -> LET v == Dense(j) IN BLeq(Len(v), ty.n) /\ \A k \in 1..Len(v) : Fits(ty.e, v[k])
    [] ty.t = "cont" -> \A k \in 1..Len(ty.fs) : IF JKey(ty.fs[k][1]) \in DOMAIN j THEN Fits(FT(ty.fs[k]), j[JKey(ty.fs[k][1])]) ELSE ty.fs[k][2].t = "flag"
RECURSIVE FromJ(_, _)
FromJ(ty, j) ==
  CASE ty.t = "u" -> j
    [] ty.t = "u256" -> BLE(j, 32)
    [] ty.t = "bool" -> j
    [] ty.t \in {"bv", "bl"} -> UnHex(j)
    [] ty.t = "bitv" -> UnpackBits(UnHex(j), ty.n)
    [] ty.t = "bitl" -> UnpackBits(UnHex(j), BitLen(UnHex(j)))
    [] ty.t \in {"vec", "list"} -> LET v == Dense(j) IN TLCEval([k \in 1..Len(v) |-> FromJ(ty.e, v[k])])
    [] ty.t = "cont" -> LET at == TLCEval([k \in 1..Len(ty.fs) |-> FromJ(FT(ty.fs[k]), j[JKey(ty.fs[k][1])])])
                        IN TLCEval([n \in {ty.fs[k][1] : k \in 1..Len(ty.fs)} |-> at[CHOOSE k \in 1..Len(ty.fs) : ty.fs[k][1] = n]])
\* bytes, for the serialization of U256
RECURSIVE Plain(_)
Plain(ty) == CASE ty.t = "u256" -> B32
               [] ty.t \in {"list", "vec"} -> [ty EXCEPT !.e = Plain(ty.e)]
               [] ty.t = "cont" -> Cont(TLCEval([k \in 1..Len(ty.fs) |-> <<ty.fs[k][1], Plain(ty.fs[k][2])>>]))
               [] OTHER -> ty
\* the type as data, for the generator of values
RECURSIVE Schema(_)
Schema(ty) == CASE ty.t \in {"list", "vec"} -> [ty EXCEPT !.e = Schema(ty.e)]
                [] ty.t = "cont" -> [t |-> "cont", fs |-> TLCEval([k \in 1..Len(ty.fs) |-> <<JKey(ty.fs[k][1]), Schema(FT(ty.fs[k]))>>])]
                [] OTHER -> ty

Short(h) == IF HLen(h) <= 4096 THEN h ELSE "sha256:" \o Sha256(h)
Value(f, n, j) ==
  LET ty == Containers[f][n] IN
  IF ~Fits(ty, j) THEN "rejected"
  ELSE LET v == FromJ(ty, j)
           p == Plain(ty)
       IN (IF <<f, n>> \in JsonOnly THEN <<>> ELSE [ssz |-> Short(Ser(p, v)), root |-> HTR(p, v), ssz_back |-> TRUE])
          @@ (IF <<f, n>> \in SszOnly THEN <<>> ELSE [json_back |-> TRUE])
LayoutExp(c) == Value(c.a.fork, c.a.name, c.a.v)
=============================================================================
