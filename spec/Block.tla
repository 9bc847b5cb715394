------------------------------- MODULE Block -------------------------------
(* Block processing for every fork. Each operation maps a state to Ok(new state) or Err. *)
EXTENDS Epoch

ZERO32 == Zeros(32)

\* ---- header
ProcessHeader(s, b) ==
  IF /\ b.slot = s.slot
     /\ b.slot > s.latest_block_header.slot
     /\ HasProposer(s) /\ b.proposer_index = Proposer(s)
     /\ b.parent_root = HTR(HeaderT, s.latest_block_header)
     /\ ~V(s, b.proposer_index).slashed
  THEN Ok([s EXCEPT !.latest_block_header =
         [slot |-> b.slot, proposer_index |-> b.proposer_index, parent_root |-> b.parent_root,
          state_root |-> ZERO32, body_root |-> HTR(BodyT[s.fk], b.body)]])
  ELSE Err

\* ---- randao
ProcessRandao(s, body) ==
  LET e == CurEp(s) IN
  IF HasProposer(s) /\ Verify(V(s, Proposer(s)).public_key, SigningRoot(U64, e, DomainAt(s, D_RANDAO, e)), body.randao_reveal)
  THEN Ok([s EXCEPT !.randao_mixes[(e % C.epochs_per_historical_vector) + 1] = XorHex(@, Sha256(body.randao_reveal))])
  ELSE Err

\* ---- eth1 data
ProcessEth1(s, body) ==
  LET votes == Append(s.eth1_data_votes, body.eth1_data)
      n == Len(SelectSeq(votes, LAMBDA x : x = body.eth1_data))
  IN [s EXCEPT !.eth1_data_votes = votes,
               !.eth1_data = IF 2 * n > C.epochs_per_eth1_voting_period * SPE THEN body.eth1_data ELSE @]

\* ---- slashings
ProcessProposerSlashing(s, op) ==
  LET h1 == op.signed_header_1.message
      h2 == op.signed_header_2.message
      i == h1.proposer_index
      ok(h) == Verify(V(s, i).public_key, SigningRoot(HeaderT, h.message, DomainAt(s, D_PROPOSER, EpochOf(h.message.slot))), h.signature)
  IN IF /\ h1.slot = h2.slot /\ h1.proposer_index = h2.proposer_index /\ h1 # h2
        /\ Known(s, i) /\ IsSlashable(V(s, i), CurEp(s))
        /\ ok(op.signed_header_1) /\ ok(op.signed_header_2)
     THEN Ok(Slash(s, i, NoOne)) ELSE Err
ProcessAttesterSlashing(s, op) ==
  LET a == op.attestation_1
      b == op.attestation_2 IN
  IF ~(SlashableData(a.data, b.data) /\ ValidIndexed(s, a) /\ ValidIndexed(s, b)) THEN Err
  ELSE LET both == SeqSet(a.attesting_indices) \cap SeqSet(b.attesting_indices)
           hit == {i \in both : IsSlashable(V(s, i), CurEp(s))}
       IN IF hit = {} THEN Err ELSE Ok(FoldLeft(LAMBDA t, i : TLCEval(Slash(t, i, NoOne)), s, Ascending(hit)))

\* ---- attestations
TargetKnown(s, d) == d.target.epoch \in {PrevEp(s), CurEp(s)} /\ EpochOf(d.slot) = d.target.epoch
Timely(s, d) == d.slot + C.min_attestation_inclusion_delay <= s.slot
                /\ (Ge(s.fk, "deneb") \/ s.slot <= d.slot + SPE)
CommitteesFit(s, att) ==
  IF IsE(s)
  THEN LET cis == CommitteeIndices(att.committee_bits) IN
       /\ att.data.index = 0
       /\ \A k \in 1..Len(cis) : cis[k] < CommitteesPerSlot(s, att.data.target.epoch)
       /\ Len(att.aggregation_bits) = Sum(MapS(cis, LAMBDA x : Len(Committee(s, att.data.slot, x))))
  ELSE /\ att.data.index < CommitteesPerSlot(s, att.data.target.epoch)
       /\ Len(att.aggregation_bits) = Len(Committee(s, att.data.slot, att.data.index))
JustifiedFor(s, d) == IF d.target.epoch = CurEp(s) THEN s.current_justified_checkpoint ELSE s.previous_justified_checkpoint
\* the flags an attestation earns, given its inclusion delay
FlagsOf(s, d, delay) ==
  LET tgt == d.target.root = BlockRootOfEpoch(s, d.target.epoch)
      head == tgt /\ d.beacon_block_root = BlockRootAt(s, d.slot)
  IN (IF delay <= ISqrt(SPE) THEN {SOURCE} ELSE {})
     \cup (IF tgt /\ (Ge(s.fk, "deneb") \/ delay <= SPE) THEN {TARGET} ELSE {})
     \cup (IF head /\ delay = C.min_attestation_inclusion_delay THEN {HEAD} ELSE {})
FlagValue(S) == (IF 0 \in S THEN 1 ELSE 0) + (IF 1 \in S THEN 2 ELSE 0) + (IF 2 \in S THEN 4 ELSE 0)
OrFlags(a, S) == LET T == S \cup {k \in 0..2 : FlagBit(a, k)} IN (a - (a % 8)) + FlagValue(T)
Credit(s, att, S) ==
  LET cur == att.data.target.epoch = CurEp(s)
      p == IF cur THEN s.current_epoch_participation ELSE s.previous_epoch_participation
      who == Attesters(s, att)
      per == BaseRewardPerInc(s)
      newFlags(i) == {k \in S : ~FlagBit(At(p, i), k)}
      gain(i) == BaseRewardA(s, per, i) * Sum(MapS(Ascending(newFlags(i)), LAMBDA k : FlagWeights[k + 1]))
      num == Sum(MapS(Ascending(who), LAMBDA i : gain(i)))
      p2 == TLCEval([k \in 1..Len(p) |-> IF (k - 1) \in who THEN OrFlags(p[k], S) ELSE p[k]])
      s1 == IF cur THEN [s EXCEPT !.current_epoch_participation = p2] ELSE [s EXCEPT !.previous_epoch_participation = p2]
  IN IncBal(s1, Proposer(s), num \div (((64 - 8) * 64) \div 8))
ProcessAttestation(s, att) ==
  LET d == att.data IN
  IF ~(TargetKnown(s, d) /\ Timely(s, d)) THEN Err
  ELSE IF ~(CommitteesFit(s, att) /\ d.source = JustifiedFor(s, d) /\ ValidIndexed(s, Indexed(s, att))) THEN Err
  ELSE IF s.fk = "phase0"
  THEN LET pa == [aggregation_bits |-> att.aggregation_bits, data |-> d, inclusion_delay |-> s.slot - d.slot,
                  proposer_index |-> Proposer(s)]
       IN Ok(IF d.target.epoch = CurEp(s) THEN [s EXCEPT !.current_epoch_attestations = Append(@, pa)]
             ELSE [s EXCEPT !.previous_epoch_attestations = Append(@, pa)])
  ELSE IF ~(BlockRootKnown(s, StartSlot(d.target.epoch)) /\ BlockRootKnown(s, d.slot)) THEN Err
  ELSE Ok(Credit(s, att, FlagsOf(s, d, s.slot - d.slot)))

\* ---- deposits
IndexOfKey(s, pk) == LET K == {k \in 1..NumV(s) : s.validators[k].public_key = pk} IN IF K = {} THEN NoOne ELSE MinOf(K) - 1
ValidBranch(leaf, branch, depth, index, root) ==
  LET bit(k) == (index \div (2 ^ k)) % 2
      node[k \in 0..depth] == IF k = 0 THEN leaf
                              ELSE IF bit(k - 1) = 1 THEN Sha256(branch[k] \o node[k - 1]) ELSE Sha256(node[k - 1] \o branch[k])
  IN Len(branch) >= depth /\ node[depth] = root
\* positions above 30 use bit 0: indices in the model are small
DepositBranch(s, d) ==
  LET bit(k) == IF k > 29 THEN 0 ELSE (s.eth1_deposit_index \div (2 ^ k)) % 2
      step(n, k) == IF bit(k - 1) = 1 THEN Sha256(d.proof[k] \o n) ELSE Sha256(n \o d.proof[k])
  IN FoldLeft(step, HTR(DepositDataT, d.data), TLCEval([k \in 1..33 |-> k])) = s.eth1_data.deposit_root
DepositSigned(d) == Verify(d.public_key,
   SigningRoot(DepositMessageT, [public_key |-> d.public_key, withdrawal_credentials |-> d.withdrawal_credentials, amount |-> d.amount],
               ComputeDomain(D_DEPOSIT, C.genesis_fork_version, ZERO32)), d.signature)
NewValidator(d, eff) == [public_key |-> d.public_key, withdrawal_credentials |-> d.withdrawal_credentials, effective_balance |-> eff,
   slashed |-> FALSE, activation_eligibility_epoch |-> FAR, activation_epoch |-> FAR, exit_epoch |-> FAR, withdrawable_epoch |-> FAR]
Register(s, d) ==
  LET e == IsE(s)
      eff == IF e THEN 0 ELSE MinI(d.amount - (d.amount % EBI), C.max_effective_balance)
      s1 == [s EXCEPT !.validators = Append(@, NewValidator(d, eff)), !.balances = Append(@, IF e THEN 0 ELSE d.amount)]
      s2 == IF s.fk = "phase0" THEN s1
            ELSE [s1 EXCEPT !.previous_epoch_participation = Append(@, 0), !.current_epoch_participation = Append(@, 0),
                            !.inactivity_scores = Append(@, 0)]
  IN IF e THEN [s2 EXCEPT !.pending_balance_deposits = Append(@, [index |-> NumV(s), amount |-> d.amount])] ELSE s2
ApplyDeposit(s, d) ==
  LET i == IndexOfKey(s, d.public_key) IN
  IF i = NoOne THEN (IF DepositSigned(d) THEN Register(s, d) ELSE s)
  ELSE IF ~IsE(s) THEN IncBal(s, i, d.amount)
  ELSE LET s1 == [s EXCEPT !.pending_balance_deposits = Append(@, [index |-> i, amount |-> d.amount])]
       IN IF Prefix(d) = "02" /\ HasEth1(V(s, i)) /\ DepositSigned(d) THEN SwitchToCompounding(s1, i) ELSE s1
ProcessDeposit(s, d) ==
  IF DepositBranch(s, d) THEN Ok(ApplyDeposit([s EXCEPT !.eth1_deposit_index = @ + 1], d.data)) ELSE Err

\* ---- exits, credential changes
ExitDomain(s, e) == IF Ge(s.fk, "deneb") THEN ComputeDomain(D_EXIT, C.capella_fork_version, s.genesis_validators_root)
                    ELSE DomainAt(s, D_EXIT, e)
ProcessVoluntaryExit(s, op) ==
  LET m == op.message
      i == m.validator_index
      v == V(s, i)
      since == IF Deviates("exit-maturity", s.fk) THEN v.activation_eligibility_epoch ELSE v.activation_epoch
  IN IF ~Known(s, i) THEN Err
     ELSE IF /\ IsActive(v, CurEp(s)) /\ v.exit_epoch = FAR /\ CurEp(s) >= m.epoch
             /\ CurEp(s) >= since + C.shard_committee_period
             /\ (IsE(s) => PendingToWithdraw(s, i) = 0)
             /\ Verify(v.public_key, SigningRoot(VoluntaryExitT, m, ExitDomain(s, m.epoch)), op.signature)
          THEN Ok(InitiateExit(s, i)) ELSE Err
ProcessBlsChange(s, op) ==
  LET m == op.message
      i == m.validator_index
      v == V(s, i)
  IN IF ~Known(s, i) THEN Err
     ELSE IF /\ Prefix(v) = "00"
             /\ Slice(v.withdrawal_credentials, 1, 31) = Slice(Sha256(m.from_bls_public_key), 1, 31)
             /\ Verify(m.from_bls_public_key,
                       SigningRoot(BlsChangeT, m, ComputeDomain(D_BLS_CHANGE, C.genesis_fork_version, s.genesis_validators_root)), op.signature)
          THEN Ok([s EXCEPT !.validators[i + 1].withdrawal_credentials = "01" \o Zeros(11) \o m.to_execution_address])
          ELSE Err

\* ---- sync aggregate
SyncPrevSlot(s) == MaxI(s.slot, 1) - 1
ProcessSyncAggregate(s, a) ==
  LET ps == SyncPrevSlot(s)
      pks == s.current_sync_committee.public_keys
      on == SelectSeq(Idx(pks), LAMBDA k : At(a.sync_committee_bits, k) = 1)
      idx == MapS(pks, LAMBDA p : IndexOfKey(s, p))
  IN IF ~BlockRootKnown(s, ps) THEN Err
     ELSE IF ~EthFastAggVerify(MapS(on, LAMBDA k : At(pks, k)),
                SigningRoot(B32, BlockRootAt(s, ps), DomainAt(s, D_SYNC, EpochOf(ps))), a.sync_committee_signature) THEN Err
     ELSE IF \E k \in 1..Len(idx) : idx[k] = NoOne THEN Err
     ELSE LET inc == TotalActive(s) \div EBI
              max == MulDiv(BaseRewardPerInc(s) * inc, 2, 64) \div SPE
              part == max \div C.sync_committee_size
              prop == (part * 8) \div (64 - 8)
              who == Proposer(s)
              one(t, k) == IF a.sync_committee_bits[k] = 1 THEN IncBal(IncBal(t, idx[k], part), who, prop) ELSE DecBal(t, idx[k], part)
          IN Ok(FoldLeft(one, s, TLCEval([k \in 1..Len(idx) |-> k])))

\* ---- execution payload
RECURSIVE DefaultOf(_)
DefaultOf(ty) == CASE ty.t = "u" -> 0 [] ty.t = "bool" -> FALSE [] ty.t = "bv" -> Zeros(ty.n) [] ty.t = "bl" -> ""
                   [] ty.t \in {"list", "listd", "bitl"} -> <<>>
                   [] ty.t = "vec" -> TLCEval([k \in 1..ty.n |-> DefaultOf(ty.e)])
                   [] ty.t = "bitv" -> TLCEval([k \in 1..ty.n |-> 0])
                   [] ty.t = "cont" -> TLCEval([x \in {ty.fs[k][1] : k \in 1..Len(ty.fs)} |->
                                          DefaultOf(ty.fs[CHOOSE k \in 1..Len(ty.fs) : ty.fs[k][1] = x][2])])
MergeDone(s) == s.latest_execution_payload_header # DefaultOf(PayloadHeaderT[s.fk])
ExecutionEnabled(s, body) == MergeDone(s) \/ body.execution_payload # DefaultOf(PayloadT[s.fk])
TimestampAt(s, slot) == s.genesis_time + slot * C.seconds_per_slot
HeaderOf(f, p) ==
  LET base == TLCEval([x \in {PayloadBase[k][1] : k \in 1..Len(PayloadBase)} |-> p[x]])
      h1 == base @@ [transactions_root |-> HTR(TransactionsT, p.transactions)]
      h2 == IF Ge(f, "capella") THEN h1 @@ [withdrawals_root |-> HTR(WithdrawalsT, p.withdrawals)] ELSE h1
      h3 == IF Ge(f, "deneb") THEN h2 @@ [blob_gas_used |-> p.blob_gas_used, excess_blob_gas |-> p.excess_blob_gas] ELSE h2
  IN IF f = "electra" THEN h3 @@ [deposit_receipts_root |-> HTR(DepositReceiptsT, p.deposit_receipts),
                                  withdrawal_requests_root |-> HTR(WithdrawalRequestsT, p.withdrawal_requests)]
     ELSE h3
\* the request that puts a payload before the execution engine
VersionedHash(c) == "01" \o Slice(Sha256(c), 1, 31)
Asked(f, body, parent) ==
  LET r == [payload |-> body.execution_payload]
  IN IF ~Ge(f, "deneb") THEN r
     ELSE r @@ [hashes |-> TLCEval([k \in 1..Len(body.blob_kzg_commitments) |-> VersionedHash(body.blob_kzg_commitments[k])]), parent |-> parent]
ProcessPayload(s, body, engine) ==
  LET p == body.execution_payload IN
  IF /\ (s.fk = "bellatrix" /\ ~MergeDone(s)) \/ p.parent_hash = s.latest_execution_payload_header.block_hash
     /\ p.prev_randao = RandaoMix(s, CurEp(s))
     /\ p.timestamp = TimestampAt(s, s.slot)
     /\ (Ge(s.fk, "deneb") => Len(body.blob_kzg_commitments) <= C.max_blobs_per_block)
     /\ engine
  THEN Ok([s EXCEPT !.latest_execution_payload_header = HeaderOf(s.fk, p)])
  ELSE Err

\* ---- withdrawals
FullyWithdrawable(s, v, b, e) == (IF IsE(s) THEN HasExecution(v) ELSE HasEth1(v)) /\ v.withdrawable_epoch <= e /\ b > 0
PartiallyWithdrawable(s, v, b) ==
  LET max == IF IsE(s) THEN MaxEff(v) ELSE C.max_effective_balance
  IN (IF IsE(s) THEN HasExecution(v) ELSE HasEth1(v)) /\ v.effective_balance = max /\ b > max
MkWithdrawal(s, n, i, amount) == [index |-> n, validator_index |-> i, address |-> AddressOf(V(s, i)), amount |-> amount]
RECURSIVE Sweep(_, _, _, _)
\* look at `left` more validators from i, appending to acc
Sweep(s, i, left, acc) ==
  IF left = 0 \/ Len(acc) = C.max_withdrawals_per_payload THEN acc
  ELSE LET v == V(s, i)
           b == At(s.balances, i)
           amt == IF FullyWithdrawable(s, v, b, CurEp(s)) THEN b
                  ELSE IF PartiallyWithdrawable(s, v, b) THEN b - (IF IsE(s) THEN MaxEff(v) ELSE C.max_effective_balance) ELSE 0
       IN Sweep(s, (i + 1) % NumV(s), left - 1,
                IF amt > 0 THEN Append(acc, MkWithdrawal(s, s.next_withdrawal_index + Len(acc), i, amt)) ELSE acc)
RECURSIVE Partials(_, _, _)
Partials(s, k, acc) ==
  IF k > Len(s.pending_partial_withdrawals) THEN acc
  ELSE LET w == s.pending_partial_withdrawals[k] IN
       IF w.withdrawable_epoch > CurEp(s) \/ Len(acc) = C.max_pending_partials_per_withdrawals_sweep THEN acc
       ELSE LET v == V(s, w.index)
                b == At(s.balances, w.index)
                go == v.exit_epoch = FAR /\ v.effective_balance >= C.min_activation_balance /\ b > C.min_activation_balance
            IN Partials(s, k + 1, IF go THEN Append(acc, MkWithdrawal(s, s.next_withdrawal_index + Len(acc), w.index,
                                                        MinI(b - C.min_activation_balance, w.amount))) ELSE acc)
PartialsOf(s) == IF IsE(s) THEN Partials(s, 1, <<>>) ELSE <<>>
ExpectedWithdrawals(s) == Sweep(s, s.next_withdrawal_validator_index, MinI(NumV(s), C.max_validators_per_withdrawals_sweep), PartialsOf(s))
ProcessWithdrawals(s, payload) ==
  LET ws == ExpectedWithdrawals(s)
      n == Len(ws)
      s1 == FoldLeft(LAMBDA t, w : DecBal(t, w.validator_index, w.amount), s, ws)
      s2 == [s1 EXCEPT !.next_withdrawal_index = IF n > 0 THEN ws[n].index + 1 ELSE @,
                       !.next_withdrawal_validator_index =
                          IF n = C.max_withdrawals_per_payload THEN (ws[n].validator_index + 1) % NumV(s)
                          ELSE (@ + C.max_validators_per_withdrawals_sweep) % NumV(s)]
  IN IF payload.withdrawals # ws THEN Err
     ELSE Ok(IF IsE(s) THEN [s2 EXCEPT !.pending_partial_withdrawals = SubSeq(@, Len(PartialsOf(s)) + 1, Len(@))] ELSE s2)

\* ---- electra requests
ProcessWithdrawalRequest(s, r) ==
  LET full == r.amount = 0
      i == IndexOfKey(s, r.validator_public_key)
      v == V(s, i)
      e == CurEp(s)
      pend == PendingToWithdraw(s, i)
      b == At(s.balances, i)
  IN IF Len(s.pending_partial_withdrawals) = C.pending_partial_withdrawals_limit /\ ~full THEN s
     ELSE IF i = NoOne THEN s
     ELSE IF ~(HasExecution(v) /\ AddressOf(v) = r.source_address /\ IsActive(v, e) /\ v.exit_epoch = FAR
               /\ e >= v.activation_epoch + C.shard_committee_period) THEN s
     ELSE IF full THEN (IF pend = 0 THEN InitiateExit(s, i) ELSE s)
     ELSE IF HasCompounding(v) /\ v.effective_balance >= C.min_activation_balance /\ b > C.min_activation_balance + pend
     THEN LET amt == MinI(b - C.min_activation_balance - pend, r.amount)
              t == TakeExit(s, amt)
          IN [t.s EXCEPT !.pending_partial_withdrawals = Append(@, [index |-> i, amount |-> amt,
                             withdrawable_epoch |-> t.epoch + C.min_validator_withdrawability_delay])]
     ELSE s
ProcessDepositReceipt(s, r) ==
  ApplyDeposit(IF s.deposit_receipts_start_index = FAR THEN [s EXCEPT !.deposit_receipts_start_index = r.index] ELSE s, r)
ProcessConsolidation(s, op) ==
  LET m == op.message
      a == m.source_index
      b == m.target_index
      e == CurEp(s)
  IN IF ~(/\ Len(s.pending_consolidations) < C.pending_consolidations_limit
          /\ ConsolidationChurn(s) > C.min_activation_balance
          /\ a # b /\ Known(s, a) /\ Known(s, b)) THEN Err
     ELSE IF ~(/\ IsActive(V(s, a), e) /\ IsActive(V(s, b), e)
               /\ V(s, a).exit_epoch = FAR /\ V(s, b).exit_epoch = FAR
               /\ e >= m.epoch
               /\ HasExecution(V(s, a)) /\ HasExecution(V(s, b)) /\ AddressOf(V(s, a)) = AddressOf(V(s, b))
               /\ FastAggVerify(<<V(s, a).public_key, V(s, b).public_key>>,
                    SigningRoot(ConsolidationT, m, ComputeDomain(D_CONSOLIDATION, C.genesis_fork_version, s.genesis_validators_root)),
                    op.signature)) THEN Err
     ELSE LET t == TakeConsolidation(s, V(s, a).effective_balance)
          IN Ok([SetExit(t.s, a, t.epoch) EXCEPT !.pending_consolidations = Append(@, [source_index |-> a, target_index |-> b])])

\* ---- all operations of a block
ExpectedDeposits(s) ==
  LET limit == IF IsE(s) THEN MinI(s.eth1_data.deposit_count, s.deposit_receipts_start_index) ELSE s.eth1_data.deposit_count
  IN IF s.eth1_deposit_index < limit THEN MinI(C.max_deposits, limit - s.eth1_deposit_index)
     ELSE IF IsE(s) \/ s.eth1_deposit_index = limit THEN 0
     ELSE NoOne      \* more deposits processed than the voted contract state holds: no block is valid
ProcessOperations(s, b) ==
  LET r0 == IF Len(b.deposits) = ExpectedDeposits(s) THEN Ok(s) ELSE Err
      r1 == Then(r0, LAMBDA t : ForEach(t, b.proposer_slashings, ProcessProposerSlashing))
      r2 == Then(r1, LAMBDA t : ForEach(t, b.attester_slashings, ProcessAttesterSlashing))
      r3 == Then(r2, LAMBDA t : ForEach(t, b.attestations, ProcessAttestation))
      r4 == Then(r3, LAMBDA t : ForEach(t, b.deposits, ProcessDeposit))
      r5 == Then(r4, LAMBDA t : ForEach(t, b.voluntary_exits, ProcessVoluntaryExit))
      r6 == IF Ge(s.fk, "capella") THEN Then(r5, LAMBDA t : ForEach(t, b.bls_to_execution_changes, ProcessBlsChange)) ELSE r5
  IN IF ~IsE(s) THEN r6
     ELSE LET p == b.execution_payload
              r7 == Then(r6, LAMBDA t : Ok(FoldLeft(ProcessWithdrawalRequest, t, p.withdrawal_requests)))
              r8 == Then(r7, LAMBDA t : Ok(FoldLeft(ProcessDepositReceipt, t, p.deposit_receipts)))
          IN Then(r8, LAMBDA t : ForEach(t, b.consolidations, ProcessConsolidation))
ProcessBlock(s, b, engine) ==
  LET f == s.fk
      r1 == ProcessHeader(s, b)
      r2 == IF f = "bellatrix"
            THEN Then(r1, LAMBDA t : IF ExecutionEnabled(t, b.body) THEN ProcessPayload(t, b.body, engine) ELSE Ok(t))
            ELSE IF Ge(f, "capella")
            THEN Then(Then(r1, LAMBDA t : ProcessWithdrawals(t, b.body.execution_payload)),
                      LAMBDA t : ProcessPayload(t, b.body, engine))
            ELSE r1
      r3 == Then(r2, LAMBDA t : ProcessRandao(t, b.body))
      r4 == Then(r3, LAMBDA t : Ok(ProcessEth1(t, b.body)))
      r5 == Then(r4, LAMBDA t : ProcessOperations(t, b.body))
  IN IF f = "phase0" THEN r5 ELSE Then(r5, LAMBDA t : ProcessSyncAggregate(t, b.body.sync_aggregate))
=============================================================================
