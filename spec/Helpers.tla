------------------------------ MODULE Helpers ------------------------------
(* Accessors, predicates and mutators of the beacon state. A state is a record of the fields of its     *)
(* fork's container plus fk, the fork's name. Indices, slots and epochs are 0-based as in the code.     *)
EXTENDS Types, SequencesExt, FiniteSets

At(v, i) == v[i + 1]
MaxI(a, b) == IF a > b THEN a ELSE b
MinI(a, b) == IF a < b THEN a ELSE b
Idx(v) == TLCEval([i \in 1..Len(v) |-> i - 1])                    \* <<0, 1, ..., Len(v)-1>>
Sum(v) == FoldLeft(LAMBDA a, b : a + b, 0, v)
MapS(v, Op(_)) == TLCEval([i \in 1..Len(v) |-> Op(v[i])])
SeqSet(v) == {v[i] : i \in 1..Len(v)}
RECURSIVE Ascending(_)
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
Ascending(S) == IF S = {} THEN <<>> ELSE LET m == MinOf(S) IN <<m>> \o Ascending(S \ {m})
RECURSIVE ISqrtStep(_, _, _)
ISqrtStep(x, y, n) == IF y < x THEN ISqrtStep(y, (y + n \div y) \div 2, n) ELSE x
ISqrt(n) == IF n = 0 THEN 0 ELSE ISqrtStep(n, (n + 1) \div 2, n)

Err == [ok |-> FALSE]
Ok(s) == [ok |-> TRUE, s |-> s]

\* run Op on each element in turn, stopping at the first error
ForEach(s0, v, Op(_, _)) == FoldLeft(LAMBDA r, x : IF r.ok THEN Op(r.s, x) ELSE r, Ok(s0), v)
\* Error conditions first: Then(r, Op) continues with r's state
Then(r, Op(_)) == IF r.ok THEN Op(r.s) ELSE r

SPE == C.slots_per_epoch
EBI == C.effective_balance_increment
IsE(s) == s.fk = "electra"
EpochOf(slot) == slot \div SPE
StartSlot(e) == e * SPE
CurEp(s) == EpochOf(s.slot)
PrevEp(s) == IF CurEp(s) = 0 THEN 0 ELSE CurEp(s) - 1
NumV(s) == Len(s.validators)
V(s, i) == s.validators[i + 1]
Known(s, i) == i >= 0 /\ i < Len(s.validators)
VIdx(s) == TLCEval([i \in 1..Len(s.validators) |-> i - 1])

IsActive(v, e) == v.activation_epoch <= e /\ e < v.exit_epoch
ActiveIdx(s, e) == SelectSeq(VIdx(s), LAMBDA i : IsActive(V(s, i), e))
IsSlashable(v, e) == ~v.slashed /\ v.activation_epoch <= e /\ e < v.withdrawable_epoch
TotalBal(s, idx) == MaxI(EBI, Sum(MapS(idx, LAMBDA i : V(s, i).effective_balance)))
TotalActive(s) == TotalBal(s, ActiveIdx(s, CurEp(s)))

\* ---- history
BlockRootKnown(s, slot) == slot < s.slot /\ s.slot <= slot + C.slots_per_historical_root
BlockRootAt(s, slot) == At(s.block_roots, slot % C.slots_per_historical_root)
BlockRootOfEpoch(s, e) == BlockRootAt(s, StartSlot(e))
RandaoMix(s, e) == At(s.randao_mixes, e % C.epochs_per_historical_vector)

\* ---- domains
D_PROPOSER == "00000000"
D_ATTESTER == "01000000"
D_RANDAO == "02000000"
D_DEPOSIT == "03000000"
D_EXIT == "04000000"
D_SELECTION == "05000000"
D_AGGREGATE == "06000000"
D_SYNC == "07000000"
D_SYNC_SELECTION == "08000000"
D_CONTRIBUTION == "09000000"
D_BLS_CHANGE == "0a000000"
D_CONSOLIDATION == "0b000000"
D_BUILDER == "00000001"
ForkDataRoot(ver, gvr) == HTR(ForkDataT, [current_version |-> ver, genesis_validators_root |-> gvr])
ComputeDomain(type, ver, gvr) == type \o Slice(ForkDataRoot(ver, gvr), 0, 28)
ForkDigest(ver, gvr) == Slice(ForkDataRoot(ver, gvr), 0, 4)
DomainAt(s, type, e) == ComputeDomain(type, IF e < s.fork.epoch THEN s.fork.previous_version ELSE s.fork.current_version,
                                      s.genesis_validators_root)
SigningRoot(ty, v, dom) == HTR(SigningDataT, [object_root |-> HTR(ty, v), domain |-> dom])

\* ---- signatures (ideal scheme, see Bytes)
Verify(pk, msg, sig) == IdealPkValid(pk) /\ IdealSigDecodes(sig) /\ IdealCheck(<<pk>>, <<msg>>, sig)
FastAggVerify(pks, msg, sig) ==
  /\ pks # <<>> /\ \A k \in 1..Len(pks) : IdealPkValid(pks[k])
  /\ IdealSigDecodes(sig) /\ IdealSum(pks, 48) # PkInfinity
  /\ IdealCheck(pks, TLCEval([k \in 1..Len(pks) |-> msg]), sig)
AggVerify(pks, msgs, sig) ==
  /\ pks # <<>> /\ Len(pks) = Len(msgs) /\ \A k \in 1..Len(pks) : IdealPkValid(pks[k])
  /\ IdealSigDecodes(sig) /\ IdealCheck(pks, msgs, sig)
EthFastAggVerify(pks, msg, sig) == IF pks = <<>> THEN sig = SigInfinity ELSE FastAggVerify(pks, msg, sig)

\* ---- shuffling and committees
Seed(s, e, type) == Sha256(type \o LE(e, 8) \o RandaoMix(s, e + C.epochs_per_historical_vector - C.min_seed_lookahead - 1))
RECURSIVE ShuffleRounds(_, _, _, _)
ShuffleRounds(i, n, seed, r) ==
  IF r = C.shuffle_round_count THEN i
  ELSE LET pivot == ModLE(Slice(Sha256(seed \o LE(r, 1)), 0, 8), n)
           flip == (pivot + n - i) % n
           pos == MaxI(i, flip)
           src == Sha256(seed \o LE(r, 1) \o LE(pos \div 256, 4))
       IN ShuffleRounds(IF BitAt(src, pos % 256) = 1 THEN flip ELSE i, n, seed, r + 1)
ShuffledIndex(i, n, seed) == ShuffleRounds(i, n, seed, 0)
\* the whole shuffle: position i holds indices[ShuffledIndex(i)]
ShuffledList(v, seed) == TLCEval([i \in 1..Len(v) |-> At(v, ShuffledIndex(i - 1, Len(v), seed))])

CommitteesPerSlotOf(nActive) == MaxI(1, MinI(C.max_committees_per_slot, (nActive \div SPE) \div C.target_committee_size))
CommitteesPerSlot(s, e) == CommitteesPerSlotOf(Len(ActiveIdx(s, e)))
CommitteeSlice(active, seed, k, count) ==
  LET n == Len(active)
      lo == (n * k) \div count
      hi == (n * (k + 1)) \div count
  IN TLCEval([i \in 1..(hi - lo) |-> At(active, ShuffledIndex(lo + i - 1, n, seed))])
Committee(s, slot, idx) ==
  LET e == EpochOf(slot)
      active == ActiveIdx(s, e)
      cps == CommitteesPerSlotOf(Len(active))
  IN CommitteeSlice(active, Seed(s, e, D_ATTESTER), (slot % SPE) * cps + idx, cps * SPE)
\* all committees of an epoch: table[slot offset + 1][index + 1]
CommitteeTable(s, e) ==
  LET active == ActiveIdx(s, e)
      cps == CommitteesPerSlotOf(Len(active))
      perm == ShuffledList(active, Seed(s, e, D_ATTESTER))
      n == Len(active)
  IN TLCEval([o \in 1..SPE |-> [x \in 1..cps |->
        LET k == (o - 1) * cps + x - 1 IN SubSeq(perm, (n * k) \div (cps * SPE) + 1, (n * (k + 1)) \div (cps * SPE))]])
TabCommittee(tab, data) == tab[(data.slot % SPE) + 1][data.index + 1]

RECURSIVE SampleProposer(_, _, _, _, _)
SampleProposer(s, idx, seed, maxEff, i) ==
  LET cand == At(idx, ShuffledIndex(i % Len(idx), Len(idx), seed))
      rnd == ByteAt(Sha256(seed \o LE(i \div 32, 8)), i % 32)
  IN IF V(s, cand).effective_balance * 255 >= maxEff * rnd THEN cand
     ELSE SampleProposer(s, idx, seed, maxEff, i + 1)
ComputeProposer(s, idx, seed) ==
  SampleProposer(s, idx, seed, C.max_effective_balance, 0)
HasProposer(s) == ActiveIdx(s, CurEp(s)) # <<>>
Proposer(s) == ComputeProposer(s, ActiveIdx(s, CurEp(s)), Sha256(Seed(s, CurEp(s), D_PROPOSER) \o LE(s.slot, 8)))

\* ---- attestations

BitsSet(committee, bits) == {committee[k] : k \in {j \in 1..Len(committee) : bits[j] = 1}}
CommitteeIndices(bits) == SelectSeq(Idx(bits), LAMBDA i : At(bits, i) = 1)
\* electra: the committees named by committee_bits, in order
RECURSIVE ElectraAttesters(_, _, _, _, _)
ElectraAttesters(s, att, cis, k, off) ==
  IF k > Len(cis) THEN {}
  ELSE LET c == Committee(s, att.data.slot, cis[k]) IN
       {c[j] : j \in {j \in 1..Len(c) : off + j <= Len(att.aggregation_bits) /\ att.aggregation_bits[off + j] = 1}}
       \cup ElectraAttesters(s, att, cis, k + 1, off + Len(c))
Attesters(s, att) == IF IsE(s) THEN ElectraAttesters(s, att, CommitteeIndices(att.committee_bits), 1, 0)
                     ELSE BitsSet(Committee(s, att.data.slot, att.data.index), att.aggregation_bits)
Indexed(s, att) == [attesting_indices |-> Ascending(Attesters(s, att)), data |-> att.data, signature |-> att.signature]
ValidIndexed(s, a) ==
  LET ix == a.attesting_indices IN
  /\ ix # <<>>
  /\ \A k \in 1..(Len(ix) - 1) : ix[k] < ix[k + 1]
  /\ \A k \in 1..Len(ix) : Known(s, ix[k])
  /\ FastAggVerify(MapS(ix, LAMBDA i : V(s, i).public_key),
                   SigningRoot(AttDataT, a.data, DomainAt(s, D_ATTESTER, a.data.target.epoch)), a.signature)
SlashableData(a, b) == \/ a # b /\ a.target.epoch = b.target.epoch
                       \/ a.source.epoch < b.source.epoch /\ b.target.epoch < a.target.epoch

\* ---- participation flags (altair on)
FlagBit(flags, k) == (flags \div (2 ^ k)) % 2 = 1
AddFlag(flags, k) == IF FlagBit(flags, k) THEN flags ELSE flags + 2 ^ k
SOURCE == 0
TARGET == 1
HEAD == 2
FlagWeights == <<14, 26, 14>>
Participation(s, e) == IF e = CurEp(s) THEN s.current_epoch_participation ELSE s.previous_epoch_participation
\* unslashed validators active in epoch e (current or previous) with flag k
UnslashedWith(s, k, e) == LET p == Participation(s, e) IN
  SelectSeq(ActiveIdx(s, e), LAMBDA i : FlagBit(At(p, i), k) /\ ~V(s, i).slashed)
Sqrt(s) == ISqrt(TotalActive(s))
BaseRewardPerInc(s) == (EBI * C.base_reward_factor) \div Sqrt(s)
BaseRewardA(s, perInc, i) == (V(s, i).effective_balance \div EBI) * perInc
FinalityDelay(s) == PrevEp(s) - s.finalized_checkpoint.epoch
Leaking(s) == FinalityDelay(s) > C.min_epochs_to_inactivity_penalty
Eligible(s) == SelectSeq(VIdx(s), LAMBDA i :
   IsActive(V(s, i), PrevEp(s)) \/ (V(s, i).slashed /\ PrevEp(s) + 1 < V(s, i).withdrawable_epoch))

\* ---- fork-dependent parameters
MinSlashQuot(f) == CASE f = "phase0" -> C.min_slashing_penalty_quotient
                     [] f = "altair" -> C.min_slashing_penalty_quotient_altair
                     [] f = "electra" -> C.min_slashing_penalty_quotient_electra
                     [] OTHER -> C.min_slashing_penalty_quotient_bellatrix
SlashMult(f) == CASE f = "phase0" -> C.proportional_slashing_multiplier
                  [] f = "altair" -> C.proportional_slashing_multiplier_altair
                  [] OTHER -> C.proportional_slashing_multiplier_bellatrix
InactQuot(f) == CASE f = "phase0" -> C.inactivity_penalty_quotient
                  [] f = "altair" -> C.inactivity_penalty_quotient_altair
                  [] OTHER -> C.inactivity_penalty_quotient_bellatrix

\* ---- credentials
Prefix(v) == Slice(v.withdrawal_credentials, 0, 1)
HasEth1(v) == Prefix(v) = "01"
HasCompounding(v) == Prefix(v) = "02"
HasExecution(v) == HasEth1(v) \/ HasCompounding(v)
AddressOf(v) == Slice(v.withdrawal_credentials, 12, 20)
MaxEff(v) == IF HasCompounding(v) THEN C.max_effective_balance_electra ELSE C.min_activation_balance
EffCap(s, v) == IF IsE(s) THEN MaxEff(v) ELSE C.max_effective_balance
ActiveBalance(s, i) == MinI(At(s.balances, i), MaxEff(V(s, i)))
PendingToWithdraw(s, i) ==
  Sum(MapS(SelectSeq(s.pending_partial_withdrawals, LAMBDA w : w.index = i), LAMBDA w : w.amount))

\* ---- mutators
IncBal(s, i, d) == [s EXCEPT !.balances[i + 1] = @ + d]
DecBal(s, i, d) == [s EXCEPT !.balances[i + 1] = IF d > @ THEN 0 ELSE @ - d]
ActExit(e) == e + 1 + C.max_seed_lookahead
Churn(s) == MaxI(C.min_per_epoch_churn_limit, Len(ActiveIdx(s, CurEp(s))) \div C.churn_limit_quotient)
ActivationChurn(s) == MinI(C.max_per_epoch_activation_churn_limit, Churn(s))
\* electra: churn measured in balance, in whole increments
BalanceChurn(s) == LET c == MaxI(C.min_per_epoch_churn_limit_electra, TotalActive(s) \div C.churn_limit_quotient)
                   IN c - (c % EBI)
ActExitChurn(s) == MinI(C.max_per_epoch_activation_exit_churn_limit, BalanceChurn(s))
ConsolidationChurn(s) == BalanceChurn(s) - ActExitChurn(s)
\* take `amount` from the queue whose epoch/remaining are e0/rem0 with `per` per epoch: [epoch, left]
TakeChurn(s, amount, e0, rem0, per) ==
  LET first == MaxI(e0, ActExit(CurEp(s)))
      avail == IF e0 < first THEN per ELSE rem0
      more == IF amount > avail THEN (amount - avail - 1) \div per + 1 ELSE 0
  IN [epoch |-> first + more, left |-> avail + more * per - amount]
TakeExit(s, amount) ==
  LET t == TakeChurn(s, amount, s.earliest_exit_epoch, s.exit_balance_to_consume, ActExitChurn(s))
  IN [epoch |-> t.epoch, s |-> [s EXCEPT !.earliest_exit_epoch = t.epoch, !.exit_balance_to_consume = t.left]]
TakeConsolidation(s, amount) ==
  LET t == TakeChurn(s, amount, s.earliest_consolidation_epoch, s.consolidation_balance_to_consume, ConsolidationChurn(s))
  IN [epoch |-> t.epoch, s |-> [s EXCEPT !.earliest_consolidation_epoch = t.epoch, !.consolidation_balance_to_consume = t.left]]
SetExit(s, i, e) == [s EXCEPT !.validators[i + 1] = [@ EXCEPT !.exit_epoch = e,
                                                     !.withdrawable_epoch = e + C.min_validator_withdrawability_delay]]
InitiateExit(s, i) ==
  IF V(s, i).exit_epoch # FAR THEN s
  ELSE IF IsE(s) THEN LET t == TakeExit(s, V(s, i).effective_balance) IN SetExit(t.s, i, t.epoch)
  ELSE LET exits == {V(s, j).exit_epoch : j \in {j \in 0..(NumV(s) - 1) : V(s, j).exit_epoch # FAR}}
           q == MaxOf(exits \cup {ActExit(CurEp(s))})
           n == Cardinality({j \in 0..(NumV(s) - 1) : V(s, j).exit_epoch = q})
       IN SetExit(s, i, IF n >= Churn(s) THEN q + 1 ELSE q)
NoOne == -1
Slash(s0, i, whistleblower) ==
  LET e == CurEp(s0)
      s1 == InitiateExit(s0, i)
      v == V(s1, i)
      eff == v.effective_balance
      s2 == [s1 EXCEPT !.validators[i + 1] = [v EXCEPT !.slashed = TRUE,
                            !.withdrawable_epoch = MaxI(@, e + C.epochs_per_slashings_vector)],
                       !.slashings[(e % C.epochs_per_slashings_vector) + 1] = @ + eff]
      s3 == DecBal(s2, i, eff \div MinSlashQuot(s0.fk))
      prop == Proposer(s3)
      wb == IF whistleblower = NoOne THEN prop ELSE whistleblower
      wr == eff \div (IF IsE(s0) THEN C.whistleblower_reward_quotient_electra ELSE C.whistleblower_reward_quotient)
      pr == IF s0.fk = "phase0" THEN wr \div C.proposer_reward_quotient ELSE IF Deviates("slash-share", s0.fk) THEN 0 ELSE (wr * 8) \div 64
  IN IncBal(IncBal(s3, prop, pr), wb, wr - pr)
=============================================================================
