------------------------------- MODULE Epoch -------------------------------
(* The epoch transition, step by step, for every fork. Each step maps a state to a state. *)
EXTENDS Helpers

\* ---- justification and finalization
SourceCp(s, e) == IF e = CurEp(s) THEN s.current_justified_checkpoint ELSE s.previous_justified_checkpoint
Weigh(s, total, prevBal, curBal) ==
  LET pe == PrevEp(s)
      ce == CurEp(s)
      oldP == s.previous_justified_checkpoint
      oldC == s.current_justified_checkpoint
      jp == prevBal * 3 >= total * 2
      jc == curBal * 3 >= total * 2
      b == s.justification_bits
      bits == <<IF jc THEN 1 ELSE 0, IF jp THEN 1 ELSE b[1], b[2], b[3]>>
      newC == IF jc THEN [epoch |-> ce, root |-> BlockRootOfEpoch(s, ce)]
              ELSE IF jp THEN [epoch |-> pe, root |-> BlockRootOfEpoch(s, pe)]
              ELSE oldC
      all(lo, hi) == \A k \in lo..hi : bits[k] = 1
      fin == IF all(1, 2) /\ oldC.epoch + 1 = ce THEN oldC
             ELSE IF all(1, 3) /\ oldC.epoch + 2 = ce THEN oldC
             ELSE IF all(2, 3) /\ oldP.epoch + 2 = ce THEN oldP
             ELSE IF all(2, 4) /\ oldP.epoch + 3 = ce THEN oldP
             ELSE s.finalized_checkpoint
  IN [s EXCEPT !.justification_bits = bits, !.previous_justified_checkpoint = oldC,
               !.current_justified_checkpoint = newC, !.finalized_checkpoint = fin]

\* ---- phase0: pending attestations
PendingOf(s, e) == IF e = CurEp(s) THEN s.current_epoch_attestations ELSE s.previous_epoch_attestations
MatchTarget(s, atts, e) == SelectSeq(atts, LAMBDA a : a.data.target.root = BlockRootOfEpoch(s, e))
MatchHead(s, atts, e) == SelectSeq(MatchTarget(s, atts, e), LAMBDA a : a.data.beacon_block_root = BlockRootAt(s, a.data.slot))
AttSet(tab, a) == BitsSet(TabCommittee(tab, a.data), a.aggregation_bits)
UnslashedAttesters(s, tab, atts) ==
  {i \in UNION {AttSet(tab, atts[k]) : k \in 1..Len(atts)} : ~V(s, i).slashed}
BalOfSet(s, S) == TotalBal(s, Ascending(S))

ProcessJustification(s) ==
  IF CurEp(s) <= 1 THEN s
  ELSE LET pe == PrevEp(s)
           ce == CurEp(s)
           prevBal == IF s.fk = "phase0"
                      THEN BalOfSet(s, UnslashedAttesters(s, CommitteeTable(s, pe), MatchTarget(s, s.previous_epoch_attestations, pe)))
                      ELSE TotalBal(s, UnslashedWith(s, TARGET, pe))
           curBal == IF s.fk = "phase0"
                     THEN BalOfSet(s, UnslashedAttesters(s, CommitteeTable(s, ce), MatchTarget(s, s.current_epoch_attestations, ce)))
                     ELSE TotalBal(s, UnslashedWith(s, TARGET, ce))
       IN Weigh(s, TotalActive(s), prevBal, curBal)

\* ---- inactivity scores (altair on)
ProcessInactivity(s) ==
  IF CurEp(s) = 0 THEN s
  ELSE LET hit == SeqSet(UnslashedWith(s, TARGET, PrevEp(s)))
           el == SeqSet(Eligible(s))
           leak == Leaking(s)
           upd(i, sc) == IF i \notin el THEN sc
                         ELSE LET x == IF i \in hit THEN sc - MinI(1, sc) ELSE sc + C.inactivity_score_bias
                              IN IF leak THEN x ELSE x - MinI(C.inactivity_score_recovery_rate, x)
       IN [s EXCEPT !.inactivity_scores = TLCEval([k \in 1..Len(@) |-> upd(k - 1, @[k])])]

\* ---- rewards and penalties. A delta is [r |-> rewards, p |-> penalties], sequences over validators.
ZeroDelta(s) == LET z == TLCEval([k \in 1..NumV(s) |-> 0]) IN [r |-> z, p |-> z]
\* phase0
BaseReward0(s, sq, i) == ((V(s, i).effective_balance * C.base_reward_factor) \div sq) \div 4
ProposerCut0(s, sq, i) == BaseReward0(s, sq, i) \div C.proposer_reward_quotient
ComponentDelta0(s, sq, total, hit) ==
  LET attBal == BalOfSet(s, hit)
      el == SeqSet(Eligible(s))
      leak == Leaking(s)
      r(i) == IF i \in el /\ i \in hit
              THEN IF leak THEN BaseReward0(s, sq, i)
                   ELSE MulDiv(BaseReward0(s, sq, i), attBal \div EBI, total \div EBI)
              ELSE 0
      p(i) == IF i \in el /\ i \notin hit THEN BaseReward0(s, sq, i) ELSE 0
  IN TLCEval([r |-> [k \in 1..NumV(s) |-> r(k - 1)], p |-> [k \in 1..NumV(s) |-> p(k - 1)]])
\* of the attestations containing i, the first with the least inclusion delay
EarliestFor(atts, sets, i) ==
  LET K == {k \in 1..Len(atts) : i \in sets[k]}
      d == MinOf({atts[k].inclusion_delay : k \in K})
  IN atts[MinOf({k \in K : atts[k].inclusion_delay = d})]
InclusionDelta0(s, sq, atts, sets, src) ==
  LET early == TLCEval([i \in src |-> EarliestFor(atts, sets, i)])
      r(j) == (IF j \in src THEN (BaseReward0(s, sq, j) - ProposerCut0(s, sq, j)) \div early[j].inclusion_delay ELSE 0)
              + Sum(MapS(Ascending({i \in src : early[i].proposer_index = j}), LAMBDA i : ProposerCut0(s, sq, i)))
  IN [r |-> TLCEval([k \in 1..NumV(s) |-> r(k - 1)]), p |-> ZeroDelta(s).p]
InactivityDelta0(s, sq, tgt) ==
  LET el == SeqSet(Eligible(s))
      p(i) == IF i \notin el \/ ~Leaking(s) THEN 0
              ELSE 4 * BaseReward0(s, sq, i) - ProposerCut0(s, sq, i)
                   + (IF i \in tgt THEN 0 ELSE MulDiv(V(s, i).effective_balance, FinalityDelay(s), C.inactivity_penalty_quotient))
  IN [r |-> ZeroDelta(s).r, p |-> TLCEval([k \in 1..NumV(s) |-> p(k - 1)])]
Deltas0(s) ==
  LET pe == PrevEp(s)
      tab == CommitteeTable(s, pe)
      src == PendingOf(s, pe)
      total == TotalActive(s)
      sq == ISqrt(total)
      us(atts) == UnslashedAttesters(s, tab, atts)
      sets == TLCEval([k \in 1..Len(src) |-> AttSet(tab, src[k])])
      S == TLCEval(us(src))
      T == TLCEval(us(MatchTarget(s, src, pe)))
      H == TLCEval(us(MatchHead(s, src, pe)))
  IN <<ComponentDelta0(s, sq, total, S), ComponentDelta0(s, sq, total, T), ComponentDelta0(s, sq, total, H),
       InclusionDelta0(s, sq, src, sets, S), InactivityDelta0(s, sq, T)>>
\* altair on
FlagDelta(s, k) ==
  LET hit == SeqSet(UnslashedWith(s, k, PrevEp(s)))
      el == SeqSet(Eligible(s))
      w == FlagWeights[k + 1]
      partInc == TotalBal(s, Ascending(hit)) \div EBI
      actInc == TotalActive(s) \div EBI
      per == BaseRewardPerInc(s)
      leak == Leaking(s)
      r(i) == IF i \in el /\ i \in hit /\ ~leak THEN MulDiv(BaseRewardA(s, per, i) * w, partInc, actInc * 64) ELSE 0
      p(i) == IF i \in el /\ i \notin hit /\ k # HEAD THEN (BaseRewardA(s, per, i) * w) \div 64 ELSE 0
  IN TLCEval([r |-> [j \in 1..NumV(s) |-> r(j - 1)], p |-> [j \in 1..NumV(s) |-> p(j - 1)]])
InactivityDelta(s) ==
  LET hit == SeqSet(UnslashedWith(s, TARGET, PrevEp(s)))
      el == SeqSet(Eligible(s))
      p(i) == IF i \in el /\ i \notin hit
              THEN MulDiv(V(s, i).effective_balance, At(s.inactivity_scores, i), C.inactivity_score_bias * InactQuot(s.fk)) ELSE 0
  IN [r |-> ZeroDelta(s).r, p |-> TLCEval([j \in 1..NumV(s) |-> p(j - 1)])]
DeltasA(s) == <<FlagDelta(s, SOURCE), FlagDelta(s, TARGET), FlagDelta(s, HEAD), InactivityDelta(s)>>
ApplyDelta(bals, d) == TLCEval([k \in 1..Len(bals) |-> LET b == bals[k] + d.r[k] IN IF d.p[k] > b THEN 0 ELSE b - d.p[k]])
SumDeltas(ds) == LET n == Len(ds[1].r) IN
  [r |-> TLCEval([k \in 1..n |-> Sum([j \in 1..Len(ds) |-> ds[j].r[k]])]),
   p |-> TLCEval([k \in 1..n |-> Sum([j \in 1..Len(ds) |-> ds[j].p[k]])])]
ProcessRewards(s) ==
  IF CurEp(s) = 0 THEN s
  ELSE IF s.fk = "phase0" THEN [s EXCEPT !.balances = ApplyDelta(@, SumDeltas(Deltas0(s)))]
  ELSE [s EXCEPT !.balances = FoldLeft(LAMBDA b, d : ApplyDelta(b, d), @, DeltasA(s))]

\* ---- registry
EligibleForQueue(s, v) == /\ v.activation_eligibility_epoch = FAR
                          /\ IF IsE(s) THEN v.effective_balance >= C.min_activation_balance
                             ELSE v.effective_balance = C.max_effective_balance
Activatable(s, v) == v.activation_eligibility_epoch <= s.finalized_checkpoint.epoch /\ v.activation_epoch = FAR
RegistryOne(s, i) ==
  LET s1 == IF EligibleForQueue(s, V(s, i)) THEN [s EXCEPT !.validators[i + 1].activation_eligibility_epoch = CurEp(s) + 1] ELSE s
  IN IF IsActive(V(s1, i), CurEp(s)) /\ V(s1, i).effective_balance <= C.ejection_balance THEN InitiateExit(s1, i) ELSE s1
ActivationQueue(s) ==
  SortSeq(SelectSeq(VIdx(s), LAMBDA i : Activatable(s, V(s, i))),
          LAMBDA i, j : LET a == V(s, i).activation_eligibility_epoch
                            b == V(s, j).activation_eligibility_epoch IN a < b \/ (a = b /\ i < j))
ProcessRegistry(s) ==
  LET s1 == FoldLeft(RegistryOne, s, VIdx(s))
      q == ActivationQueue(s1)
      lim == CASE IsE(s) -> Len(q) [] s.fk = "deneb" -> MinI(Len(q), ActivationChurn(s1)) [] OTHER -> MinI(Len(q), Churn(s1))
      act == {q[k] : k \in 1..lim}
  IN [s1 EXCEPT !.validators = TLCEval([k \in 1..Len(@) |->
        IF (k - 1) \in act THEN [@[k] EXCEPT !.activation_epoch = ActExit(CurEp(s))] ELSE @[k]])]

\* ---- slashings
ProcessSlashings(s) ==
  LET total == TotalActive(s)
      adj == MinI(Sum(s.slashings) * SlashMult(s.fk), total)
      pen(v) == MulDiv(v.effective_balance \div EBI, adj, total) * EBI
      due(v) == v.slashed /\ CurEp(s) + C.epochs_per_slashings_vector \div 2 = v.withdrawable_epoch
  IN [s EXCEPT !.balances = TLCEval([k \in 1..Len(@) |->
        IF due(s.validators[k]) THEN (IF pen(s.validators[k]) > @[k] THEN 0 ELSE @[k] - pen(s.validators[k])) ELSE @[k]])]

\* ---- final updates
ProcessEth1Reset(s) == IF (CurEp(s) + 1) % C.epochs_per_eth1_voting_period = 0 THEN [s EXCEPT !.eth1_data_votes = <<>>] ELSE s
ProcessEffective(s) ==
  LET hyst == EBI \div C.hysteresis_quotient
      down == hyst * C.hysteresis_downward_multiplier
      up == hyst * C.hysteresis_upward_multiplier
      new(v, b) == IF b + down < v.effective_balance \/ v.effective_balance + up < b
                   THEN MinI(b - (b % EBI), EffCap(s, v)) ELSE v.effective_balance
  IN [s EXCEPT !.validators = TLCEval([k \in 1..Len(@) |-> [@[k] EXCEPT !.effective_balance = new(s.validators[k], s.balances[k])]])]
ProcessSlashingsReset(s) == [s EXCEPT !.slashings[((CurEp(s) + 1) % C.epochs_per_slashings_vector) + 1] = 0]
ProcessRandaoReset(s) == [s EXCEPT !.randao_mixes[((CurEp(s) + 1) % C.epochs_per_historical_vector) + 1] = RandaoMix(s, CurEp(s))]
HistoryDue(s) == (CurEp(s) + 1) % (C.slots_per_historical_root \div SPE) = 0
RootsVec == Vec(B32, C.slots_per_historical_root)
ProcessHistory(s) ==
  IF ~HistoryDue(s) THEN s
  ELSE IF Ge(s.fk, "capella")
  THEN [s EXCEPT !.historical_summaries = Append(@, [block_summary_root |-> HTR(RootsVec, s.block_roots),
                                                     state_summary_root |-> HTR(RootsVec, s.state_roots)])]
  ELSE [s EXCEPT !.historical_roots = Append(@, HTR(HistoricalBatchT, [block_roots |-> s.block_roots, state_roots |-> s.state_roots]))]
ProcessParticipation(s) ==
  IF s.fk = "phase0"
  THEN [s EXCEPT !.previous_epoch_attestations = s.current_epoch_attestations, !.current_epoch_attestations = <<>>]
  ELSE [s EXCEPT !.previous_epoch_participation = s.current_epoch_participation,
                 !.current_epoch_participation = TLCEval([k \in 1..NumV(s) |-> 0])]
RECURSIVE SampleSync(_, _, _, _, _)
\* effective-balance-weighted sampling: the first C.sync_committee_size accepted candidates
SampleSync(s, idx, seed, i, acc) ==
  IF Len(acc) = C.sync_committee_size THEN acc
  ELSE LET cand == At(idx, ShuffledIndex(i % Len(idx), Len(idx), seed))
           rnd == ByteAt(Sha256(seed \o LE(i \div 32, 8)), i % 32)
       IN SampleSync(s, idx, seed, i + 1, IF V(s, cand).effective_balance * 255 >= C.max_effective_balance * rnd THEN Append(acc, cand) ELSE acc)
NextSyncIndices(s) == LET e == CurEp(s) + 1 IN SampleSync(s, ActiveIdx(s, e), Seed(s, e, D_SYNC), 0, <<>>)
NextSyncCommittee(s) ==
  LET pks == MapS(NextSyncIndices(s), LAMBDA i : V(s, i).public_key)
  IN [public_keys |-> pks, aggregate_public_key |-> IdealSum(pks, 48)]
ProcessSyncUpdates(s) ==
  IF (CurEp(s) + 1) % C.epochs_per_sync_committee_period = 0
  THEN [s EXCEPT !.current_sync_committee = s.next_sync_committee, !.next_sync_committee = NextSyncCommittee(s)]
  ELSE s

\* ---- electra queues
RECURSIVE CreditDeposits(_, _, _, _)
\* result: [s, next (deposits consumed), used, stopped]
CreditDeposits(s, avail, k, used) ==
  IF k > Len(s.pending_balance_deposits) THEN [s |-> s, next |-> k - 1, used |-> used, left |-> 0]
  ELSE LET d == s.pending_balance_deposits[k] IN
       IF used + d.amount > avail THEN [s |-> s, next |-> k - 1, used |-> used, left |-> avail - used]
       ELSE CreditDeposits(IncBal(s, d.index, d.amount), avail, k + 1, used + d.amount)
ProcessPendingDeposits(s) ==
  LET avail == s.deposit_balance_to_consume + ActExitChurn(s)
      r == CreditDeposits(s, avail, 1, 0)
      rest == SubSeq(s.pending_balance_deposits, r.next + 1, Len(s.pending_balance_deposits))
  IN [r.s EXCEPT !.pending_balance_deposits = rest, !.deposit_balance_to_consume = IF rest = <<>> THEN 0 ELSE r.left]
QueueExcess(s, i) ==
  LET b == At(s.balances, i) IN
  IF b > C.min_activation_balance
  THEN [s EXCEPT !.balances[i + 1] = C.min_activation_balance,
                 !.pending_balance_deposits = Append(@, [index |-> i, amount |-> b - C.min_activation_balance])]
  ELSE s
SwitchToCompounding(s, i) ==
  IF HasEth1(V(s, i))
  THEN QueueExcess([s EXCEPT !.validators[i + 1].withdrawal_credentials = "02" \o Slice(@, 1, 31)], i)
  ELSE s
RECURSIVE Consolidate(_, _)
Consolidate(s, k) ==   \* [s, next]
  IF k > Len(s.pending_consolidations) THEN [s |-> s, next |-> k - 1]
  ELSE LET p == s.pending_consolidations[k]
           src == V(s, p.source_index) IN
       IF src.slashed THEN Consolidate(s, k + 1)
       ELSE IF src.withdrawable_epoch > CurEp(s) THEN [s |-> s, next |-> k - 1]
       ELSE LET s1 == SwitchToCompounding(s, p.target_index)
                a == ActiveBalance(s1, p.source_index)
            IN Consolidate(IncBal(DecBal(s1, p.source_index, a), p.target_index, a), k + 1)
ProcessPendingConsolidations(s) ==
  LET r == Consolidate(s, 1)
  IN [r.s EXCEPT !.pending_consolidations = SubSeq(@, r.next + 1, Len(@))]

\* ---- the whole transition
Steps == [phase0 |-> <<"justification", "rewards", "registry", "slashings", "eth1_reset", "effective", "slashings_reset",
                       "randao_reset", "history", "participation">>,
          altair |-> <<"justification", "inactivity", "rewards", "registry", "slashings", "eth1_reset", "effective",
                       "slashings_reset", "randao_reset", "history", "participation", "sync">>,
          electra |-> <<"justification", "inactivity", "rewards", "registry", "slashings", "eth1_reset", "pending_deposits",
                        "pending_consolidations", "effective", "slashings_reset", "randao_reset", "history", "participation", "sync">>]
StepsOf(f) == CASE f = "phase0" -> Steps.phase0 [] f = "electra" -> Steps.electra [] OTHER -> Steps.altair
Step1(s, st) ==
  CASE st = "justification" -> ProcessJustification(s)
    [] st = "inactivity" -> ProcessInactivity(s)
    [] st = "rewards" -> ProcessRewards(s)
    [] st = "registry" -> ProcessRegistry(s)
    [] st = "slashings" -> ProcessSlashings(s)
    [] st = "eth1_reset" -> ProcessEth1Reset(s)
    [] st = "pending_deposits" -> ProcessPendingDeposits(s)
    [] st = "pending_consolidations" -> ProcessPendingConsolidations(s)
    [] st = "effective" -> ProcessEffective(s)
    [] st = "slashings_reset" -> ProcessSlashingsReset(s)
    [] st = "randao_reset" -> ProcessRandaoReset(s)
    [] st = "history" -> ProcessHistory(s)
    [] st = "participation" -> ProcessParticipation(s)
    [] st = "sync" -> ProcessSyncUpdates(s)
ProcessEpoch(s) == FoldLeft(LAMBDA t, st : TLCEval(Step1(t, st)), s, StepsOf(s.fk))
=============================================================================
