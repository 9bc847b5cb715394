----------------------------- MODULE Transition -----------------------------
(* Slots, signed blocks, fork upgrades, genesis, and the executor that drives a state across forks. *)
EXTENDS Block

StateRoot(s) == HTR(StateT[s.fk], s)
ProcessSlot(s) ==
  LET root == TLCEval(StateRoot(s))
      i == (s.slot % C.slots_per_historical_root) + 1
      h == IF s.latest_block_header.state_root = ZERO32 THEN [s.latest_block_header EXCEPT !.state_root = root] ELSE s.latest_block_header
  IN [s EXCEPT !.state_roots[i] = root, !.latest_block_header = h, !.block_roots[i] = HTR(HeaderT, h)]
NextSlot(s) ==
  LET a == TLCEval(ProcessSlot(s))
      b == IF (s.slot + 1) % SPE = 0 THEN TLCEval(ProcessEpoch(a)) ELSE a
  IN [b EXCEPT !.slot = @ + 1]
RECURSIVE AdvanceTo(_, _)
AdvanceTo(s, slot) == IF s.slot >= slot THEN s ELSE AdvanceTo(TLCEval(NextSlot(s)), slot)
ProcessSlots(s, slot) == IF s.slot >= slot THEN Err ELSE Ok(AdvanceTo(s, slot))

BlockSigned(s, sb) ==
  /\ Known(s, sb.message.proposer_index)
  /\ Verify(V(s, sb.message.proposer_index).public_key,
            SigningRoot(BlockT[s.fk], sb.message, DomainAt(s, D_PROPOSER, CurEp(s))), sb.signature)
BlockInSlot(s, sb, validate, engine) ==
  IF validate /\ ~BlockSigned(s, sb) THEN Err
  ELSE LET r == ProcessBlock(s, sb.message, engine)
       IN IF ~r.ok THEN Err ELSE IF validate /\ sb.message.state_root # StateRoot(r.s) THEN Err ELSE r
StateTransition(s, sb, validate, engine) ==
  Then(ProcessSlots(s, sb.message.slot), LAMBDA t : BlockInSlot(t, sb, validate, engine))

\* ---- fork upgrades
NewFork(s, ver) == [previous_version |-> s.fork.current_version, current_version |-> ver, epoch |-> CurEp(s)]
Zeroes(n) == TLCEval([k \in 1..n |-> 0])
Fields(f) == {StateT[f].fs[k][1] : k \in 1..Len(StateT[f].fs)} \cup {"fk"}
OnlyFields(s, f) == TLCEval([x \in Fields(f) |-> s[x]])
UpgradeAltair(s) ==
  LET base == [s EXCEPT !.fk = "altair", !.fork = NewFork(s, C.altair_fork_version)]
              @@ [previous_epoch_participation |-> Zeroes(NumV(s)), current_epoch_participation |-> Zeroes(NumV(s)),
                  inactivity_scores |-> Zeroes(NumV(s)), current_sync_committee |-> DefaultOf(SyncCommitteeT),
                  next_sync_committee |-> DefaultOf(SyncCommitteeT)]
      tab == CommitteeTable(s, PrevEp(s))
      credit(p, a) ==
        LET who == BitsSet(TabCommittee(tab, a.data), a.aggregation_bits)
            S == FlagsOf(base, a.data, a.inclusion_delay)
        IN TLCEval([k \in 1..Len(p) |-> IF (k - 1) \in who THEN OrFlags(p[k], S) ELSE p[k]])
      p2 == FoldLeft(credit, base.previous_epoch_participation, s.previous_epoch_attestations)
      post == OnlyFields([base EXCEPT !.previous_epoch_participation = p2], "altair")
      sc == NextSyncCommittee(post)
  IN IF \E k \in 1..Len(s.previous_epoch_attestations) : LET a == s.previous_epoch_attestations[k] IN
          a.data.source # JustifiedFor(base, a.data) THEN Err
     ELSE Ok([post EXCEPT !.current_sync_committee = sc, !.next_sync_committee = sc])
UpgradeBellatrix(s) ==
  [s EXCEPT !.fk = "bellatrix", !.fork = NewFork(s, C.bellatrix_fork_version)]
  @@ [latest_execution_payload_header |-> DefaultOf(PayloadHeaderT["bellatrix"])]
UpgradeCapella(s) ==
  [s EXCEPT !.fk = "capella", !.fork = NewFork(s, C.capella_fork_version),
            !.latest_execution_payload_header = @ @@ [withdrawals_root |-> ZERO32]]
  @@ [next_withdrawal_index |-> 0, next_withdrawal_validator_index |-> 0, historical_summaries |-> <<>>]
UpgradeDeneb(s) ==
  [s EXCEPT !.fk = "deneb", !.fork = NewFork(s, C.deneb_fork_version),
            !.latest_execution_payload_header = @ @@ [blob_gas_used |-> 0, excess_blob_gas |-> 0]]
UpgradeElectra(s) ==
  LET exits == {V(s, i).exit_epoch : i \in {i \in 0..(NumV(s) - 1) : V(s, i).exit_epoch # FAR}}
      p0 == [s EXCEPT !.fk = "electra", !.fork = NewFork(s, C.electra_fork_version),
                      !.latest_execution_payload_header = @ @@ [deposit_receipts_root |-> ZERO32, withdrawal_requests_root |-> ZERO32]]
            @@ [deposit_receipts_start_index |-> FAR, deposit_balance_to_consume |-> 0, exit_balance_to_consume |-> 0,
                earliest_exit_epoch |-> MaxOf(IF exits = {} THEN {CurEp(s)} ELSE exits) + 1, consolidation_balance_to_consume |-> 0,
                earliest_consolidation_epoch |-> ActExit(CurEp(s)), pending_balance_deposits |-> <<>>,
                pending_partial_withdrawals |-> <<>>, pending_consolidations |-> <<>>]
      p1 == [p0 EXCEPT !.exit_balance_to_consume = ActExitChurn(p0), !.consolidation_balance_to_consume = ConsolidationChurn(p0)]
      pre == SortSeq(SelectSeq(VIdx(s), LAMBDA i : V(s, i).activation_epoch = FAR),
                     LAMBDA i, j : LET a == V(s, i).activation_eligibility_epoch
                                       b == V(s, j).activation_eligibility_epoch IN a < b \/ (a = b /\ i < j))
      requeue(t, i) == [t EXCEPT !.balances[i + 1] = 0,
                                 !.validators[i + 1] = [@ EXCEPT !.effective_balance = 0, !.activation_eligibility_epoch = FAR],
                                 !.pending_balance_deposits = Append(@, [index |-> i, amount |-> At(t.balances, i)])]
      p2 == FoldLeft(requeue, p1, pre)
  IN FoldLeft(QueueExcess, p2, SelectSeq(VIdx(s), LAMBDA i : HasCompounding(V(s, i))))
Upgrade(s, to) == CASE to = "altair" -> UpgradeAltair(s)
                    [] to = "bellatrix" -> Ok(UpgradeBellatrix(s))
                    [] to = "capella" -> Ok(UpgradeCapella(s))
                    [] to = "deneb" -> Ok(UpgradeDeneb(s))
                    [] to = "electra" -> Ok(UpgradeElectra(s))

\* ---- genesis
ForkVersion(f) == CASE f = "phase0" -> C.genesis_fork_version [] f = "altair" -> C.altair_fork_version
                    [] f = "bellatrix" -> C.bellatrix_fork_version [] f = "capella" -> C.capella_fork_version
                    [] f = "deneb" -> C.deneb_fork_version [] f = "electra" -> C.electra_fork_version
EmptyState(f) == DefaultOf(StateT[f]) @@ [fk |-> f]
Genesis(f, hash, time, deposits, header) ==
  LET s0 == [EmptyState(f) EXCEPT
               !.genesis_time = time + C.genesis_delay,
               !.fork = [previous_version |-> ForkVersion(f), current_version |-> ForkVersion(f), epoch |-> 0],
               !.eth1_data = [deposit_root |-> ZERO32, deposit_count |-> Len(deposits), block_hash |-> hash],
               !.latest_block_header.body_root = HTR(BodyT[f], DefaultOf(BodyT[f])),
               !.randao_mixes = TLCEval([k \in 1..C.epochs_per_historical_vector |-> hash])]
      s1 == IF Ge(f, "bellatrix") THEN [s0 EXCEPT !.latest_execution_payload_header = header] ELSE s0
      dep(r, k) == IF ~r.ok THEN r
                   ELSE ProcessDeposit([r.s EXCEPT !.eth1_data.deposit_root =
                          HTR(LstD(DepositDataT, 32), TLCEval([j \in 1..k |-> deposits[j].data]))], deposits[k])
      r == FoldLeft(dep, Ok(s1), TLCEval([k \in 1..Len(deposits) |-> k]))
      settle(t) == IF f = "electra"
                   THEN [FoldLeft(LAMBDA u, d : IncBal(u, d.index, d.amount), t, t.pending_balance_deposits)
                           EXCEPT !.pending_balance_deposits = <<>>]
                   ELSE t
      act(v, b) == LET eff == MinI(b - (b % EBI), C.max_effective_balance)
                       w == [v EXCEPT !.effective_balance = eff]
                   IN IF eff = C.max_effective_balance THEN [w EXCEPT !.activation_eligibility_epoch = 0, !.activation_epoch = 0] ELSE w
      fin(t) == LET u == [t EXCEPT !.validators = TLCEval([k \in 1..Len(@) |-> act(@[k], t.balances[k])])]
                    w == [u EXCEPT !.genesis_validators_root = HTR(Lst(ValidatorT, C.validator_registry_limit), u.validators)]
                    sc == NextSyncCommittee(w)
                IN IF f = "phase0" THEN Ok(w)
                   ELSE IF ActiveIdx(w, 1) = <<>> THEN Err
                   ELSE Ok([w EXCEPT !.current_sync_committee = sc, !.next_sync_committee = sc])
  IN Then(r, LAMBDA t : fin(settle(t)))
ValidGenesis(s) == s.genesis_time >= C.min_genesis_time /\ Len(ActiveIdx(s, 0)) >= C.min_genesis_active_validator_count
GenesisBlock(s) == [DefaultOf(BlockT[s.fk]) EXCEPT !.state_root = StateRoot(s)]

\* ---- the executor: blocks of any fork up to deneb on a state of any earlier fork
ForkEpochOf(f) == CASE f = "altair" -> C.altair_fork_epoch [] f = "bellatrix" -> C.bellatrix_fork_epoch
                    [] f = "capella" -> C.capella_fork_epoch [] f = "deneb" -> C.deneb_fork_epoch
                    [] f = "electra" -> C.electra_fork_epoch [] f = "phase0" -> 0
ForkAt(slot) == Forks[MaxOf({k \in 1..Len(Forks) : ForkEpochOf(Forks[k]) <= EpochOf(slot)})]
RECURSIVE Climb(_, _)
\* bring s to the first slot of fork f, upgrading at every boundary
Climb(s, f) ==
  IF s.fk = f THEN Ok(s)
  ELSE LET next == Forks[FNum[s.fk] + 1]
           r == Then(ProcessSlots(s, StartSlot(ForkEpochOf(next))), LAMBDA t : Upgrade(t, next))
       IN IF r.ok THEN Climb(TLCEval(r.s), f) ELSE Err
ExecutorApply(s, f, sb, validate, engine) ==
  IF FNum[s.fk] > FNum[f] \/ ForkAt(sb.message.slot) # f THEN Err
  ELSE IF s.fk = f THEN StateTransition(s, sb, validate, engine)
  ELSE Then(Climb(s, f), LAMBDA t : IF sb.message.slot = t.slot THEN BlockInSlot(t, sb, validate, engine)
                                    ELSE StateTransition(t, sb, validate, engine))
=============================================================================
