------------------------------- MODULE Calls -------------------------------
(* The outcome of every call that can be made on a beacon state: `Exp(t, [op, a])` is Err, or the state  *)
(* after it (s), or the value it yields (v), or both.                                                    *)
EXTENDS Transition

Val(v) == [ok |-> TRUE, v |-> v]
FromTake(t) == [ok |-> TRUE, s |-> t.s, v |-> t.epoch]
EpStep == [x \in {"ep.justification", "ep.inactivity", "ep.rewards", "ep.registry", "ep.slashings", "ep.eth1_reset", "ep.effective",
                  "ep.slashings_reset", "ep.randao_reset", "ep.history", "ep.participation", "ep.sync", "ep.pending_deposits",
                  "ep.pending_consolidations"} |-> SubSeq(x, 4, Len(x))]
EngineOf(a) == IF "engine" \in DOMAIN a THEN a.engine ELSE C.execution_engine
ValidateOf(a) == IF "validate" \in DOMAIN a THEN a.validate ELSE TRUE
ExpGenesis(a) == Genesis(a.f, a.hash, a.time, a.deposits,
   IF "header" \in DOMAIN a THEN a.header ELSE IF Ge(a.f, "bellatrix") THEN DefaultOf(PayloadHeaderT[a.f]) ELSE "none")
\* electra: expected withdrawals are returned alone
\* q: what an accepted block has asked of the execution engine
Asking(r, t, b) ==
  IF ~r.ok THEN r
  ELSE r @@ [q |-> IF Ge(r.s.fk, "capella") \/ (r.s.fk = "bellatrix" /\ ((t.fk = "bellatrix" /\ MergeDone(t)) \/ b.body.execution_payload # DefaultOf(PayloadT["bellatrix"])))
                   THEN <<Asked(r.s.fk, b.body, b.parent_root)>> ELSE <<>>]
ExpBlock(t, o, a) ==
  CASE o = "slot" -> Ok(ProcessSlot(t))
    [] o = "slots" -> ProcessSlots(t, a.to)
    [] o = "epoch" -> Ok(ProcessEpoch(t))
    [] o = "header" -> ProcessHeader(t, a.x.message)
    [] o = "randao" -> ProcessRandao(t, a.x)
    [] o = "eth1" -> Ok(ProcessEth1(t, a.x))
    [] o = "operations" -> ProcessOperations(t, a.x)
    [] o = "block" -> Asking(ProcessBlock(t, a.x.message, EngineOf(a)), t, a.x.message)
    [] o = "transition" -> Asking(StateTransition(t, a.x, ValidateOf(a), EngineOf(a)), t, a.x.message)
    [] o = "in_slot" -> Asking(BlockInSlot(t, a.x, ValidateOf(a), EngineOf(a)), t, a.x.message)
    [] o = "verify_block" -> IF BlockSigned(t, a.x) THEN Ok(t) ELSE Err
    [] o = "exec" -> Asking(ExecutorApply(t, a.f, a.x, ValidateOf(a), EngineOf(a)), t, a.x.message)
    [] o = "upgrade" -> Upgrade(t, Forks[FNum[t.fk] + 1])
    [] o = "attestation" -> ProcessAttestation(t, a.x)
    [] o = "proposer_slashing" -> ProcessProposerSlashing(t, a.x)
    [] o = "attester_slashing" -> ProcessAttesterSlashing(t, a.x)
    [] o = "deposit" -> ProcessDeposit(t, a.x)
    [] o = "exit" -> ProcessVoluntaryExit(t, a.x)
    [] o = "slash" -> IF HasProposer(t) THEN Ok(Slash(t, a.i, IF "w" \in DOMAIN a THEN a.w ELSE NoOne)) ELSE Err
    [] o = "initiate_exit" -> Ok(InitiateExit(t, a.i))
    [] o = "sync" -> ProcessSyncAggregate(t, a.x)
    [] o = "payload" -> LET r == ProcessPayload(t, a.x, EngineOf(a))
                        IN IF r.ok THEN r @@ [q |-> <<Asked(t.fk, a.x, t.latest_block_header.parent_root)>>] ELSE r
    [] o = "withdrawals" -> ProcessWithdrawals(t, a.x)
    [] o = "bls_change" -> ProcessBlsChange(t, a.x)
    [] o = "withdrawal_request" -> Ok(ProcessWithdrawalRequest(t, a.x))
    [] o = "deposit_receipt" -> Ok(ProcessDepositReceipt(t, a.x))
    [] o = "consolidation" -> ProcessConsolidation(t, a.x)
    [] o = "switch" -> Ok(SwitchToCompounding(t, a.i))
    [] o = "queue_excess" -> Ok(QueueExcess(t, a.i))
    [] o = "take_exit" -> FromTake(TakeExit(t, a.amount))
    [] o = "take_consolidation" -> FromTake(TakeConsolidation(t, a.amount))
    [] o \in DOMAIN EpStep -> Ok(Step1(t, EpStep[o]))
D0(t, j) == Val(Deltas0(t)[j])
ExpQuery(t, o, a) ==
  CASE o = "q.committee" -> Val(Committee(t, a.slot, a.x))
    [] o = "q.committee_count" -> Val(CommitteesPerSlot(t, a.e))
    [] o = "q.proposer" -> IF HasProposer(t) THEN Val(Proposer(t)) ELSE Err
    [] o = "q.active" -> Val(ActiveIdx(t, a.e))
    [] o = "q.total_active" -> Val(TotalActive(t))
    [] o = "q.churn" -> Val(Churn(t))
    [] o = "q.activation_churn" -> Val(ActivationChurn(t))
    [] o = "q.seed" -> Val(Seed(t, a.e, a.d))
    [] o = "q.domain" -> Val(DomainAt(t, a.d, IF "e" \in DOMAIN a THEN a.e ELSE CurEp(t)))
    [] o = "q.block_root" -> IF BlockRootKnown(t, a.slot) THEN Val(BlockRootAt(t, a.slot)) ELSE Err
    [] o = "q.epoch_root" -> IF BlockRootKnown(t, StartSlot(a.e)) THEN Val(BlockRootOfEpoch(t, a.e)) ELSE Err
    [] o = "q.mix" -> Val(RandaoMix(t, a.e))
    [] o = "q.epochs" -> Val(<<CurEp(t), PrevEp(t)>>)
    [] o = "q.eligible" -> Val(Eligible(t))
    [] o = "q.shuffled" -> IF a.i < a.n THEN Val(ShuffledIndex(a.i, a.n, a.seed)) ELSE Err
    [] o = "q.shuffle_list" -> Val(ShuffledList(a.x, a.seed))
    [] o = "q.attesting" -> IF IsE(t) \/ Len(a.x.aggregation_bits) = Len(Committee(t, a.x.data.slot, a.x.data.index)) THEN Val(Indexed(t, a.x)) ELSE Err
    [] o = "q.valid_genesis" -> Val(ValidGenesis(t))
    [] o = "q.genesis_block" -> Val([message |-> GenesisBlock(t), signature |-> Zeros(96)])
    [] o = "q.next_sync" -> IF ActiveIdx(t, CurEp(t) + 1) = <<>> THEN Err ELSE Val(NextSyncCommittee(t))
    [] o = "q.next_sync_indices" -> IF ActiveIdx(t, CurEp(t) + 1) = <<>> THEN Err ELSE Val(NextSyncIndices(t))
    [] o = "q.flag_deltas" -> Val(FlagDelta(t, a.k))
    [] o = "q.inactivity_deltas" -> IF t.fk = "phase0" THEN D0(t, 5) ELSE Val(InactivityDelta(t))
    [] o = "q.source_deltas" -> D0(t, 1)
    [] o = "q.target_deltas" -> D0(t, 2)
    [] o = "q.head_deltas" -> D0(t, 3)
    [] o = "q.inclusion_deltas" -> D0(t, 4)
    [] o = "q.flags" -> IF a.x.source = JustifiedFor(t, a.x) /\ BlockRootKnown(t, StartSlot(a.x.target.epoch)) /\ (a.x.target.root = BlockRootOfEpoch(t, a.x.target.epoch) => BlockRootKnown(t, a.x.slot))
                        THEN Val(Ascending(FlagsOf(t, a.x, a.delay))) ELSE Err
    [] o = "q.base_reward" -> Val(BaseRewardA(t, BaseRewardPerInc(t), a.i))
    [] o = "q.unslashed" -> IF a.e \in {PrevEp(t), CurEp(t)} THEN Val(UnslashedWith(t, a.k, a.e)) ELSE Err
    [] o = "q.execution_enabled" -> Val(ExecutionEnabled(t, a.x))
    [] o = "q.withdrawals" -> Val(ExpectedWithdrawals(t))
    [] o = "q.balance_churn" -> Val(BalanceChurn(t))
    [] o = "q.exit_churn" -> Val(ActExitChurn(t))
    [] o = "q.consolidation_churn" -> Val(ConsolidationChurn(t))
    [] o = "q.pending_to_withdraw" -> Val(PendingToWithdraw(t, a.i))
    [] o = "q.active_balance" -> Val(ActiveBalance(t, a.i))

IsQuery(o) == SubSeq(o, 1, 2) = "q."
Exp(t, c) == IF c.op = "genesis" THEN ExpGenesis(c.a)
             ELSE IF IsQuery(c.op) THEN ExpQuery(t, c.op, c.a) ELSE ExpBlock(t, c.op, c.a)
=============================================================================
