------------------------------- MODULE Scene -------------------------------
(* Small worlds: beacon states made from a few parameters, for the models of the state transition. `Run` *)
(* gives the specified outcome of a call and emits the behaviour, to be replayed on the implementation.  *)
EXTENDS Calls

Sk(i) == Zeros(31) \o HexByte(i + 1)
Key(i) == IdealPk(Sk(i))
Tag(x) == Sha256(LE(x, 8))               \* distinct 32-byte values
Addr(i) == Repeat(HexByte(160 + i), 20)
Cred(kind, i) == CASE kind = "bls" -> "00" \o Slice(Sha256(Key(i)), 1, 31)
                   [] kind = "eth1" -> "01" \o Zeros(11) \o Addr(i)
                   [] kind = "comp" -> "02" \o Zeros(11) \o Addr(i)
Val0(i, kind, eff) == [public_key |-> Key(i), withdrawal_credentials |-> Cred(kind, i), effective_balance |-> eff, slashed |-> FALSE,
   activation_eligibility_epoch |-> 0, activation_epoch |-> 0, exit_epoch |-> FAR, withdrawable_epoch |-> FAR]
Leaving(v, e) == [v EXCEPT !.exit_epoch = e, !.withdrawable_epoch = e + C.min_validator_withdrawability_delay]
Slashed(v, e, w) == [v EXCEPT !.slashed = TRUE, !.exit_epoch = e, !.withdrawable_epoch = w]
Waiting(v) == [v EXCEPT !.activation_eligibility_epoch = FAR, !.activation_epoch = FAR]
FullBal == C.max_effective_balance
Plain(n, kind) == TLCEval([k \in 1..n |-> Val0(k - 1, kind, FullBal)])
Effs(vs) == TLCEval([k \in 1..Len(vs) |-> vs[k].effective_balance])
RootOf(slot) == Tag(1000 + slot)         \* the block root of a slot
\* the last slots_per_historical_root slots before `slot`, at their places
Ring(slot, Op(_)) == LET n == C.slots_per_historical_root
                     IN TLCEval([k \in 1..n |-> Op(slot - 1 - ((slot - k) % n))])
Cp(e) == [epoch |-> e, root |-> IF e = 0 THEN ZERO32 ELSE RootOf(StartSlot(e))]
PrevFork(f) == IF f = "phase0" THEN f ELSE Forks[FNum[f] - 1]
World(f, slot, vs, bs) ==
  LET n == Len(vs)
      base == [EmptyState(f) EXCEPT
        !.genesis_time = 5000, !.genesis_validators_root = Tag(1), !.slot = slot,
        !.fork = [previous_version |-> ForkVersion(PrevFork(f)), current_version |-> ForkVersion(f), epoch |-> MinI(EpochOf(slot), 0)],
        !.latest_block_header = [slot |-> IF slot = 0 THEN 0 ELSE slot - 1, proposer_index |-> 0, parent_root |-> Tag(2), state_root |-> Tag(3), body_root |-> Tag(4)],
        !.block_roots = Ring(slot, RootOf), !.state_roots = Ring(slot, LAMBDA t : Tag(2000 + t)),
        !.eth1_data = [deposit_root |-> Tag(5), deposit_count |-> n, block_hash |-> Tag(6)], !.eth1_deposit_index = n,
        !.validators = vs, !.balances = bs,
        !.randao_mixes = TLCEval([k \in 1..C.epochs_per_historical_vector |-> Tag(3000 + k)])]
      a == IF f = "phase0" THEN base
           ELSE [base EXCEPT !.previous_epoch_participation = Zeroes(n), !.current_epoch_participation = Zeroes(n), !.inactivity_scores = Zeroes(n)]
      b == IF ~Ge(f, "bellatrix") THEN a
           ELSE [a EXCEPT !.latest_execution_payload_header.block_hash = Tag(7), !.latest_execution_payload_header.block_number = 3,
                          !.latest_execution_payload_header.timestamp = 5000]
  IN IF IsE(b) THEN [b EXCEPT !.deposit_receipts_start_index = FAR, !.earliest_exit_epoch = EpochOf(slot) + 1, !.earliest_consolidation_epoch = ActExit(EpochOf(slot))]
     ELSE b
WithSync(s) == LET sc == NextSyncCommittee(s) IN [s EXCEPT !.current_sync_committee = sc, !.next_sync_committee = sc]

\* a 0/1 participation flag for the members of S
FlagsFor(n, S, k) == TLCEval([j \in 1..n |-> IF (j - 1) \in S THEN 2^k ELSE 0])
\* phase0: attestations by the members of S to the target of epoch e, one per committee
VotesFor(s, e, S) ==
  LET one(slot, ix) ==
        LET com == Committee(s, slot, ix)
        IN [aggregation_bits |-> TLCEval([k \in 1..Len(com) |-> IF com[k] \in S THEN 1 ELSE 0]),
            data |-> [slot |-> slot, index |-> ix, beacon_block_root |-> RootOf(slot), source |-> SourceCp(s, e), target |-> [epoch |-> e, root |-> RootOf(StartSlot(e))]],
            inclusion_delay |-> 1, proposer_index |-> 0]
  IN TLCEval([k \in 1..(SPE * CommitteesPerSlot(s, e)) |-> one(StartSlot(e) + ((k - 1) % SPE), (k - 1) \div SPE)])
\* the members of P voted for the previous epoch's target, those of Q for the current one's
Voted(s, P, Q) ==
  IF s.fk = "phase0"
  THEN [s EXCEPT !.previous_epoch_attestations = VotesFor(s, PrevEp(s), P), !.current_epoch_attestations = VotesFor(s, CurEp(s), Q)]
  ELSE [s EXCEPT !.previous_epoch_participation = FlagsFor(NumV(s), P, TARGET), !.current_epoch_participation = FlagsFor(NumV(s), Q, TARGET)]

\* phase 0: what each validator did (ks) shows in attestations, one for each way of voting
PendingBy(t, ks, prop) ==
  LET e == PrevEp(t)
      one(slot, com, S, delay, tgt, head) ==
        [aggregation_bits |-> TLCEval([k \in 1..Len(com) |-> IF com[k] \in S THEN 1 ELSE 0]),
         data |-> [slot |-> slot, index |-> 0, beacon_block_root |-> IF head THEN RootOf(slot) ELSE Tag(9), source |-> SourceCp(t, e), target |-> [epoch |-> e, root |-> IF tgt THEN RootOf(StartSlot(e)) ELSE Tag(9)]],
         inclusion_delay |-> delay, proposer_index |-> prop]
      who(com, K) == {i \in SeqSet(com) : ks[i + 1] \in K}
      at(slot) == LET com == Committee(t, slot, 0)
                      made == <<one(slot, com, who(com, {"all", "slashed"}), 1, TRUE, TRUE), one(slot, com, who(com, {"headless", "target", "both"}), 1, TRUE, FALSE),
                                one(slot, com, who(com, {"source"}), 1, FALSE, FALSE), one(slot, com, who(com, {"late"}), 4, TRUE, TRUE), one(slot, com, who(com, {"all"}), 3, TRUE, TRUE)>>
                  IN SelectSeq(made, LAMBDA a : \E k \in DOMAIN a.aggregation_bits : a.aggregation_bits[k] = 1)
  IN FoldLeft(LAMBDA acc, k : acc \o at(StartSlot(e) + k - 1), <<>>, TLCEval([k \in 1..SPE |-> k]))

Chunks(v, n) == TLCEval([k \in 1..((Len(v) + n - 1) \div n) |-> SubSeq(v, (k - 1) * n + 1, MinI(k * n, Len(v)))])
Tick(t) == [t EXCEPT !.slot = @ + SPE, !.block_roots = Ring(t.slot + SPE, RootOf)]     \* the same slot of the next epoch
LastOf(e) == StartSlot(e) + SPE - 1

Behaviour(t, steps) == Emit(ToJson([init |-> t, steps |-> steps]))
Call(op, a) == [op |-> op, a |-> a]
NoArg == [z |-> 0]
Run(t, op, a) == IF Behaviour(t, <<Call(op, a)>>) THEN TLCEval(Exp(t, Call(op, a))) ELSE Err
=============================================================================
