------------------------------ MODULE QueuesMC ------------------------------
(* Electra's queues: pending deposits against the churn, pending consolidations, and the exit and          *)
(* consolidation churn, over several epochs.                                                               *)
EXTENDS Scene
CONSTANTS Amounts, MaxLen, Depth, Part
VARIABLES s, n, was
vars == <<s, n, was>>
Start == 12
N == 5
\* slots 2.. may consolidate: 0 leaves early, 1 late, 2 is slashed, 3 and 4 are targets
Base == LET w == World("electra", LastOf(Start), TLCEval([k \in 1..N |-> Val0(k - 1, IF k = 5 THEN "comp" ELSE "eth1", FullBal)]), TLCEval([k \in 1..N |-> FullBal + 300 * k]))
        IN w
Lists(S, m) == UNION {[1..k -> S] : k \in 0..m}
Dep(d) == [index |-> d[1], amount |-> d[2]]
InitDeposits == \E q \in Lists({<<i, a>> : i \in {1}, a \in Amounts}, MaxLen), carry \in {0, 500} :
  /\ s = [Base EXCEPT !.pending_balance_deposits = TLCEval([k \in 1..Len(q) |-> [index |-> k % N, amount |-> q[k][2]]]), !.deposit_balance_to_consume = IF q = <<>> THEN 0 ELSE carry]
InitMerges == \E q \in Lists({<<0, 3>>, <<1, 4>>, <<2, 3>>, <<0, 4>>}, MinI(MaxLen, 3)), early \in {Start - 1, Start, Start + 1}, low \in BOOLEAN :
  s = [Base EXCEPT !.pending_consolidations = TLCEval([k \in 1..Len(q) |-> [source_index |-> q[k][1], target_index |-> q[k][2]]]),
                   !.validators[1] = [@ EXCEPT !.exit_epoch = early - 5, !.withdrawable_epoch = early],
                   !.validators[2] = [@ EXCEPT !.exit_epoch = Start - 3, !.withdrawable_epoch = Start + 2],
                   !.validators[3] = [@ EXCEPT !.slashed = TRUE, !.exit_epoch = Start - 1, !.withdrawable_epoch = Start + 1],
                   !.balances[1] = IF low THEN FullBal - 700 ELSE @]
\* exits and consolidations of any amounts
Heavy == LET vs == TLCEval([k \in 1..N |-> Val0(k - 1, "comp", C.max_effective_balance_electra)]) IN World("electra", LastOf(Start), vs, Effs(vs))
InitChurn == \E e \in {0, ActExit(Start) - 1, ActExit(Start), ActExit(Start) + 2}, left \in {0, 1000, 40000} :
  s = [Base EXCEPT !.earliest_exit_epoch = e, !.exit_balance_to_consume = left, !.earliest_consolidation_epoch = e, !.consolidation_balance_to_consume = MinI(left, ConsolidationChurn(Heavy)),
                   !.validators = Heavy.validators]
Init == n = 0 /\ was = <<>> /\ (CASE Part = "deposits" -> InitDeposits [] Part = "merges" -> InitMerges [] Part = "churn" -> InitChurn)
\* one step deep also amounts around what is left of one, two and three epochs' churn
Round(e0, rem, per) == LET a == IF e0 < ActExit(CurEp(s)) THEN per ELSE rem IN IF Depth = 1 THEN {a + k * per + d : k \in 0..2, d \in {-1, 0, 1}} \ {-1, 0} ELSE {}
ExitAmounts == Amounts \cup Round(s.earliest_exit_epoch, s.exit_balance_to_consume, ActExitChurn(s))
MergeAmounts == Amounts \cup Round(s.earliest_consolidation_epoch, s.consolidation_balance_to_consume, ConsolidationChurn(s))
Step == CASE Part = "deposits" -> s' = Tick(Run(s, "ep.pending_deposits", NoArg).s)
          [] Part = "merges" -> s' = Tick(Run(s, "ep.pending_consolidations", NoArg).s)
          [] Part = "churn" -> \/ \E a \in ExitAmounts : s' = Run(s, "take_exit", [amount |-> a]).s
                               \/ ConsolidationChurn(s) > 0 /\ \E a \in MergeAmounts : s' = Run(s, "take_consolidation", [amount |-> a]).s
                               \/ s' = Tick(s)
Next == n < Depth /\ n' = n + 1 /\ was' = s /\ Step
\* what the registry and the queue hold together
Held(t) == Sum(t.balances) + Sum(MapS(t.pending_balance_deposits, LAMBDA d : d.amount))
Conserved == n > 0 => Held(s) = Held(was)
Gone == Len(was.pending_balance_deposits) - Len(s.pending_balance_deposits)
InOrder == (n > 0 /\ Part = "deposits") => Gone >= 0 /\ s.pending_balance_deposits = SubSeq(was.pending_balance_deposits, Gone + 1, Len(was.pending_balance_deposits))
Credited == Sum(MapS(SubSeq(was.pending_balance_deposits, 1, Gone), LAMBDA d : d.amount))
WithinChurn == (n > 0 /\ Part = "deposits") => Credited <= was.deposit_balance_to_consume + ActExitChurn(was)
Carry == (n > 0 /\ Part = "deposits") =>
   IF s.pending_balance_deposits = <<>> THEN s.deposit_balance_to_consume = 0
   ELSE /\ s.deposit_balance_to_consume = was.deposit_balance_to_consume + ActExitChurn(was) - Credited
        /\ s.deposit_balance_to_consume < s.pending_balance_deposits[1].amount            \* nothing waits that could have been credited
MergesInOrder == (n > 0 /\ Part = "merges") =>
   LET k == Len(was.pending_consolidations) - Len(s.pending_consolidations) IN
   /\ k >= 0 /\ s.pending_consolidations = SubSeq(was.pending_consolidations, k + 1, Len(was.pending_consolidations))
   /\ \A j \in 1..k : LET v == V(was, was.pending_consolidations[j].source_index) IN v.slashed \/ v.withdrawable_epoch <= CurEp(was)
   /\ s.pending_consolidations # <<>> => LET v == V(was, s.pending_consolidations[1].source_index) IN ~v.slashed /\ v.withdrawable_epoch > CurEp(was)
SlashedKeep == (n > 0 /\ Part = "merges") => At(s.balances, 2) = At(was.balances, 2)
\* churn: the balance of everything that leaves up to an epoch fits the churn up to it
Taken == n > 0 /\ Part = "churn" /\ s.slot = was.slot
ExitSpace(t) == IF t.earliest_exit_epoch < ActExit(CurEp(t)) THEN 0 ELSE t.earliest_exit_epoch
ChurnKept == Taken =>
  /\ s.earliest_exit_epoch >= was.earliest_exit_epoch /\ s.earliest_consolidation_epoch >= was.earliest_consolidation_epoch
  /\ (s.earliest_exit_epoch # was.earliest_exit_epoch \/ s.exit_balance_to_consume # was.exit_balance_to_consume) => s.earliest_exit_epoch >= ActExit(CurEp(s))
  /\ s.exit_balance_to_consume >= 0 /\ s.consolidation_balance_to_consume >= 0
=============================================================================
