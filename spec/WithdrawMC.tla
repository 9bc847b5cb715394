----------------------------- MODULE WithdrawMC -----------------------------
(* The withdrawal sweep from every position over registries with every set of due validators, block after *)
(* block, with right and wrong payloads.                                                                  *)
EXTENDS Scene
CONSTANTS Fs, N, Kinds, Starts, Rounds, Queues
VARIABLES s, n, was, ws
vars == <<s, n, was, ws>>
Ep == 20
Who == 0..(N - 1)
\* full: withdrawable; left: withdrawable without balance; rich: more than the cap; heavy: more than the cap, but not at it; bls: rich without an address
ValOf(i, k) ==
  LET v == Val0(i, IF k = "bls" THEN "bls" ELSE IF k = "comp" THEN "comp" ELSE "eth1", CASE k = "heavy" -> FullBal - EBI [] k = "comp" -> C.max_effective_balance_electra [] OTHER -> FullBal)
  IN CASE k \in {"full", "left"} -> [v EXCEPT !.exit_epoch = Ep - 5, !.withdrawable_epoch = Ep]
       [] k = "soon" -> [v EXCEPT !.exit_epoch = Ep - 4, !.withdrawable_epoch = Ep + 1]
       [] OTHER -> v
BalOf(i, k) == CASE k = "left" -> 0 [] k = "comp" -> C.max_effective_balance_electra + 5 + i [] k \in {"rich", "heavy", "bls"} -> FullBal + 5 + i [] k = "one" -> FullBal + 1 [] OTHER -> FullBal
Due(t, i) == LET v == V(t, i)
                 b == At(t.balances, i)
                 p == Slice(v.withdrawal_credentials, 0, 1)
                 cap == IF IsE(t) /\ p = "02" THEN C.max_effective_balance_electra ELSE C.max_effective_balance
             IN CASE p = "00" -> 0
                  [] v.withdrawable_epoch <= CurEp(t) -> b
                  [] v.effective_balance = cap /\ b > cap -> b - cap
                  [] OTHER -> 0
KindsOf(f) == IF f = "electra" THEN Kinds \cup {"comp"} ELSE Kinds
\* requested partial withdrawals: validator, amount, epochs until withdrawable
QueueOf(x) == CASE x = 0 -> <<>> [] x = 1 -> <<<<1, 5, 0>>>> [] x = 2 -> <<<<1, 5, 0>>, <<2, 9000, 0>>, <<3, 4, 0>>>>
                [] x = 3 -> <<<<1, 5, 1>>, <<2, 5, 0>>>> [] x = 4 -> <<<<0, 5, 0>>, <<0, 5, 0>>>> [] x = 5 -> <<<<0, 1, 0>>, <<2, 300, 0>>, <<1, 7, 0>>, <<3, 8, 1>>>>
Init == \E f \in Fs, M \in SUBSET Who, k \in Kinds \cup {"comp"}, k2 \in {"idle", "rich"}, st \in Starts, x \in Queues : LET q == QueueOf(x) IN
  /\ k \in KindsOf(f) /\ (f = "electra" \/ q = <<>>)
  /\ LET kind(i) == IF i \in M THEN k ELSE IF k2 = "rich" /\ i % 3 = 1 THEN "rich" ELSE "idle"
         w == World(f, StartSlot(Ep), TLCEval([i \in 1..N |-> ValOf(i - 1, kind(i - 1))]), TLCEval([i \in 1..N |-> BalOf(i - 1, kind(i - 1))]))
         t == [w EXCEPT !.next_withdrawal_validator_index = st, !.next_withdrawal_index = 7]
     IN s = IF f = "electra" THEN [t EXCEPT !.pending_partial_withdrawals = TLCEval([j \in 1..Len(q) |-> [index |-> q[j][1], amount |-> q[j][2], withdrawable_epoch |-> Ep + q[j][3]]])] ELSE t
  /\ n = 0 /\ was = <<>> /\ ws = <<>>
Payload(w) == [DefaultOf(PayloadT[s.fk]) EXCEPT !.withdrawals = w]
Wrong(w) == (IF w = <<>> THEN {} ELSE {SubSeq(w, 1, Len(w) - 1), SubSeq(w, 2, Len(w)), [w EXCEPT ![1].amount = @ + 1], [w EXCEPT ![Len(w)].index = @ + 1],
                                      [w EXCEPT ![1].address = Addr(90)], [w EXCEPT ![Len(w)].validator_index = (@ + 1) % N]})
            \cup (IF Len(w) > 1 THEN {Reverse(w)} ELSE {})
            \cup (IF Len(w) < C.max_withdrawals_per_payload THEN {Append(w, [index |-> 7, validator_index |-> 0, address |-> Addr(0), amount |-> 1])} ELSE {})
Pay(w) == Call("withdrawals", [x |-> Payload(w)])
Next == /\ n < Rounds
        /\ LET w == TLCEval(ExpectedWithdrawals(s))
               bad == SetToSeq(Wrong(w) \ {w})
               r == TLCEval(Exp(s, Pay(w)))
           IN /\ Behaviour(s, <<Call("q.withdrawals", NoArg)>> \o MapS(bad, Pay) \o <<Pay(w)>>)
              /\ r.ok /\ \A k \in 1..Len(bad) : ~Exp(s, Pay(bad[k])).ok
              /\ s' = [r.s EXCEPT !.slot = @ + 1] /\ n' = n + 1 /\ was' = s /\ ws' = w
\* the sweep's part of the payload, and the places it may look at
NP == IF n = 0 \/ ~IsE(was) THEN 0 ELSE Len(Partials(was, 1, <<>>))
Swept == SubSeq(ws, NP + 1, Len(ws))
Order(i) == (i - was.next_withdrawal_validator_index + N) % N
Seen == MinI(N, C.max_validators_per_withdrawals_sweep)
Numbered == n > 0 => \A k \in 1..Len(ws) : ws[k].index = was.next_withdrawal_index + k - 1
SweepExact == n > 0 =>
  /\ Len(ws) <= C.max_withdrawals_per_payload
  /\ \A k \in 1..Len(Swept) : LET w == Swept[k] IN w.amount = Due(was, w.validator_index) /\ w.amount > 0 /\ w.address = Slice(V(was, w.validator_index).withdrawal_credentials, 12, 20)
                                                /\ Order(w.validator_index) < Seen /\ (k > 1 => Order(Swept[k - 1].validator_index) < Order(w.validator_index))
  /\ \A i \in Who : (Due(was, i) > 0 /\ Order(i) < Seen /\ \A k \in 1..Len(Swept) : Swept[k].validator_index # i)
        => Len(ws) = C.max_withdrawals_per_payload /\ (Swept = <<>> \/ Order(i) > Order(Swept[Len(Swept)].validator_index))
Paid == n > 0 => \A i \in Who : LET mine == Sum(MapS(SelectSeq(ws, LAMBDA w : w.validator_index = i), LAMBDA w : w.amount))
                               IN At(s.balances, i) = (IF mine > At(was.balances, i) THEN 0 ELSE At(was.balances, i) - mine)
\* everyone is reached: all that was due at first is paid within the rounds
Reached == (n = 3 /\ (~IsE(s) \/ s.pending_partial_withdrawals = <<>>)) => \A i \in Who : Due(s, i) = 0
\* requested withdrawals never touch the stake itself
StakeKept == n > 0 => \A k \in 1..NP : At(was.balances, ws[k].validator_index) - ws[k].amount >= C.min_activation_balance
QueueOrder == (n > 0 /\ IsE(s)) => \E j \in 0..Len(was.pending_partial_withdrawals) : s.pending_partial_withdrawals = SubSeq(was.pending_partial_withdrawals, j + 1, Len(was.pending_partial_withdrawals))
=============================================================================
