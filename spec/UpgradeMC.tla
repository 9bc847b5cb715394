----------------------------- MODULE UpgradeMC -----------------------------
(* Upgrades of states whose validators are of every kind: what is carried over, what is new. *)
EXTENDS Scene
CONSTANTS Fs, Votes, Kinds, Slots
VARIABLES s, was, ks
N == 5
Next1(f) == Forks[FNum[f] + 1]
Shape(k, x, e) ==
  LET v == Val0(k - 1, "eth1", FullBal)
      w == Val0(k - 1, "comp", FullBal)
  IN CASE x = "plain" -> v
       [] x = "early" -> [Waiting(v) EXCEPT !.activation_eligibility_epoch = e - 2]
       [] x = "late" -> [Waiting(v) EXCEPT !.activation_eligibility_epoch = e - 1]
       [] x = "new" -> Waiting(v)
       [] x = "heavy" -> w
       [] x = "newheavy" -> [Waiting(w) EXCEPT !.activation_eligibility_epoch = e - 1]
       [] x = "leaving" -> Leaving(v, e + 7)
       [] x = "left" -> Leaving(v, e - 2)
       [] x = "due" -> [v EXCEPT !.activation_epoch = e + 2]
Balance(x, k) == IF x \in {"heavy", "newheavy"} THEN FullBal + 5000 + k ELSE FullBal + k
Make(f, d, x) ==
  LET e == EpochOf(d)
      vs == TLCEval([k \in 1..N |-> IF k > Len(x) \/ f = "phase0" THEN Val0(k - 1, "eth1", FullBal) ELSE Shape(k, x[k], e)])
      t == World(f, d, vs, TLCEval([k \in 1..N |-> IF k > Len(x) THEN FullBal ELSE Balance(x[k], k)]))
      u == [t EXCEPT !.fork.epoch = e - 3, !.slashings = TLCEval([k \in 1..C.epochs_per_slashings_vector |-> k]), !.previous_justified_checkpoint = Cp(e - 3), !.current_justified_checkpoint = Cp(e - 2),
                     !.finalized_checkpoint = Cp(e - 3), !.justification_bits = <<1, 0, 1, 1>>, !.eth1_data_votes = <<t.eth1_data>>]
  IN IF f = "phase0" THEN [u EXCEPT !.previous_epoch_attestations = PendingBy(u, TLCEval([k \in 1..N |-> IF k > Len(x) THEN "none" ELSE x[k]]), 0), !.current_epoch_attestations = <<>>]
     ELSE LET a == [WithSync(u) EXCEPT !.previous_epoch_participation = TLCEval([k \in 1..N |-> k]), !.current_epoch_participation = TLCEval([k \in 1..N |-> 7 - k]), !.inactivity_scores = TLCEval([k \in 1..N |-> 10 * k]),
                           !.next_sync_committee.aggregate_public_key = Key(9)]
          IN IF Ge(f, "capella") THEN [a EXCEPT !.next_withdrawal_index = 17, !.next_withdrawal_validator_index = 3, !.historical_summaries = <<[block_summary_root |-> Tag(1), state_summary_root |-> Tag(2)]>>] ELSE a
Init == \E f \in Fs : s = [fk |-> f] /\ was = <<>> /\ ks = <<>>
Next == /\ was = <<>>
        /\ \E d \in Slots, x \in (IF s.fk = "phase0" THEN [1..4 -> Votes] ELSE IF s.fk = "deneb" THEN [1..4 -> Kinds] ELSE {[k \in 1..4 |-> q] : q \in Kinds}) :
             /\ ks' = x /\ was' = TLCEval(Make(s.fk, d, x)) /\ s' = Run(was', "upgrade", NoArg).s
Ran == was # <<>>
To == Next1(was.fk)
Lost == CASE was.fk = "phase0" -> {"previous_epoch_attestations", "current_epoch_attestations"} [] OTHER -> {}
Changed == {"fk", "fork"} \cup (IF To \in {"capella", "deneb", "electra"} THEN {"latest_execution_payload_header"} ELSE {})
           \cup (IF To = "electra" THEN {"validators", "balances"} ELSE {})
\* every field there was is there still, with its value, but for those an upgrade is about
Carried == Ran => /\ Fields(To) \ Fields(was.fk) # {} \/ To = "deneb"
                  /\ \A x \in Fields(was.fk) : x \in Fields(To) \/ x \in Lost
                  /\ \A x \in (Fields(was.fk) \cap Fields(To)) \ Changed : s[x] = was[x]
Version == Ran => s.fk = To /\ s.fork = [previous_version |-> was.fork.current_version, current_version |-> ForkVersion(To), epoch |-> CurEp(was)]
Header == Ran /\ To \in {"capella", "deneb", "electra"} =>
  LET a == was.latest_execution_payload_header
      b == s.latest_execution_payload_header
  IN (\A x \in DOMAIN a : b[x] = a[x]) /\ (\A x \in DOMAIN b \ DOMAIN a : b[x] = DefaultOf(PayloadHeaderT[To])[x])
Fresh == Ran =>
  CASE To = "altair" -> s.current_epoch_participation = Zeroes(N) /\ s.inactivity_scores = Zeroes(N) /\ s.current_sync_committee = s.next_sync_committee /\ Len(s.current_sync_committee.public_keys) = C.sync_committee_size
    [] To = "bellatrix" -> s.latest_execution_payload_header = DefaultOf(PayloadHeaderT[To])
    [] To = "capella" -> s.next_withdrawal_index = 0 /\ s.next_withdrawal_validator_index = 0 /\ s.historical_summaries = <<>>
    [] To = "electra" -> s.deposit_receipts_start_index = FAR /\ s.deposit_balance_to_consume = 0 /\ s.pending_consolidations = <<>> /\ s.pending_partial_withdrawals = <<>>
    [] OTHER -> TRUE
\* votes in pending attestations become flags
Translated == Ran /\ To = "altair" => \A k \in 1..4 : s.previous_epoch_participation[k] = (CASE ks[k] = "all" -> 7 [] ks[k] = "headless" -> 3 [] ks[k] = "source" -> 1 [] ks[k] = "late" -> 2 [] OTHER -> 0)
\* electra: all that is not at stake yet waits in the queue, in the order of eligibility; nothing is lost
Queue == s.pending_balance_deposits
Of(i) == SelectSeq(Queue, LAMBDA q : q.index = i)
Conserved == Ran /\ To = "electra" => \A i \in 0..(N - 1) : At(s.balances, i) + Sum(MapS(Of(i), LAMBDA q : q.amount)) = At(was.balances, i)
Kind(i) == IF i + 1 > Len(ks) THEN "plain" ELSE ks[i + 1]
Held == Ran /\ To = "electra" => \A i \in 0..(N - 1) :
  LET k == Kind(i) IN
  /\ (k \in {"early", "late", "new", "newheavy"}) => At(s.balances, i) = 0 /\ V(s, i).effective_balance = 0 /\ V(s, i).activation_eligibility_epoch = FAR
  /\ k \in {"plain", "leaving", "left", "due"} => At(s.balances, i) = At(was.balances, i) /\ V(s, i) = V(was, i) /\ Of(i) = <<>>
  /\ k = "heavy" => At(s.balances, i) = C.min_activation_balance /\ V(s, i) = V(was, i) /\ Len(Of(i)) = 1
InOrder == Ran /\ To = "electra" => \A a, b \in 1..Len(Queue) : a < b =>
  LET i == Queue[a].index
      j == Queue[b].index
      rank(x) == CASE x = "early" -> 1 [] x \in {"late", "newheavy"} -> 2 [] x = "new" -> 3 [] OTHER -> 4
  IN rank(Kind(i)) < rank(Kind(j)) \/ (rank(Kind(i)) = rank(Kind(j)) /\ i < j)
Exits == Ran /\ To = "electra" => s.earliest_exit_epoch = 1 + MaxOf({CurEp(was)} \cup {V(was, i).exit_epoch : i \in {i \in 0..(N - 1) : V(was, i).exit_epoch # FAR}})
            \/ (\A i \in 0..(N - 1) : V(was, i).exit_epoch = FAR \/ V(was, i).exit_epoch < CurEp(was))
=============================================================================
