------------------------------ MODULE ShuffleMC ------------------------------
(* Shuffles, committees and proposers for registries of every small size. *)
EXTENDS Scene
CONSTANTS Fs, Sizes, Epochs, Draws
VARIABLES s, go
\* some validators are not yet active, already gone, light or heavy
Reg(n, f, mode) == TLCEval([k \in 1..n |->
   LET v == Val0(k - 1, IF f = "electra" /\ k % 3 = 0 THEN "comp" ELSE "eth1", FullBal)
   IN CASE mode = "all" -> v
        [] mode = "gaps" -> (CASE k % 4 = 2 -> Leaving(v, 3) [] k % 4 = 3 -> [v EXCEPT !.activation_epoch = 5] [] OTHER -> v)
        [] mode = "light" -> [v EXCEPT !.effective_balance = IF k % 3 = 0 THEN FullBal ELSE EBI]
        [] mode = "heavy" -> [v EXCEPT !.effective_balance = IF f = "electra" /\ k % 3 = 0 THEN C.max_effective_balance_electra ELSE 16 * EBI]])
Init == /\ \E f \in Fs, n \in Sizes, e \in Epochs, mode \in {"all", "gaps", "light", "heavy"} :
             LET r == Reg(n, f, mode) IN s = [World(f, StartSlot(e) + (n % SPE), r, Effs(r)) EXCEPT !.randao_mixes = TLCEval([k \in 1..Len(@) |-> Tag(31 * n + k)])]
        /\ go = 0
Cps == CommitteesPerSlot(s, CurEp(s))
Seeds == {Tag(k) : k \in 1..Draws}
Near == {e \in {CurEp(s) - 1, CurEp(s), CurEp(s) + 1} : e >= 0}
Asks ==
  LET es == SetToSeq(Near)
      slots == [k \in 1..SPE |-> StartSlot(CurEp(s)) + k - 1]
      ds == SetToSeq(Seeds)
  IN FlattenSeq([k \in 1..Len(es) |-> <<Call("q.committee_count", [e |-> es[k]]), Call("q.active", [e |-> es[k]])>>])
     \o FlattenSeq([k \in 1..SPE |-> [x \in 1..Cps |-> Call("q.committee", [slot |-> slots[k], x |-> x - 1])]])
     \o FlattenSeq([k \in 1..Len(ds) |-> <<Call("q.shuffle_list", [x |-> Idx(s.validators), seed |-> ds[k]]),
                                             Call("q.shuffled", [i |-> 0, n |-> NumV(s), seed |-> ds[k]]),
                                             Call("q.shuffled", [i |-> NumV(s) - 1, n |-> NumV(s), seed |-> ds[k]]),
                                             Call("q.shuffled", [i |-> NumV(s), n |-> NumV(s), seed |-> ds[k]])>>])
     \o <<Call("q.total_active", NoArg)>>
     \o FlattenSeq([k \in 1..SPE |-> <<Call("poke", [slot |-> slots[k]]), Call("q.proposer", NoArg)>>])
Next == go = 0 /\ go' = 1 /\ UNCHANGED s /\ Behaviour(s, TLCEval(Asks))
Act == SeqSet(ActiveIdx(s, CurEp(s)))
Coms == [o \in 0..(SPE - 1), x \in 0..(Cps - 1) |-> SeqSet(Committee(s, StartSlot(CurEp(s)) + o, x))]
Partition == /\ UNION {Coms[p] : p \in DOMAIN Coms} = Act
             /\ Sum(MapS(SetToSeq(DOMAIN Coms), LAMBDA p : Cardinality(Coms[p]))) = Cardinality(Act)
Even == \A p, q \in DOMAIN Coms : Cardinality(Coms[p]) - Cardinality(Coms[q]) \in {-1, 0, 1}
Permutation == \A d \in Seeds : {ShuffledIndex(i, NumV(s), d) : i \in 0..(NumV(s) - 1)} = 0..(NumV(s) - 1)
ActiveProposer == Act # {} => \A o \in 0..(SPE - 1) : Proposer([s EXCEPT !.slot = StartSlot(CurEp(s)) + o]) \in Act
Counts == Cps \in 1..C.max_committees_per_slot /\ (Cps > 1 => Cardinality(Act) >= Cps * SPE * C.target_committee_size)
=============================================================================
