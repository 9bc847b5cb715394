----------------------------- MODULE FinalityMC -----------------------------
(* Justification and finalization over several epochs, every epoch with fewer than, exactly, or more     *)
(* than two thirds of the stake voting for each of its two targets.                                      *)
EXTENDS Scene
CONSTANTS Fs, Depth, N, Levels
\* s: the state at an epoch's last slot; J: the epochs justified so far; src: the source of each epoch's votes; last: how many had
\* voted in the current epoch when it ended; fin: what was finalized
VARIABLES s, J, src, last, old
vars == <<s, J, src, last, old>>
First(k) == 0..(k - 1)
Start == 2
Init == \E f \in Fs :
  /\ s = World(f, StartSlot(Start) + SPE - 1, Plain(N, "eth1"), TLCEval([k \in 1..N |-> FullBal]))
  /\ J = {} /\ src = [e \in 1..Start |-> Cp(0)] /\ last = 0 /\ old = Cp(0)
\* a validator of the previous epoch may vote late, so the count can only have grown
Next == \E p \in Levels, q \in Levels :
  /\ CurEp(s) < Start + Depth
  /\ p >= last
  /\ LET t == TLCEval(Voted(s, First(p), First(q)))
         e == CurEp(s)
         r == Run(t, "ep.justification", NoArg)
     IN /\ r.ok
        /\ J' = J \cup (IF 3 * p >= 2 * N THEN {e - 1} ELSE {}) \cup (IF 3 * q >= 2 * N THEN {e} ELSE {})
        /\ src' = Append(src, r.s.current_justified_checkpoint)
        /\ last' = q
        /\ old' = s.finalized_checkpoint
        /\ s' = [Voted(r.s, {}, {}) EXCEPT !.slot = @ + SPE, !.block_roots = Ring(s.slot + SPE, RootOf)]
\* A link source -> target of one or two epochs finalizes its source when every epoch from source to target is justified.
Top(S) == IF S = {} THEN 0 ELSE MaxOf(S)
Ended == CurEp(s) - 1
Finalized == {x \in 1..Ended : \E t \in {Ended - 1, Ended} \cap J : src[t].epoch = x /\ t - x \in 1..2 /\ (x..t) \subseteq J}
Fresh == Ended < Start
FinalExact == Fresh \/ s.finalized_checkpoint.epoch = Top(Finalized \cup {old.epoch})
JustExact == s.current_justified_checkpoint = Cp(Top(J)) /\ (Fresh \/ s.previous_justified_checkpoint = src[Ended])
OnlyJustified == s.finalized_checkpoint.epoch \in J \cup {0} /\ s.finalized_checkpoint = Cp(s.finalized_checkpoint.epoch)
Ordered == /\ s.finalized_checkpoint.epoch <= s.previous_justified_checkpoint.epoch
           /\ s.previous_justified_checkpoint.epoch <= s.current_justified_checkpoint.epoch
           /\ s.current_justified_checkpoint.epoch <= Ended
NeverBack == [][s'.finalized_checkpoint.epoch >= s.finalized_checkpoint.epoch /\ s'.current_justified_checkpoint.epoch >= s.current_justified_checkpoint.epoch]_vars
=============================================================================
