------------------------------- MODULE SlashMC -------------------------------
(* Slashings and the epochs after them: what a slashing does at once, and when the correlated penalty is charged. *)
EXTENDS Scene
CONSTANTS Fs, Depth, Most, Effects
\* at: the epoch each validator was slashed in; paid: the epochs in which a correlated penalty was charged to it; eff0: its stake then
VARIABLES s, at, paid
vars == <<s, at, paid>>
Start == 4
N == 6
Who == 0..(N - 1)
Init == \E f \in Fs, e \in Effects :
  /\ s = World(f, LastOf(Start), TLCEval([k \in 1..N |-> Val0(k - 1, "eth1", IF k % 2 = 0 THEN e ELSE FullBal)]), TLCEval([k \in 1..N |-> 2 * FullBal]))
  /\ at = [i \in Who |-> -1] /\ paid = [i \in Who |-> {}]
Hit(i) == at[i] # -1
SlashOne == /\ Cardinality({i \in Who : Hit(i)}) < Most
            /\ \E i \in {i \in 0..3 : ~Hit(i) /\ \A j \in {i - 2} \cap Who : Hit(j)}, w \in {-1, 5} :
                 LET r == Run(s, "slash", IF w = -1 THEN [i |-> i] ELSE [i |-> i, w |-> w])
                 IN r.ok /\ s' = r.s /\ at' = [at EXCEPT ![i] = CurEp(s)]
            /\ UNCHANGED paid
EpochEnd == /\ CurEp(s) < Start + Depth
            /\ \E i \in Who : Hit(i)
            /\ LET a == Run(s, "ep.slashings", NoArg).s
                   b == Run(a, "ep.slashings_reset", NoArg).s
               IN /\ s' = Tick(b)
                  /\ paid' = [i \in Who |-> IF At(a.balances, i) # At(s.balances, i) THEN paid[i] \cup {CurEp(s)} ELSE paid[i]]
            /\ UNCHANGED at
Next == SlashOne \/ EpochEnd
Half == C.epochs_per_slashings_vector \div 2
Once == \A i \in Who : Cardinality(paid[i]) <= 1 /\ (paid[i] # {} => Hit(i) /\ paid[i] = {V(s, i).withdrawable_epoch - Half})
\* a penalty that takes everything is charged
Due == \A i \in Who : (Hit(i) /\ CurEp(s) > V(s, i).withdrawable_epoch - Half /\ V(s, i).effective_balance * SlashMult(s.fk) >= TotalActive(s)) => paid[i] # {}
Window == \A k \in 1..C.epochs_per_slashings_vector :
  LET here == {i \in Who : Hit(i) /\ at[i] % C.epochs_per_slashings_vector = k - 1 /\ CurEp(s) - at[i] < C.epochs_per_slashings_vector}
  IN s.slashings[k] = Sum(MapS(Ascending(here), LAMBDA i : V(s, i).effective_balance))
Marked == \A i \in Who : V(s, i).slashed = Hit(i) /\ (Hit(i) => V(s, i).exit_epoch # FAR /\ V(s, i).withdrawable_epoch >= MaxI(at[i] + C.epochs_per_slashings_vector, V(s, i).exit_epoch))
\* what a slashing takes from the offender and gives to proposer and reporter
Total(t) == Sum(t.balances)
Effect == [][SlashOne =>
   LET i == CHOOSE i \in Who : at'[i] # at[i]
       eff == V(s, i).effective_balance
       fine == eff \div MinSlashQuot(s.fk)
       reward == eff \div (IF IsE(s) THEN C.whistleblower_reward_quotient_electra ELSE C.whistleblower_reward_quotient)
   IN /\ Total(s') = Total(s) - fine + reward
      /\ (\A m \in Who \ {i} : At(s'.balances, m) >= At(s.balances, m))
      /\ Cardinality({m \in Who \ {i} : At(s'.balances, m) # At(s.balances, m)}) <= 2]_vars
Bounded == [][EpochEnd => \A i \in Who : LET d == At(s.balances, i) - At(s'.balances, i) IN
   d >= 0 /\ d <= V(s, i).effective_balance /\ d % EBI = 0
   /\ (d > 0 => d <= MulDiv(V(s, i).effective_balance, Sum(s.slashings) * SlashMult(s.fk), TotalActive(s)))]_vars
=============================================================================
