---------------------------- MODULE HysteresisMC ----------------------------
(* Effective balances for balances at, just inside and just outside every threshold. *)
EXTENDS Scene
CONSTANTS Fs
VARIABLES s, was
Q == EBI \div C.hysteresis_quotient
Kinds(f) == IF f = "electra" THEN {"eth1", "comp"} ELSE {"eth1"}
Near == {d + x : d \in {0, -Q, 5 * Q, EBI, -EBI, 4 * Q}, x \in {-1, 0, 1}} \cup {-8 * EBI, 8 * EBI, 100 * EBI}
Grid(f) == {g \in {<<k, e, e + d>> : k \in Kinds(f), e \in {0, 16 * EBI, 31 * EBI, 32 * EBI, 127 * EBI, 128 * EBI}, d \in Near} :
              g[3] >= 0 /\ g[2] <= (IF g[1] = "comp" THEN C.max_effective_balance_electra ELSE C.max_effective_balance)}
Mk(f, g) == World(f, LastOf(3), TLCEval([k \in 1..Len(g) |-> Val0(k - 1, g[k][1], g[k][2])]), TLCEval([k \in 1..Len(g) |-> g[k][3]]))
Init == /\ \E f \in Fs : \E k \in 1..Len(Chunks(SetToSeq(Grid(f)), 15)) : s = Mk(f, Chunks(SetToSeq(Grid(f)), 15)[k])
        /\ was = <<>>
Next == was = <<>> /\ was' = s /\ s' = Run(s, "ep.effective", NoArg).s
Old(k) == was.validators[k].effective_balance
New(k) == s.validators[k].effective_balance
Cap(k) == IF IsE(s) /\ Slice(s.validators[k].withdrawal_credentials, 0, 1) = "02" THEN C.max_effective_balance_electra ELSE C.max_effective_balance
Done == was # <<>>
Moves(k) == s.balances[k] < Old(k) - Q \/ s.balances[k] > Old(k) + 5 * Q
Exact == Done => \A k \in 1..NumV(s) :
  IF ~Moves(k) THEN New(k) = Old(k)
  ELSE New(k) % EBI = 0 /\ New(k) <= s.balances[k] /\ New(k) <= Cap(k) /\ (New(k) = Cap(k) \/ s.balances[k] < New(k) + EBI)
Settles == Done => ProcessEffective(s) = s
NothingElse == Done => [s EXCEPT !.validators = was.validators] = was
Both == Done => Cardinality({k \in 1..NumV(s) : Moves(k)}) \in 0..NumV(s)
=============================================================================
