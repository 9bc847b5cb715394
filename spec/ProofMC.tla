------------------------------ MODULE ProofMC -------------------------------
(* Bodies with commitments, a position in each, and one thing changed about the sidecar that proves it: emits every *)
(* sidecar with its verdict, and checks that exactly the untouched ones are accepted.                              *)
EXTENDS Proof
CONSTANT Preset
VARIABLES k, i, how, at, truth    \* truth: position, branch and root for place i of body k
Bodies == JsonDeserialize(IOEnv.CASES)
Body == TLCEval([n \in 1..Len(Bodies) |-> FromJ(Containers[Bodies[n].fork].BeaconBlockBody, Bodies[n].body)])
F_(n) == Bodies[n].fork
List(n) == Body[n].blob_kzg_commitments
Places(n) == {j \in {0, 1, Len(List(n)) - 1, Len(List(n)) \div 2, Len(List(n))} : j >= 0}
Hows == {"none", "sibling", "swap", "commitment", "other", "index", "beyond", "root", "wrongfork"}
Init == /\ k \in 1..Len(Bodies) /\ i \in Places(k) /\ how = "none" /\ at = 1
        /\ truth = LET p == CommitmentAt(F_(k), i) IN
                   [pos |-> p, branch |-> Branch(BodyTy(F_(k)), Body[k], p), root |-> HTR(BodyTy(F_(k)), Body[k]),
                    list |-> List(k), depth |-> Depth(Commitments(F_(k)))]
Deep_ == Len(truth.pos)
Next == /\ how = "none"
        /\ how' \in Hows \ {"none"}
        /\ at' \in IF how' = "index" THEN 1..(Deep_ + 3) \cup {32, 33, 64} ELSE IF how' = "sibling" THEN 1..Deep_ ELSE IF how' = "swap" THEN 1..(Deep_ - 1) ELSE {1}
        /\ UNCHANGED <<k, i, truth>>
Flip(h) == (IF SubSeq(h, 1, 1) = "0" THEN "8" ELSE "0") \o SubSeq(h, 2, Len(h))
True_ == truth.branch
Inside_ == i < Len(truth.list)
Mine == IF Inside_ THEN truth.list[i + 1] ELSE Zeros(48)
\* another place for the same branch: one bit of the whole position differs, so the index may leave the list
\* (also one above the position, where a wrapped sum would land on it again)
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN "1" ELSE BMul("2", Pow2(n - 1))
Elsewhere == IF at <= truth.depth THEN ToString(IF (i \div 2^(at - 1)) % 2 = 1 THEN i - 2^(at - 1) ELSE i + 2^(at - 1))
             ELSE BAdd(ToString(i), Pow2(at - 1))
Sidecar ==
  [fork |-> IF how = "wrongfork" THEN "capella" ELSE F_(k),
   index |-> CASE how = "index" -> Elsewhere
               [] how = "beyond" -> BAdd(ToString(i), ToString(Commitments(F_(k)).n))
               [] OTHER -> ToString(i),
   commitment |-> CASE how = "commitment" -> Flip(Mine)
                    [] how = "other" -> (IF truth.list = <<>> THEN Repeat("11", 48) ELSE truth.list[((i + 1) % Len(truth.list)) + 1])
                    [] OTHER -> Mine,
   branch |-> LET t == True_ IN
              CASE how = "sibling" -> [t EXCEPT ![at] = Flip(t[at])]
                [] how = "swap" -> [t EXCEPT ![at] = t[at + 1], ![at + 1] = t[at]]
                [] OTHER -> t,
   root |-> LET r == truth.root IN IF how = "root" THEN Flip(r) ELSE r]
Verdict == IF how = "wrongfork" THEN "err" ELSE ProofExp([a |-> Sidecar])
Emitted == Emit(ToJson([op |-> "proof." \o Preset, a |-> Sidecar, e |-> Verdict]))
\* accepted exactly when nothing was changed that matters
Sound == Verdict = "ok" <=> /\ Inside_
                            /\ how \in {"none", "swap", "other"}
                            /\ Sidecar.commitment = Mine
                            /\ Sidecar.branch = True_
\* a branch is as long as the preset says, for every index
Deep == Deep_ = C.kzg_commitment_inclusion_proof_depth
=============================================================================
