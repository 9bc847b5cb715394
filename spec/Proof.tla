------------------------------- MODULE Proof --------------------------------
(* Positions in the hash tree of an SSZ value, the nodes found there, branches to them and their verification. *)
EXTENDS Layout
\* ---- generalized indices: the root is 1, the children of g are 2g and 2g + 1; here as the bits below the leading one
RECURSIVE BitsOf(_, _)
BitsOf(i, n) == IF n = 0 THEN <<>> ELSE Append(BitsOf(i \div 2, n - 1), i % 2)      \* n bits, most significant first
RECURSIVE IntOf(_)
IntOf(b) == IF b = <<>> THEN 0 ELSE 2 * IntOf(SubSeq(b, 1, Len(b) - 1)) + b[Len(b)]
GIndex(b) == 2^Len(b) + IntOf(b)
Depth(ty) == CASE ty.t = "cont" -> Log2Ceil(Len(ty.fs))
               [] ty.t = "list" -> TreeDepth(ty.n, IF Basic(ty.e) THEN ty.e.n ELSE 32)
               [] ty.t = "vec" -> IF Basic(ty.e) THEN Log2Ceil((ty.n * ty.e.n + 31) \div 32) ELSE Log2Ceil(ty.n)
FieldNo(ty, n) == CHOOSE k \in 1..Len(ty.fs) : ty.fs[k][1] = n
\* the position of field `n`, or of element `i` of a list of composite elements
ToField(ty, n) == BitsOf(FieldNo(ty, n) - 1, Depth(ty))
ToElement(ty, i) == <<0>> \o BitsOf(i, Depth(ty))
\* ---- the node at a position
LeafRoots(ty, v) == IF ty.t = "cont" THEN TLCEval([k \in 1..Len(ty.fs) |-> HTR(ty.fs[k][2], v[ty.fs[k][1]])])
                    ELSE IF Basic(ty.e) THEN Chunks32(SerHomog(ty.e, v)) ELSE Roots(ty.e, v)
\* the subtree above the leaves whose positions start with b, d levels in all
Subtree(leaves, d, b) ==
  LET w == 2^(d - Len(b))
      from == IntOf(b) * w + 1
      to == IF from + w - 1 > Len(leaves) THEN Len(leaves) ELSE from + w - 1
  IN MerkleRoot(IF from > Len(leaves) THEN <<>> ELSE SubSeq(leaves, from, to), d - Len(b))
RECURSIVE NodeAt(_, _, _), Inside(_, _, _)
NodeAt(ty, v, b) ==
  IF b = <<>> THEN HTR(ty, v)
  ELSE IF ty.t = "list" THEN IF b[1] = 1 THEN LE(Len(v), 32) ELSE Inside(ty, v, Tail(b))
  ELSE Inside(ty, v, b)
Inside(ty, v, b) ==
  LET d == Depth(ty) IN
  IF Len(b) <= d THEN Subtree(LeafRoots(ty, v), d, b)
  ELSE LET k == IntOf(SubSeq(b, 1, d)) + 1
           rest == SubSeq(b, d + 1, Len(b))
       IN IF ty.t = "cont" THEN NodeAt(ty.fs[k][2], v[ty.fs[k][1]], rest) ELSE NodeAt(ty.e, v[k], rest)
\* the siblings on the way up from position b
Sibling(b) == Append(SubSeq(b, 1, Len(b) - 1), 1 - b[Len(b)])
Branch(ty, v, b) == TLCEval([k \in 1..Len(b) |-> NodeAt(ty, v, Sibling(SubSeq(b, 1, Len(b) - k + 1)))])
RECURSIVE Climb(_, _, _)
Climb(node, branch, b) ==
  IF b = <<>> THEN node
  ELSE LET s == branch[1] IN
       Climb(Sha256(IF b[Len(b)] = 1 THEN s \o node ELSE node \o s), Tail(branch), SubSeq(b, 1, Len(b) - 1))
Proves(node, branch, b, root) == Len(branch) = Len(b) /\ Climb(node, branch, b) = root

\* ---- what a blob sidecar shows: its commitment is the one at its index in the body of the signed header
BodyTys == TLCEval([f \in {"capella", "deneb", "electra"} |-> Plain(Containers[f].BeaconBlockBody)])
BodyTy(f) == BodyTys[f]
Commitments(f) == LET ty == BodyTy(f) IN ty.fs[FieldNo(ty, "blob_kzg_commitments")][2]
CommitmentAt(f, i) == ToField(BodyTy(f), "blob_kzg_commitments") \o ToElement(Commitments(f), i)
ProofExp(c) ==
  LET f == c.a.fork IN
  IF /\ BCmp(c.a.index, ToString(Commitments(f).n)) < 0
     /\ Proves(HTR(B48, c.a.commitment), c.a.branch, CommitmentAt(f, BInt(c.a.index)), c.a.root)
  THEN "ok" ELSE "err"
=============================================================================
