------------------------------- MODULE PolyMC --------------------------------
(* Every pair of forks of every polymorphic type: the shapes alone tell the forks apart, so a value's own encoding *)
(* can never be taken for a later fork's, and the newest-first rule picks the fork that wrote it.                  *)
EXTENDS Poly
VARIABLES name, wrote, other
Init == name \in PolyNames /\ wrote \in PolyForks(name) /\ other \in PolyForks(name)
Next == UNCHANGED <<name, wrote, other>>
\* the JSON names reachable in every value of the type, as paths through its containers
RECURSIVE Needs(_, _)
Needs(ty, path) == IF ty.t # "cont" THEN {} ELSE
  UNION {{Append(path, JKey(ty.fs[k][1]))} \cup Needs(ty.fs[k][2], Append(path, JKey(ty.fs[k][1]))) : k \in 1..Len(ty.fs)}
Later == other # wrote /\ Ge(other, wrote)
\* a later fork always needs a member that this fork never writes
Distinguished == Later => Needs(Containers[other][name], <<>>) \ Needs(Containers[wrote][name], <<>>) # {}
\* serializations differ in the length of the fixed part (or in that of a part that is always there)
RECURSIVE Shape(_)
Shape(ty) == IF ty.t # "cont" THEN <<>> ELSE <<SumLens(ty.fs, 1)>> \o (LET s[k \in 0..Len(ty.fs)] == IF k = 0 THEN <<>> ELSE s[k - 1] \o Shape(Plain(ty.fs[k][2])) IN s[Len(ty.fs)])
SerDistinguished == other # wrote => Shape(Plain(Containers[other][name])) # Shape(Plain(Containers[wrote][name]))
=============================================================================
