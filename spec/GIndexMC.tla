------------------------------ MODULE GIndexMC ------------------------------
(* The positions light clients prove against, computed from the layout of every fork's state and body. *)
EXTENDS Proof
VARIABLES what, fork
LCF == {"altair", "bellatrix", "capella", "deneb"}
St(f) == Plain(Containers[f].BeaconState)
Path(w, f) ==
  CASE w = "finalized_root" -> ToField(St(f), "finalized_checkpoint") \o ToField(CheckpointT, "root")
    [] w = "current_sync_committee" -> ToField(St(f), "current_sync_committee")
    [] w = "next_sync_committee" -> ToField(St(f), "next_sync_committee")
    [] w = "execution_payload" -> ToField(BodyTy(f), "execution_payload")
Whats == {"finalized_root", "current_sync_committee", "next_sync_committee", "execution_payload"}
Init == what \in Whats /\ fork \in (IF what = "execution_payload" THEN {"capella", "deneb"} ELSE LCF)
Next == UNCHANGED <<what, fork>>
Emitted == Emit(ToJson([op |-> "gindex", a |-> [what |-> what, fork |-> fork], e |-> <<GIndex(Path(what, fork)), Len(Path(what, fork))>>]))
\* one constant serves all these forks
Stable == \A f \in LCF \ (IF what = "execution_payload" THEN {"altair", "bellatrix"} ELSE {}) : Path(what, f) = Path(what, fork)
\* the branch vectors of the light-client containers have the lengths these positions need
Lengths == fork = "bellatrix" \/
  LET len(n, fld) == LET ty == Containers[fork][n] IN ty.fs[FieldNo(ty, fld)][2].n IN
  CASE what = "finalized_root" -> len("LightClientUpdate", "finality_branch") = Len(Path(what, fork))
    [] what = "current_sync_committee" -> len("LightClientBootstrap", "current_sync_committee_branch") = Len(Path(what, fork))
    [] what = "next_sync_committee" -> len("LightClientUpdate", "next_sync_committee_branch") = Len(Path(what, fork))
    [] what = "execution_payload" -> len("LightClientHeader", "execution_branch") = Len(Path(what, fork))
=============================================================================
