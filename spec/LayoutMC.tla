------------------------------ MODULE LayoutMC ------------------------------
(* Walks the containers of all forks, one per state: emits each type's schema for the value generator, and checks *)
(* that the layouts are well-formed and that successive forks only ever extend what was there before.            *)
EXTENDS Layout
VARIABLES fork, name
Init == \E f \in DOMAIN Containers : fork = f /\ name \in DOMAIN Containers[f]
Next == UNCHANGED <<fork, name>>
ty == Containers[fork][name]
Emitted == Emit(ToJson([fork |-> fork, name |-> name, ty |-> Schema(ty)]))
Names(t) == [k \in 1..Len(t.fs) |-> t.fs[k][1]]
Distinct == \A a, b \in 1..Len(ty.fs) : a # b => ty.fs[a][1] # ty.fs[b][1] /\ JKey(ty.fs[a][1]) # JKey(ty.fs[b][1])
\* the fields of fork f's version appear in the same order in fork g's, g the next fork
Sub(a, b) == \A i, j \in 1..Len(a) : i < j /\ (\E k \in 1..Len(b) : b[k] = a[i]) /\ (\E k \in 1..Len(b) : b[k] = a[j])
   => \E k, m \in 1..Len(b) : k < m /\ b[k] = a[i] /\ b[m] = a[j]
Extends == fork \in ForkSet /\ fork # "electra" =>
   LET g == Forks[FNum[fork] + 1] IN name \in DOMAIN Containers[g] => Sub(Names(ty), Names(Containers[g][name]))
\* a blinded body has the root of the body it blinds whenever the header summarises the payload: same shape
SameShape == fork \in Execs /\ name = "BeaconBlockBody" => Len(ty.fs) = Len(BlindedBodyT[fork].fs)
=============================================================================
