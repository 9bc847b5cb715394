------------------------------ MODULE TraceFn ------------------------------
(* Checks recorded calls of the implementation, one per step: the result recorded for call k must be    *)
(* the one the specification gives, Exp(call). Mismatches are emitted; every line must be consumed.     *)
EXTENDS Bytes, Json, IOUtils
VARIABLES ck, at
Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
Chunks == 16
Lo(c) == (N * (c - 1)) \div Chunks
Hi(c) == (N * c) \div Chunks
Init == ck \in 1..Chunks /\ at = Lo(ck)
Step(Exp(_)) ==
  /\ at < Hi(ck) /\ at' = at + 1 /\ ck' = ck
  /\ LET c == Trace[at + 1]
         e == Exp(c)
     IN IF Same(e, c.r) THEN TRUE ELSE Emit(ToJson([id |-> c.id, expected |-> e]))
=============================================================================
