------------------------------ MODULE StreamMC ------------------------------
(* The slot stream as a state machine: creation at any reading, then any interleaving of polls with    *)
(* advances of the wall clock and of the timer (together, or the wall clock drifting against it).      *)
EXTENDS Clock, SequencesExt, FiniteSets, Json
CONSTANTS Gs, Spss, Depth, Drift, Starts, Advances
VARIABLES p, now, timer, st, hist, yielded, dead
vars == <<p, now, timer, st, hist, yielded, dead>>
Sec(k) == BMul(k, NS)
Log(e) == hist' = Append(hist, e)
Init == /\ p \in [g : Gs, sps : Spss, spe : {"4"}]
        /\ \E s \in Starts : /\ now = Sec(s) /\ timer = "0"
                             /\ st = StreamCreate(p, now, timer)
                             /\ hist = <<[k |-> "create", now |-> now]>>
        /\ yielded = <<>> /\ dead = FALSE
Advance(w, t) == /\ now' = BAdd(now, Sec(w)) /\ timer' = BAdd(timer, Sec(t))
                 /\ Log([k |-> "advance", w |-> w, t |-> t])
                 /\ UNCHANGED <<p, st, yielded, dead>>
Poll == /\ ~dead
        /\ LET r == StreamPoll(p, st, now, timer) IN
           /\ st' = r.st
           /\ Log([k |-> "poll", y |-> r.yield])
           /\ yielded' = IF r.yield \in {"pending", None} THEN yielded ELSE Append(yielded, r.yield)
           /\ dead' = (r.yield = None)
        /\ UNCHANGED <<p, now, timer>>
Next == /\ Len(hist) < Depth
        /\ \/ Poll
           \/ \E d \in Advances : Advance(d, d)
           \/ Drift /\ \E d \in Advances : (d > 1 /\ Advance(d - 1, d)) \/ Advance(d, d - 1)
Started(k) == BLeq(SlotStartNs(p, k), now)
\* without drift: every yielded slot has begun, they strictly increase, the stream never ends
NeverEarly == ~Drift => \A k \in 1..Len(yielded) : Started(yielded[k])
Increasing == ~Drift => \A k \in 1..(Len(yielded) - 1) : BLt(yielded[k], yielded[k + 1])
Alive == ~Drift => ~dead
\* a slot is missed only if a whole slot passed without the stream being polled
StartsRight == (yielded # <<>> /\ ~Drift) =>
   (BLeq(GenesisNs(p), hist[1].now) => yielded[1] = SlotAt(p, hist[1].now))
View == <<p, now, timer, st, yielded, dead, hist>>
CasesOut == Len(hist) = Depth => Emit(ToJson([op |-> "clock.stream", a |-> [p |-> p, h |-> hist]]))
=============================================================================
