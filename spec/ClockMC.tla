------------------------------ MODULE ClockMC ------------------------------
(* Design: exhaustive over small clocks and readings at and next to every boundary; every visited      *)
(* reading is also emitted as a test case for the real clock.                                          *)
EXTENDS Clock, FiniteSets, Json
CONSTANTS Gs, Spss, Spes, MaxSlot
VARIABLES p, now, out
vars == <<p, now, out>>
Readings(q) == {BAdd(BAdd(GenesisNs(q), BMul(k, SlotNs(q))), d) :
                  k \in 0..MaxSlot, d \in {"-1", "0", "1", "999999999", "500000000", "1000000000"}}
               \cup {BSub(GenesisNs(q), d) : d \in {"1", "1000000000", "2000000001"}}
Init == /\ p \in [g : Gs, sps : Spss, spe : Spes]
        /\ now \in {t \in Readings(p) : BLeq(0, t)}
        /\ out = Query("clock.read", [p |-> p, now |-> now])
\* the wall clock moves to a later reading
Next == /\ \E t \in Readings(p) : BLt(now, t) /\ now' = t
        /\ p' = p
        /\ out' = Query("clock.read", [p |-> p, now |-> now'])
\* a slot exactly from genesis on, and the reading lies inside that slot
SlotExact == IF BLt(now, GenesisNs(p)) THEN out.slot = None /\ out.epoch = None
             ELSE /\ BLeq(SlotStartNs(p, out.slot), now)
                  /\ BLt(now, SlotStartNs(p, BAdd(out.slot, 1)))
                  /\ BLeq(BMul(out.epoch, p.spe), out.slot)
                  /\ BLt(out.slot, BMul(BAdd(out.epoch, 1), p.spe))
\* waiting as long as told lands exactly on the start of the next slot (or on genesis)
WaitExact == LET t == BAdd(now, out.next) IN
             /\ BLt(0, out.next)
             /\ SlotAt(p, t) = (IF out.slot = None THEN "0" ELSE BAdd(out.slot, 1))
             /\ t = SlotStartNs(p, SlotAt(p, t))
RoundTrip == \A k \in 0..MaxSlot : /\ SlotAtSeconds(p, TimestampOf(p, k)) = BStr(k)
                                   /\ SlotAt(p, BMul(TimestampOf(p, k), NS)) = BStr(k)
                                   /\ BLeq(0, UntilSlot(p, now, k))
\* slots never go backwards as the clock advances
Monotone == [][out.slot = None \/ (out'.slot # None /\ BLeq(out.slot, out'.slot))]_vars
CasesOut == /\ Emit(ToJson([op |-> "clock.read", a |-> [p |-> p, now |-> now], e |-> out]))
            /\ \A k \in {0, 1, MaxSlot} :
                 LET a == [p |-> p, now |-> now, slot |-> BStr(k)] IN
                 Emit(ToJson([op |-> "clock.slot", a |-> a, e |-> Query("clock.slot", a)]))
            /\ LET a == [p |-> p, t |-> BDiv(now, NS)] IN
               Emit(ToJson([op |-> "clock.seconds", a |-> a, e |-> Query("clock.seconds", a)]))
=============================================================================
