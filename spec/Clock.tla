------------------------------- MODULE Clock -------------------------------
(* The consensus clock. Times are nanoseconds, unbounded integers written as decimal strings (Bytes). *)
EXTENDS Bytes
None == "none"
NS == "1000000000"
\* p = [g |-> genesis time in s, sps |-> seconds per slot, spe |-> slots per epoch]
GenesisNs(p) == BMul(p.g, NS)
SlotNs(p) == BMul(p.sps, NS)
SlotStartNs(p, slot) == BAdd(GenesisNs(p), BMul(slot, SlotNs(p)))

BeforeGenesis(p, now) == BLt(now, GenesisNs(p))
SlotAt(p, now) == IF BeforeGenesis(p, now) THEN None
                  ELSE BDiv(BSub(now, GenesisNs(p)), SlotNs(p))
SlotAtSeconds(p, t) == IF BLt(t, p.g) THEN None ELSE BDiv(BSub(t, p.g), p.sps)
EpochOf(p, slot) == BDiv(slot, p.spe)
EpochAt(p, now) == IF SlotAt(p, now) = None THEN None ELSE EpochOf(p, SlotAt(p, now))
TimestampOf(p, slot) == BAdd(p.g, BMul(slot, p.sps))
UntilSlot(p, now, slot) == IF BLt(now, SlotStartNs(p, slot)) THEN BSub(SlotStartNs(p, slot), now) ELSE "0"
UntilNext(p, now) == IF BeforeGenesis(p, now) THEN BSub(GenesisNs(p), now)
                     ELSE BSub(SlotStartNs(p, BAdd(SlotAt(p, now), 1)), now)

(* The slot stream: `timer` is the (monotonic) timer's clock, `now` the wall clock it consults. *)
StreamCreate(p, now, timer) == [first |-> SlotAt(p, now), fires |-> BAdd(timer, UntilNext(p, now))]
\* result of a poll: [yield, stream']; yield is "pending", None (the clock reads no slot) or a slot
StreamPoll(p, st, now, timer) ==
  IF st.first # None THEN [yield |-> st.first, st |-> [st EXCEPT !.first = None]]
  ELSE IF BLt(timer, st.fires) THEN [yield |-> "pending", st |-> st]
  ELSE [yield |-> SlotAt(p, now), st |-> [st EXCEPT !.fires = BAdd(timer, UntilNext(p, now))]]

\* a reading r of the system's time lies between the times read before and after it
WallOk(p, r) ==
  LET in(x) == BLeq(r.t0, x) /\ BLeq(x, r.t1)
      due == BMul(r.at, NS)
      left(now) == IF BLt(now, due) THEN BSub(due, now) ELSE "0"
  IN /\ in(r.nanos) /\ in(r.since) /\ BLeq(left(r.t1), r.until) /\ BLeq(r.until, left(r.t0))
     /\ IF r.slot = None THEN BeforeGenesis(p, r.t0)
        ELSE ~BeforeGenesis(p, r.t1) /\ BLeq(r.slot, SlotAt(p, r.t1)) /\ (BeforeGenesis(p, r.t0) \/ BLeq(SlotAt(p, r.t0), r.slot))
(* What the public operations return, as the harness records them. *)
Query(op, a) ==
  LET p == a.p IN
  CASE op = "clock.read" ->
         [slot |-> SlotAt(p, a.now), epoch |-> EpochAt(p, a.now), before |-> BeforeGenesis(p, a.now),
          next |-> UntilNext(p, a.now), at |-> SlotAt(p, a.now)]
    [] op = "clock.slot" ->
         [ts |-> TimestampOf(p, a.slot), epoch |-> EpochOf(p, a.slot), until |-> UntilSlot(p, a.now, a.slot),
          back |-> a.slot]
    \* slots beyond the range of nanosecond waits: their start still fits 64 bits of seconds
    [] op = "clock.far" -> [ts |-> TimestampOf(p, a.slot), epoch |-> EpochOf(p, a.slot), back |-> a.slot, free |-> TimestampOf(p, a.slot)]
    [] op = "clock.seconds" -> [slot |-> SlotAtSeconds(p, a.t)]
    [] op = "clock.nanos" -> [slot |-> SlotAt(p, a.now)]
=============================================================================
