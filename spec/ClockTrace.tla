----------------------------- MODULE ClockTrace -----------------------------
EXTENDS Clock, TraceFn
Exp(c) == IF c.op = "clock.wall" THEN (IF WallOk(c.a.p, c.r) THEN c.r ELSE "another time") ELSE Query(c.op, c.a)
Next == Step(Exp)
=============================================================================
