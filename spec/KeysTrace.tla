----------------------------- MODULE KeysTrace -----------------------------
EXTENDS Keys, TraceFn
Exp(c) == Guard(Answer(c.op, c.a, c.r), "malformed result")
Next == Step(Exp)
=============================================================================
