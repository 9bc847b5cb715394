----------------------------- MODULE TextTrace -----------------------------
EXTENDS Text, TraceFn
Exp(c) == Answer(c.op, c.a)
Next == Step(Exp)
=============================================================================
