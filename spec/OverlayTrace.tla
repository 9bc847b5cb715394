---------------------------- MODULE OverlayTrace ---------------------------
EXTENDS Overlay, TraceFn
Exp(c) == Answer(c.op, c.a)
Next == Step(Exp)
=============================================================================
