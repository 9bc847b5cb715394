------------------------------ MODULE PolyTrace ------------------------------
EXTENDS Poly, TraceFn
Next == Step(PolyExp)
=============================================================================
