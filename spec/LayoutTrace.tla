----------------------------- MODULE LayoutTrace -----------------------------
EXTENDS Layout, TraceFn
Next == Step(LayoutExp)
=============================================================================
