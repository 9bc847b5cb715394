------------------------------ MODULE ApiTrace ------------------------------
EXTENDS Api, TraceFn
Next == Step(ApiExp)
=============================================================================
