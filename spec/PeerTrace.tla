----------------------------- MODULE PeerTrace ------------------------------
EXTENDS Peer, TraceFn
Exp(c) == PeerExp(c.op, c.a)
Next == Step(Exp)
=============================================================================
