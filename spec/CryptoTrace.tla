---------------------------- MODULE CryptoTrace -----------------------------
EXTENDS Crypto, TraceFn
Exp(c) == CryptoExp(c.op, c.a, c.r)
Next == Step(Exp)
=============================================================================
