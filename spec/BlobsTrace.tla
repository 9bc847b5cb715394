----------------------------- MODULE BlobsTrace ----------------------------
EXTENDS Blobs, TraceFn
Exp(c) == Answer(c.op, c.a)
Next == Step(Exp)
=============================================================================
