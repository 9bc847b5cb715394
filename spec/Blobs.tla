------------------------------- MODULE Blobs -------------------------------
(* Packing of byte strings into blobs. A blob is a sequence of field elements, whose first bits stay    *)
(* zero so that each is below the group order; the data's bits fill the rest in order. Blobs and byte   *)
(* strings of known length are written [n |-> length, h |-> the bytes without trailing zeros].          *)
EXTENDS Prims
CONSTANTS ElemBits, SkipBits, Elems   \* bits of an element, bits of it kept zero, elements of a blob

BlobBytes == (ElemBits \div 8) * Elems
Trimmed(h) == [n |-> HLen(h), h |-> TrimZeros(h)]
Whole(t) == t.h \o Zeros(t.n - HLen(t.h))
HeaderSize == 5
Err == "err"

Pack(d) == Repack(d, 8, 0, ElemBits, SkipBits)
Framed(mode, d) == IF mode = "sized" THEN "00" \o BE(HLen(d), 4) \o d ELSE d
BlobAt(f, k) == LET at == BlobBytes * (k - 1)
                    n == IF HLen(f) - at < BlobBytes THEN HLen(f) - at ELSE BlobBytes
                IN [n |-> BlobBytes, h |-> TrimZeros(Slice(f, at, n))]
Encode(mode, d) ==
  LET f == TLCEval(Pack(Framed(mode, d)))
      n == (HLen(f) + BlobBytes - 1) \div BlobBytes
  IN [k \in 1..(IF n = 0 THEN 1 ELSE n) |-> BlobAt(f, k)]

\* the stream of n blobs: the bits of all elements, then zeros up to as many bytes as the blobs have
Stream(blobs) == LET all == ConcatAll([k \in DOMAIN blobs |-> Whole(blobs[k])])
                     s == TLCEval(Repack(all, ElemBits, SkipBits, 8, 0))
                 IN [n |-> BlobBytes * Len(blobs), h |-> TrimZeros(s)]
First(t, from, n) == LET w == Whole(t) IN Slice(w, from, n)
Decode(mode, blobs) ==
  IF \E k \in DOMAIN blobs : blobs[k].n # BlobBytes THEN Err
  ELSE LET s == TLCEval(Stream(blobs))
       IN IF mode = "raw" THEN s
          ELSE IF s.n < HeaderSize THEN Err
          ELSE LET header == First(s, 0, HeaderSize)
                   size == FromBE(Slice(header, 1, 4))
               IN IF Slice(header, 0, 1) # "00" THEN Err
                  ELSE IF BLt(s.n - HeaderSize, size) THEN Err
                  ELSE Trimmed(First(s, HeaderSize, BInt(size)))
\* blobs with their commitments and proofs
Bundle(blobs) ==
  LET c == TLCEval([k \in DOMAIN blobs |-> KzgCommit(blobs[k].h)])
  IN IF \E k \in DOMAIN blobs : blobs[k].n # BlobBytes \/ c[k] = "error" THEN Err
     ELSE [blobs |-> blobs, commitments |-> c, proofs |-> [k \in DOMAIN blobs |-> KzgBlobProof(blobs[k].h, c[k])]]
Answer(op, a) ==
  CASE op = "blob.encode" -> Encode(a.mode, a.data)
    [] op = "blob.decode" -> Decode(a.mode, a.blobs)
    [] op = "blob.round" -> Decode(a.back, Encode(a.mode, a.data))
    [] op = "blob.bundle" -> Bundle(a.blobs)
=============================================================================
