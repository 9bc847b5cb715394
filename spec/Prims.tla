------------------------------- MODULE Prims -------------------------------
(* Standard primitives, as TLC evaluates them with java/tlc2/overrides/Prims.java. Texts are the hex of *)
(* their UTF-8 bytes.                                                                                   *)
EXTENDS Bytes

HmacSha256(key, msg) == CHOOSE d : TRUE                   \* RFC 2104
Pbkdf2Sha512(pass, salt, rounds, len) == CHOOSE d : TRUE  \* RFC 8018
Scrypt(pass, salt, n, r, p, len) == CHOOSE d : TRUE       \* RFC 7914
Aes128(key, block) == CHOOSE c : TRUE                     \* FIPS 197, one block
Nfkd(t) == CHOOSE x : TRUE                                \* Unicode compatibility decomposition
StripControls(t) == CHOOSE x : TRUE                       \* without the control characters (C0, C1, delete)
SplitWhite(t) == CHOOSE x : TRUE                          \* words between white space
WordAt(k) == CHOOSE w : TRUE                              \* the BIP-39 English list, k in 0..2047
WordIndex(w) == IF \E k \in 0..2047 : WordAt(k) = w THEN CHOOSE k \in 0..2047 : WordAt(k) = w ELSE -1

(* Bits, most significant first within each byte. *)
BitMsb(h, k) == (ByteAt(h, k \div 8) \div (2 ^ (7 - (k % 8)))) % 2
BytesOfBits(b) == LET n == (Len(b) + 7) \div 8
                      at(k) == IF k <= Len(b) THEN b[k] ELSE 0
                      byte[j \in 1..n] == 128 * at(8*j-7) + 64 * at(8*j-6) + 32 * at(8*j-5) + 16 * at(8*j-4)
                                          + 8 * at(8*j-3) + 4 * at(8*j-2) + 2 * at(8*j-1) + at(8*j)
                  IN ConcatAll([j \in 1..n |-> HexByte(byte[j])])
(* Reads the bits of h in groups of fb, dropping the first fs of each group, and writes them in groups  *)
(* of tb whose first ts bits are zero; the last group is filled with zeros.                             *)
RepackDef(h, fb, fs, tb, ts) ==
  LET total == 8 * HLen(h)
      kept == SelectSeq([k \in 1..total |-> k - 1], LAMBDA k : k % fb >= fs)
      out == tb - ts
      groups == (Len(kept) + out - 1) \div out
      bit(q) == LET g == (q - 1) \div tb
                    o == (q - 1) % tb
                    j == g * out + (o - ts) + 1
                IN IF o < ts \/ j > Len(kept) THEN 0 ELSE BitMsb(h, kept[j])
  IN BytesOfBits([q \in 1..groups * tb |-> bit(q)])
Repack(h, fb, fs, tb, ts) == RepackDef(h, fb, fs, tb, ts)
RECURSIVE TrimZerosDef(_)
TrimZerosDef(h) == IF HLen(h) > 0 /\ ByteAt(h, HLen(h) - 1) = 0 THEN TrimZerosDef(Slice(h, 0, HLen(h) - 1)) ELSE h
TrimZeros(h) == TrimZerosDef(h)

RECURSIVE Reverse(_)
Reverse(h) == IF HLen(h) = 0 THEN "" ELSE Reverse(Slice(h, 1, HLen(h) - 1)) \o Slice(h, 0, 1)
BE(n, len) == Reverse(BLE(n, len))        \* big-endian bytes of an unbounded integer
FromBE(h) == BFromLE(Reverse(h))

(* The ideal polynomial commitment scheme: blobs are given without their trailing zero bytes. A         *)
(* commitment is the polynomial's value at a secret point, a proof of "value y at z" the quotient.      *)
KzgCommit(blob) == CHOOSE c : TRUE                        \* "error" when an element is not in the field
KzgOpen(blob, z) == CHOOSE p : TRUE                       \* <<proof, value>> or "error"
KzgBlobProof(blob, c) == CHOOSE p : TRUE
KzgCheck(c, z, y, p) == CHOOSE v \in {"valid", "invalid", "error"} : TRUE
KzgBlobCheck(blob, c, p) == CHOOSE v \in {"valid", "invalid", "error"} : TRUE
=============================================================================
