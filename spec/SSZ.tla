-------------------------------- MODULE SSZ --------------------------------
(* SimpleSerialize: type descriptors, serialization and Merkleization of values. *)
EXTENDS Bytes
FAR == 2147483647           \* stands for 2^64 - 1 (FAR_FUTURE_EPOCH and other unset values)

UInt(n) == [t |-> "u", n |-> n]             \* n bytes; values are integers
Bool == [t |-> "bool"]                      \* values are booleans
BV(n) == [t |-> "bv", n |-> n]              \* n bytes, as hex
BL(n) == [t |-> "bl", n |-> n]              \* up to n bytes, as hex
Lst(e, n) == [t |-> "list", e |-> e, n |-> n]
LstD(e, d) == [t |-> "listd", e |-> e, d |-> d]   \* list of up to 2^d composite elements
Vec(e, n) == [t |-> "vec", e |-> e, n |-> n]
BitV(n) == [t |-> "bitv", n |-> n]          \* sequences of 0 and 1
BitL(n) == [t |-> "bitl", n |-> n]
Cont(fs) == [t |-> "cont", fs |-> fs]       \* sequence of <<name, type>>
U64 == UInt(8)
U8 == UInt(1)
B4 == BV(4)
B20 == BV(20)
B32 == BV(32)
B48 == BV(48)
B96 == BV(96)

RECURSIVE Log2Ceil(_)
Log2Ceil(n) == IF n <= 1 THEN 0 ELSE 1 + Log2Ceil((n + 1) \div 2)
UHex(v, n) == IF Same(v, FAR) THEN Repeat("ff", n) ELSE BLE(v, n)   \* v may be a decimal string
PadTo32(h) == LET r == HLen(h) % 32 IN IF r = 0 THEN h ELSE h \o Zeros(32 - r)
Chunks32(h) == LET p == PadTo32(h) IN TLCEval([k \in 1..(HLen(p) \div 32) |-> Slice(p, 32 * (k - 1), 32)])
MixIn(root, n) == Sha256(root \o LE(n, 32))
Basic(ty) == ty.t \in {"u", "bool"}

RECURSIVE Fixed(_)
Fixed(ty) == CASE ty.t \in {"u", "bool", "bv", "bitv"} -> TRUE
               [] ty.t \in {"bl", "list", "listd", "bitl"} -> FALSE
               [] ty.t = "vec" -> Fixed(ty.e)
               [] ty.t = "cont" -> \A k \in 1..Len(ty.fs) : Fixed(ty.fs[k][2])
RECURSIVE FixedLen(_), SumLens(_, _)
FixedLen(ty) == CASE ty.t = "u" -> ty.n
                  [] ty.t = "bool" -> 1
                  [] ty.t = "bv" -> ty.n
                  [] ty.t = "bitv" -> (ty.n + 7) \div 8
                  [] ty.t = "vec" -> ty.n * FixedLen(ty.e)
                  [] ty.t = "cont" -> SumLens(ty.fs, 1)
SumLens(fs, k) == IF k > Len(fs) THEN 0
                  ELSE (IF Fixed(fs[k][2]) THEN FixedLen(fs[k][2]) ELSE 4) + SumLens(fs, k + 1)

RECURSIVE Offsets(_, _, _)
\* offsets of the variable parts, the first at `at`
Offsets(parts, k, at) == IF k > Len(parts) THEN <<>> ELSE <<at>> \o Offsets(parts, k + 1, at + HLen(parts[k]))
RECURSIVE Ser(_, _)
SerHomog(e, v) ==
  LET parts == TLCEval([k \in 1..Len(v) |-> Ser(e, v[k])]) IN
  IF Fixed(e) THEN ConcatAll(parts)
  ELSE LET offs == Offsets(parts, 1, 4 * Len(v))
       IN ConcatAll(TLCEval([k \in 1..Len(v) |-> LE(offs[k], 4)])) \o ConcatAll(parts)
Ser(ty, v) ==
  CASE ty.t = "u" -> UHex(v, ty.n)
    [] ty.t = "bool" -> IF v THEN "01" ELSE "00"
    [] ty.t \in {"bv", "bl"} -> v
    [] ty.t = "bitv" -> PackBits(v)
    [] ty.t = "bitl" -> PackBits(Append(v, 1))
    [] ty.t \in {"list", "listd", "vec"} -> SerHomog(ty.e, v)
    [] ty.t = "cont" ->
         LET n == Len(ty.fs)
             parts == TLCEval([k \in 1..n |-> Ser(ty.fs[k][2], v[ty.fs[k][1]])])
             isf == TLCEval([k \in 1..n |-> Fixed(ty.fs[k][2])])
             offs == Offsets(TLCEval([k \in 1..n |-> IF isf[k] THEN "" ELSE parts[k]]), 1, SumLens(ty.fs, 1))
         IN ConcatAll(TLCEval([k \in 1..n |-> IF isf[k] THEN parts[k] ELSE LE(offs[k], 4)]))
            \o ConcatAll(TLCEval([k \in 1..n |-> IF isf[k] THEN "" ELSE parts[k]]))

RECURSIVE HTR(_, _)
Roots(e, v) == TLCEval([k \in 1..Len(v) |-> HTR(e, v[k])])
HTR(ty, v) ==
  CASE ty.t = "u" -> UHex(v, ty.n) \o Zeros(32 - ty.n)
    [] ty.t = "bool" -> (IF v THEN "01" ELSE "00") \o Zeros(31)
    [] ty.t = "bv" -> IF ty.n = 32 THEN v ELSE MerkleRoot(Chunks32(v), Log2Ceil((ty.n + 31) \div 32))
    [] ty.t = "bl" -> MixIn(MerkleRoot(Chunks32(v), TreeDepth(ty.n, 1)), HLen(v))
    [] ty.t = "bitv" -> MerkleRoot(Chunks32(PackBits(v)), Log2Ceil((ty.n + 255) \div 256))
    [] ty.t = "bitl" -> MixIn(MerkleRoot(Chunks32(PackBits(v)), Log2Ceil((ty.n + 255) \div 256)), Len(v))
    [] ty.t = "vec" -> IF Basic(ty.e)
                       THEN MerkleRoot(Chunks32(SerHomog(ty.e, v)), Log2Ceil((ty.n * ty.e.n + 31) \div 32))
                       ELSE MerkleRoot(Roots(ty.e, v), Log2Ceil(ty.n))
    [] ty.t = "list" -> MixIn(IF Basic(ty.e)
                              THEN MerkleRoot(Chunks32(SerHomog(ty.e, v)), TreeDepth(ty.n, ty.e.n))
                              ELSE MerkleRoot(Roots(ty.e, v), TreeDepth(ty.n, 32)), Len(v))
    [] ty.t = "listd" -> MixIn(MerkleRoot(Roots(ty.e, v), ty.d), Len(v))
    [] ty.t = "cont" -> MerkleRoot(TLCEval([k \in 1..Len(ty.fs) |-> HTR(ty.fs[k][2], v[ty.fs[k][1]])]),
                                   Log2Ceil(Len(ty.fs)))
\* a chunk list's leaves may be absent: MerkleRoot pads with zero leaves
=============================================================================
