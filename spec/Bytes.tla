------------------------------- MODULE Bytes -------------------------------
(* Byte strings are lower-case hex strings. The definitions here say what each operator means; TLC      *)
(* evaluates most of them with the Java methods of the same name (java/tlc2/overrides/Bytes.java),      *)
(* because TLC's integers have 32 bits and SHA-256 has no useful TLA+ definition.                       *)
EXTENDS Integers, Sequences, TLC

HexDigits == <<"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f">>
HexByte(n) == HexDigits[(n \div 16) + 1] \o HexDigits[(n % 16) + 1]
HexVal(c) == (CHOOSE k \in 1..16 : HexDigits[k] = c) - 1

HLen(h) == Len(h) \div 2                                     \* number of bytes
Slice(h, from, n) == SubSeq(h, 2 * from + 1, 2 * (from + n)) \* n bytes from offset `from`
ByteAt(h, k) == HexVal(SubSeq(h, 2*k+1, 2*k+1)) * 16 + HexVal(SubSeq(h, 2*k+2, 2*k+2))
BitAt(h, k) == (ByteAt(h, k \div 8) \div (2 ^ (k % 8))) % 2
RECURSIVE LE(_, _)
LE(n, len) == IF len = 0 THEN "" ELSE HexByte(n % 256) \o LE(n \div 256, len - 1)  \* little-endian
RECURSIVE FromLE(_)
FromLE(h) == IF HLen(h) = 0 THEN 0 ELSE ByteAt(h, 0) + 256 * FromLE(Slice(h, 1, HLen(h) - 1))
ModLE(h, m) == FromLE(h) % m
XorByte(a, b) == LET bit(x, k) == (x \div (2^k)) % 2
                     s[k \in 0..8] == IF k = 8 THEN 0
                                      ELSE (IF bit(a, k) # bit(b, k) THEN 2^k ELSE 0) + s[k + 1]
                 IN s[0]
RECURSIVE XorHex(_, _)
XorHex(a, b) == IF HLen(a) = 0 THEN ""
                ELSE HexByte(XorByte(ByteAt(a, 0), ByteAt(b, 0)))
                     \o XorHex(Slice(a, 1, HLen(a) - 1), Slice(b, 1, HLen(b) - 1))
RECURSIVE Repeat(_, _)
Repeat(h, n) == IF n = 0 THEN "" ELSE h \o Repeat(h, n - 1)
RECURSIVE ConcatAll(_)
ConcatAll(v) == IF v = <<>> THEN "" ELSE Head(v) \o ConcatAll(Tail(v))
(* bits (0/1), least significant first within each byte *)
PackBits(v) == LET nb == (Len(v) + 7) \div 8
                   bit(k) == IF k <= Len(v) THEN v[k] ELSE 0
                   byte(j) == bit(8*j+1) + 2*bit(8*j+2) + 4*bit(8*j+3) + 8*bit(8*j+4)
                              + 16*bit(8*j+5) + 32*bit(8*j+6) + 64*bit(8*j+7) + 128*bit(8*j+8)
               IN ConcatAll([j \in 1..nb |-> HexByte(byte(j - 1))])
Zeros(n) == Repeat("00", n)
AsciiHex(s) == CHOOSE h : TRUE       \* abstract: UTF-8 bytes of a text (evaluated by TLC's override)
Lower(s) == CHOOSE h : TRUE          \* abstract: lower-case text

Sha256(h) == CHOOSE d : TRUE         \* abstract: collision-free digest (evaluated by the real SHA-256)

ZeroHash[d \in 0..64] == IF d = 0 THEN Zeros(32) ELSE LET z == ZeroHash[d - 1] IN Sha256(z \o z)
(* root of the binary tree with 2^depth leaves: the given 32-byte leaves, then zero leaves *)
RECURSIVE MerkleRoot(_, _)
MerkleRoot(leaves, depth) ==
  IF leaves = <<>> THEN ZeroHash[depth]
  ELSE IF depth = 0 THEN leaves[1]
  ELSE LET half == 2 ^ (depth - 1)
           l == IF Len(leaves) <= half THEN leaves ELSE SubSeq(leaves, 1, half)
           r == IF Len(leaves) <= half THEN <<>> ELSE SubSeq(leaves, half + 1, Len(leaves))
       IN Sha256(MerkleRoot(l, depth - 1) \o MerkleRoot(r, depth - 1))

(* Unbounded integers written as decimal strings (or small integers); ToInt is the value denoted. *)
ToInt(a) == CHOOSE n \in Int : TRUE
ToDec(n) == CHOOSE s : TRUE
BAdd(a, b) == ToDec(ToInt(a) + ToInt(b))
BSub(a, b) == ToDec(ToInt(a) - ToInt(b))
BMul(a, b) == ToDec(ToInt(a) * ToInt(b))
BDiv(a, b) == ToDec(ToInt(a) \div ToInt(b))
BMod(a, b) == ToDec(ToInt(a) % ToInt(b))
BCmp(a, b) == IF ToInt(a) < ToInt(b) THEN -1 ELSE IF ToInt(a) = ToInt(b) THEN 0 ELSE 1
BLt(a, b) == BCmp(a, b) < 0
BLeq(a, b) == BCmp(a, b) <= 0
BInt(a) == ToInt(a)      \* must fit TLC's integers
BStr(a) == ToDec(ToInt(a))
BLE(a, len) == LE(ToInt(a), len)
BFromLE(h) == ToDec(FromLE(h))

(* depth of the tree over n elements of w bytes each, packed into 32-byte chunks (n may be a decimal string) *)
TreeDepth(n, w) == LET c == (ToInt(n) * w + 31) \div 32 IN CHOOSE d \in 0..64 : 2^d >= c /\ (d = 0 \/ 2^(d - 1) < c)
UnpackBits(h, n) == [k \in 1..n |-> BitAt(h, k - 1)]
(* a long sequence written as its length, its usual element and the places that differ *)
Dense(j) == [k \in 1..j.len |-> IF \E m \in 1..Len(j.at) : j.at[m][1] = k - 1
                                 THEN j.at[CHOOSE m \in 1..Len(j.at) : j.at[m][1] = k - 1][2] ELSE j.fill]

MulDiv(a, b, c) == (a * b) \div c

(* The ideal signature scheme. A public key is the encoding of its secret scalar, a signature of m is  *)
(* the encoding of scalar * H(m); sums of keys and signatures are sums of scalars modulo the order.    *)
IdealPk(sk) == CHOOSE p : TRUE
IdealSign(sk, m) == CHOOSE s : TRUE
IdealPkDecodes(pk) == CHOOSE b \in BOOLEAN : TRUE    \* well-formed encoding
IdealPkValid(pk) == CHOOSE b \in BOOLEAN : TRUE      \* well-formed and not the identity
IdealSigDecodes(s) == CHOOSE b \in BOOLEAN : TRUE
IdealSum(ps, n) == CHOOSE p : TRUE                   \* sum of n-byte points
IdealCheck(pks, ms, s) == CHOOSE b \in BOOLEAN : TRUE \* s = sum over k of scalar(pks[k]) * H(ms[k])

PkInfinity == "c0" \o Zeros(47)
SigInfinity == "c0" \o Zeros(95)

Merge(a, b) == b @@ a     \* the record a with the fields of b
Guard(e, d) == e           \* TLC: d when evaluating e fails (a value outside a function's domain)
Same(a, b) == a = b      \* TLC: also values of different kinds may be compared (they differ)
Assuming(id, e) == e       \* TLC: e with the deviation id taken as the rule
Deviates(id, where) == FALSE \* TLC: TRUE inside Assuming(id, _)
Emit(line) == TRUE       \* TLC: appends the line to the file named by TLC_OUT
=============================================================================
