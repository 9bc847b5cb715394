----------------------------- MODULE OverrideMC -----------------------------
(* The operators of Bytes that TLC evaluates with Java agree with their definitions (BytesDef is Bytes under another name, made by      *)
(* tools/selfcheck.py, so that nothing is overridden there; only its SHA-256 is the Java one, held to published digests here), and the    *)
(* ideal signature scheme has the laws the specification takes for granted.                                                              *)
EXTENDS Bytes
VARIABLE x
D == INSTANCE BytesDef
ByteS == {"00", "01", "0a", "7f", "80", "c3", "ff"}
Hexes == {""} \cup ByteS \cup {a \o b : a, b \in ByteS} \cup {a \o b \o "5e" : a, b \in ByteS}
Nums == {0, 1, 2, 9, 10, 127, 128, 255, 256, 257, 65535, 65536, 123456, 8388607}
Decs == {"0", "1", "2", "7", "9", "10", "11", "99", "100", "255", "256", "4095", "9999", "30000"}
BitSeqs == UNION {[1..n -> {0, 1}] : n \in 0..9}
Init == x \in [what : {"hex"}, h : Hexes] \cup [what : {"num"}, n : Nums] \cup [what : {"dec"}, a : Decs] \cup [what : {"bits"}, b : BitSeqs] \cup [what : {"tree"}, n : 0..9, d : 0..4]
        \cup [what : {"dense"}, n : 0..4, k : 0..4] \cup [what : {"law"}, i : 1..4, j : 1..4]
Next == UNCHANGED x
Hex ==
  LET h == x.h IN
  /\ HLen(h) = D!HLen(h) /\ (HLen(h) > 0 => FromLE(h) = D!FromLE(h) /\ BFromLE(h) = D!BFromLE(h))
  /\ \A m \in {1, 2, 3, 10, 97} : ModLE(h, m) = D!ModLE(h, m)
  /\ \A i \in 0..HLen(h) : \A n \in 0..(HLen(h) - i) : Slice(h, i, n) = D!Slice(h, i, n)
  /\ \A i \in 0..(HLen(h) - 1) : ByteAt(h, i) = D!ByteAt(h, i)
  /\ \A i \in 0..(8 * HLen(h) - 1) : BitAt(h, i) = D!BitAt(h, i)
  /\ \A g \in Hexes : HLen(g) = HLen(h) => XorHex(h, g) = D!XorHex(h, g)
  /\ \A n \in 0..3 : Repeat(h, n) = D!Repeat(h, n)
  /\ \A a, b \in ByteS : ConcatAll(<<h, a, b>>) = D!ConcatAll(<<h, a, b>>)
  /\ \A n \in 0..(8 * HLen(h)) : UnpackBits(h, n) = D!UnpackBits(h, n)
  /\ Lower(h) = h
Num ==
  LET n == x.n IN
  /\ \A l \in 0..5 : LE(n, l) = D!LE(n, l)
  /\ \A b \in {0, 1, 3, 200} : \A c \in {1, 2, 7, 1000} : MulDiv(n, b, c) = D!MulDiv(n, b, c)
  /\ \A w \in {1, 8, 32, 48} : n < 40000 => TreeDepth(n, w) = CHOOSE d \in 0..40 : 2^d >= ((n * w + 31) \div 32) /\ (d = 0 \/ 2^(d - 1) < ((n * w + 31) \div 32))
Dec ==
  LET a == x.a IN
  /\ BInt(a) = D!BInt(a) /\ BStr(D!ToInt(a)) = a
  /\ \A b \in Decs :
       /\ BAdd(a, b) = D!BAdd(a, b) /\ BMul(a, b) = D!BMul(a, b) /\ BCmp(a, b) = D!BCmp(a, b) /\ (BLeq(b, a) => BSub(a, b) = D!BSub(a, b))
       /\ (b # "0" => BDiv(a, b) = D!BDiv(a, b) /\ BMod(a, b) = D!BMod(a, b))
  /\ \A l \in 0..5 : BLE(a, l) = D!BLE(a, l)
  \* beyond TLC's integers, by the laws of division and addition
  /\ \A b \in Decs \ {"0"} : LET big == BAdd(BMul(BMul(a, "18446744073709551615"), "18446744073709551557"), b) IN
       /\ BAdd(BMul(BDiv(big, b), b), BMod(big, b)) = big /\ BSub(BAdd(big, a), a) = big /\ BFromLE(BLE(big, 32)) = big
Bits == PackBits(x.b) = D!PackBits(x.b) /\ UnpackBits(PackBits(x.b), Len(x.b)) = x.b
Leaf(k) == Repeat(HexByte(17 * (k + 1)), 32)
Tree == x.n <= 2^x.d => LET ls == [k \in 1..x.n |-> Leaf(k)] IN MerkleRoot(ls, x.d) = D!MerkleRoot(ls, x.d)
DenseS == LET j == [len |-> 5, fill |-> "f", at |-> <<<<x.n, "a">>, <<x.k, "a">>>>] IN Dense(j) = D!Dense(j)
Sec(k) == Zeros(31) \o HexByte(k)
Law ==
  LET i == x.i  j == x.j  m == Leaf(1)  o == Leaf(2)  s == IdealSign(Sec(i), m) IN
  /\ IdealPkDecodes(IdealPk(Sec(i))) /\ IdealPkValid(IdealPk(Sec(i))) /\ IdealSigDecodes(s)
  /\ IdealPkDecodes(PkInfinity) /\ ~IdealPkValid(PkInfinity) /\ IdealSigDecodes(SigInfinity)
  /\ IdealCheck(<<IdealPk(Sec(j))>>, <<m>>, s) = (i = j) /\ ~IdealCheck(<<IdealPk(Sec(i))>>, <<o>>, s)
  /\ IdealSum(<<IdealPk(Sec(i)), IdealPk(Sec(j))>>, 48) = IdealPk(Sec(i + j))
  /\ IdealSum(<<s, IdealSign(Sec(j), m)>>, 96) = IdealSign(Sec(i + j), m)
  /\ IdealCheck(<<IdealPk(Sec(i)), IdealPk(Sec(j))>>, <<m, o>>, IdealSum(<<s, IdealSign(Sec(j), o)>>, 96))
  /\ ~IdealCheck(<<IdealPk(Sec(i)), IdealPk(Sec(j))>>, <<o, m>>, IdealSum(<<s, IdealSign(Sec(j), o)>>, 96)) \/ i = j
Agree == CASE x.what = "hex" -> Hex [] x.what = "num" -> Num [] x.what = "dec" -> Dec [] x.what = "bits" -> Bits [] x.what = "tree" -> Tree [] x.what = "dense" -> DenseS [] x.what = "law" -> Law
Published ==
  /\ Sha256("") = "e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855"
  /\ Sha256("616263") = "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad"
  /\ Sha256(Zeros(64)) = "f5a5fd42d16a20302798ef6ed309979b43003d2320d9f0e8ea9831a92759fb4b"
=============================================================================
