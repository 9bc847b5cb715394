-------------------------------- MODULE Text --------------------------------
(* The API's text encodings. A JSON value is [k |-> "str", s |-> text], [k |-> "list", s |-> texts] or   *)
(* [k |-> "raw", s |-> source] for anything else; a decoded value is its hex, its decimal or a sequence. *)
EXTENDS Bytes
Err == "err"
HexText(h) == "0x" \o h
Char(t, k) == SubSeq(t, k, k)
LowerHex == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f"}
UpperHex == {"A", "B", "C", "D", "E", "F"}
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Strip(t) == IF Len(t) >= 2 /\ SubSeq(t, 1, 2) = "0x" THEN SubSeq(t, 3, Len(t)) ELSE t
\* the bytes a text denotes: an optional prefix, then two hex digits of either case per byte
FromHexText(t) == LET d == Strip(t) IN
  IF Len(d) % 2 = 0 /\ \A k \in 1..Len(d) : Char(d, k) \in LowerHex \cup UpperHex THEN Lower(d) ELSE Err
Sized(n, h) == IF h # Err /\ HLen(h) = n THEN h ELSE Err
Bounded(n, h) == IF h # Err /\ HLen(h) <= n THEN h ELSE Err
FixedSize == [version |-> 4, bytes1 |-> 1, address |-> 20, bytes32 |-> 32, pk |-> 48, sig |-> 96, commitment |-> 48, proof |-> 48]
BoundSize == [list2 |-> 2, list40 |-> 40]
P2(n) == LET RECURSIVE f(_) f(i) == IF i = 0 THEN "1" ELSE BMul(2, f(i - 1)) IN f(n)
IntMax == [u8 |-> "255", u64 |-> BSub(P2(64), 1), usize |-> BSub(P2(64), 1), u256 |-> BSub(P2(256), 1)]
Decimal(t) == Len(t) > 0 /\ \A k \in 1..Len(t) : Char(t, k) \in Digits
\* an optional plus sign and decimal digits, within the type's range
FromDecText(max, t) == LET d == IF Len(t) > 0 /\ Char(t, 1) = "+" THEN SubSeq(t, 2, Len(t)) ELSE t IN
  IF Decimal(d) /\ BLeq(d, max) THEN BStr(d) ELSE Err
SeqElem == [seq8 |-> "u8", seq64 |-> "u64", seqlist3 |-> "u64"]
Decode(ty, k, s) ==
  CASE ty \in DOMAIN SeqElem ->
         IF k # "list" THEN Err
         ELSE LET m == IntMax[SeqElem[ty]]
                  vs == TLCEval([i \in 1..Len(s) |-> FromDecText(m, s[i])])
              IN IF (\E i \in 1..Len(s) : vs[i] = Err) \/ (ty = "seqlist3" /\ Len(s) > 3) THEN Err ELSE vs
    [] k # "str" -> Err
    [] ty = "hex" -> FromHexText(s)
    [] ty \in DOMAIN FixedSize -> Sized(FixedSize[ty], FromHexText(s))
    [] ty \in DOMAIN BoundSize -> Bounded(BoundSize[ty], FromHexText(s))
    [] ty \in DOMAIN IntMax -> FromDecText(IntMax[ty], s)
Encode(ty, v) == IF ty \in DOMAIN SeqElem \/ ty \in DOMAIN IntMax THEN v ELSE HexText(v)
\* long byte strings are abbreviated when displayed
Short(h) == IF HLen(h) >= 4 THEN "0x" \o Slice(h, 0, 2) \o "…" \o Slice(h, HLen(h) - 2, 2) ELSE HexText(h)
FourWays(x) == <<x, x, x, x>>     \* from text, a reader, a tree and escaped text alike
Answer(op, a) ==
  CASE op = "text.enc" -> Encode(a.ty, a.v)
    [] op = "text.dec" -> FourWays(Decode(a.ty, a.k, a.s))
    [] op = "text.bytes" -> FromHexText(a.s)
    [] op = "text.coordinate" -> (LET s == FromDecText(IntMax.u64, a.slot) IN IF s = Err THEN Err ELSE [slot |-> s, root |-> HexText(a.root)])
    [] op = "text.show" -> [full |-> HexText(a.v), debug |-> HexText(a.v), short |-> Short(a.v), display |-> Short(a.v)]
=============================================================================
