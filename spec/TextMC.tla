------------------------------- MODULE TextMC -------------------------------
(* Design: every short text over a small alphabet; decoding inverts encoding and accepts nothing else.  *)
EXTENDS Text, FiniteSets, Json
CONSTANTS Depth, Part
VARIABLE t               \* the text built so far
Alphabet == IF Part = "hex" THEN {"0", "9", "a", "f", "F", "g", "x", " "} ELSE {"0", "1", "2", "5", "9", "+", "-", " ", "x"}
Types == IF Part = "hex" THEN {"hex", "bytes1", "list2"} ELSE {"u8", "u64"}
Init == t = ""
Next == Len(t) < Depth /\ \E c \in Alphabet : t' = t \o c
Case(op, a) == [op |-> op, a |-> a, e |-> Answer(op, a)]
CasesOut ==
  /\ \A ty \in Types : Emit(ToJson(Case("text.dec", [ty |-> ty, k |-> "str", s |-> t])))
  /\ Part = "hex" => Emit(ToJson(Case("text.bytes", [s |-> t])))
  /\ Part = "int" => /\ Emit(ToJson(Case("text.dec", [ty |-> "seq8", k |-> "list", s |-> <<t>>])))
                     /\ Len(t) <= 2 => \A u \in {"7", "", "256"} :
                          Emit(ToJson(Case("text.dec", [ty |-> "seq8", k |-> "list", s |-> <<u, t>>])))
  /\ t = "" => \A ty \in DOMAIN FixedSize \cup DOMAIN BoundSize \cup {"hex", "u8", "u64", "usize", "u256"} :
                 /\ \A r \in {"5", "null", "true", "[]", "{}", "[1]", "-1", "1.5"} : Emit(ToJson(Case("text.dec", [ty |-> ty, k |-> "raw", s |-> r])))
                 /\ ty \notin DOMAIN IntMax => \A n \in 0..(IF ty \in DOMAIN FixedSize THEN FixedSize[ty] + 1 ELSE 42) :
                      Emit(ToJson(Case("text.dec", [ty |-> ty, k |-> "str", s |-> HexText(Repeat("5A", n))])))
  /\ t = "" => \A ty \in DOMAIN SeqElem : \A r \in {"5", "null", "{}", "\"1\"", "[1]", "[null]", "[[]]", "[\"1\",2]"} :
                 Emit(ToJson(Case("text.dec", [ty |-> ty, k |-> "raw", s |-> r])))
  /\ t = "" => \A n \in 0..5 : LET s == [i \in 1..n |-> ToString(i)] IN
                 /\ Emit(ToJson(Case("text.dec", [ty |-> "seqlist3", k |-> "list", s |-> s])))
                 /\ n <= 3 => Emit(ToJson(Case("text.enc", [ty |-> "seqlist3", v |-> s])))
  /\ t = "" => \A n \in 0..7 : Emit(ToJson(Case("text.show", [v |-> Repeat("0e", n)])))
\* decoding yields a value only for texts that encode it (up to prefix and letter case)
HexExact == Part = "hex" => LET h == FromHexText(t) IN
  h # Err => HexText(h) = "0x" \o Lower(Strip(t)) /\ FromHexText(HexText(h)) = h
IntExact == Part = "int" => LET v == FromDecText("255", t) IN
  v # Err => /\ BLeq(0, v) /\ BLeq(v, 255)
             /\ FromDecText("255", v) = v
             /\ BInt(v) = BInt(IF Char(t, 1) = "+" THEN SubSeq(t, 2, Len(t)) ELSE t)
\* every byte value is denoted
Onto == t = "" => \A n \in 0..255 : FromDecText("255", ToString(n)) = ToString(n) /\ FromHexText(HexText(HexByte(n))) = HexByte(n)
=============================================================================
