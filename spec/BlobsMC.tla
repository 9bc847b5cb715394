------------------------------- MODULE BlobsMC ------------------------------
(* Design: packing is lossless for every short byte string, with small elements and blobs; and the      *)
(* concrete cases at the boundaries of the real sizes.                                                  *)
EXTENDS Blobs, FiniteSets, Json
CONSTANTS Depth, Alphabet, Lengths
VARIABLE d
Init == d = ""
Next == IF Lengths = {} THEN HLen(d) < Depth /\ \E b \in Alphabet : d' = d \o b ELSE FALSE
\* the packing that TLC runs in Java is the one defined
Faithful == /\ Repack(d, 8, 0, ElemBits, SkipBits) = RepackDef(d, 8, 0, ElemBits, SkipBits)
            /\ TrimZeros(d) = TrimZerosDef(d)
            /\ LET p == Pack(d) IN Repack(p, ElemBits, SkipBits, 8, 0) = RepackDef(p, ElemBits, SkipBits, 8, 0)
Canonical(b) == LET w == Whole(b) IN /\ b.n = BlobBytes
                                     /\ \A e \in 0..Elems - 1 : \A k \in 0..SkipBits - 1 : BitMsb(w, e * ElemBits + k) = 0
Lossless ==
  /\ Decode("sized", Encode("sized", d)) = Trimmed(d)
  /\ LET r == Decode("raw", Encode("raw", d)) IN r.h = TrimZeros(d) /\ r.n >= HLen(d)
FullCanonical == \A m \in {"raw", "sized"} : \A k \in DOMAIN Encode(m, d) : Canonical(Encode(m, d)[k])
Malformed ==
  /\ HLen(d) > 0 /\ Slice(d, 0, 1) # "00" => Decode("sized", Encode("raw", d)) = Err
  /\ Decode("sized", <<>>) = Err
  /\ \A n \in {0, 1, 255} : LET big == "00" \o BE(BlobBytes * 4 + n, 4) \o d IN Decode("sized", Encode("raw", big)) = Err
\* concrete cases
Fill(n, b) == Repeat(b, n)
Case(op, a) == [op |-> op, a |-> a, e |-> Answer(op, a)]
Out(op, a) == Emit(ToJson(Case(op, a)))
Sizes(n) == {"00" \o BE(s, 4) \o "abcdef" : s \in {BStr(0), BStr(1), BStr(3), BStr(4), BStr(n - 6), BStr(n - 5), BStr(n - 4), BStr(n), "4294967295", "2147483648"}}
CasesOut ==
  \A n \in Lengths :
    /\ \A b \in {"ff", "01"} : \A m \in {"raw", "sized"} :
         LET x == Fill(n, b) IN
         /\ Out("blob.encode", [mode |-> m, data |-> x])
         /\ Out("blob.round", [mode |-> m, back |-> m, data |-> x])
    /\ n <= 130 => \A m \in {"raw", "sized"} : \A k \in {"raw", "sized"} : \A b \in {"00", "80", "5a"} :
         Out("blob.round", [mode |-> m, back |-> k, data |-> Fill(n, b)])
    /\ n = 0 => /\ \A k \in {0, 1, 2} : LET z == [j \in 1..k |-> [n |-> BlobBytes, h |-> ""]] IN
                     /\ \A m \in {"raw", "sized"} : Out("blob.decode", [mode |-> m, blobs |-> z])
                     /\ Out("blob.bundle", [blobs |-> z])
                /\ \A h \in Sizes(BlobBytes) \cup {"01" \o BE(1, 4) \o "ab", "ff00000001ab", "0000", "00"} :
                     \A two \in BOOLEAN :
                       LET e == Encode("raw", h) IN
                       Out("blob.decode", [mode |-> "sized", blobs |-> IF two THEN e \o e ELSE e])
                /\ \A w \in {BlobBytes - 1, BlobBytes + 1, 0, 32} : \A m \in {"raw", "sized"} :
                     Out("blob.decode", [mode |-> m, blobs |-> <<[n |-> w, h |-> ""]>>])
                /\ \A m \in {"raw", "sized"} : Out("blob.decode", [mode |-> m, blobs |-> <<[n |-> BlobBytes, h |-> "ffffffff"]>>])
                /\ \A h \in {"", "ab", Fill(31, "07")} : Out("blob.bundle", [blobs |-> Encode("sized", h) \o Encode("raw", h)])
                /\ Out("blob.bundle", [blobs |-> <<[n |-> BlobBytes, h |-> Fill(32, "ff")]>>])
=============================================================================
