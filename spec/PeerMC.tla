------------------------------- MODULE PeerMC -------------------------------
(* Headers around every limit with digests of every length, and all short texts over a few characters. Emits the calls   *)
(* with their results; checks that text and bytes are one to one and that exactly the two kinds of digest name peers.    *)
EXTENDS Peer, FiniteSets, Json
CONSTANTS Part, Chars, MaxText
VARIABLE x
Codes == {"0", "1", "17", "18", "19", "22", "27", "128", "146", "45600", "18446744073709551615"}
Heads == {"00", "01", "11", "12", "13", "92", "80", "1200", "9200", "8000", "a0e402"}
Lens == {0, 1, 2, 31, 32, 33, 41, 42, 43, 63, 64, 65, 127, 128, 255}
Fill == {"00", "ff"}
Sizes(n) == {BLE(k, 1) : k \in {n - 1, n, n + 1} \cap 0..127} \cup {HexByte(128 + (n % 128)) \o HexByte(n \div 128)}
RECURSIVE Joined(_)
Joined(s) == IF s = <<>> THEN "" ELSE Head(s) \o Joined(Tail(s))
States ==
  CASE Part = "bytes" -> {h \o s \o Repeat(f, n) : h \in Heads, s \in UNION {Sizes(m) : m \in Lens}, f \in Fill, n \in Lens}
    [] Part = "text" -> {Joined(s) : s \in UNION {[1..k -> Chars] : k \in 0..MaxText}}
    [] Part = "multi" -> [code : Codes, n : {k \in Lens : k <= 64}, f : Fill]
Init == x \in States
Next == UNCHANGED x
Out(op, a) == Emit(ToJson([op |-> op, a |-> a, e |-> PeerExp(op, a)]))
CasesOut ==
  CASE Part = "bytes" -> Out("peer.bytes", [h |-> x]) /\ Out("peer.bin", [h |-> x])
    [] Part = "text" -> Out("peer.text", [text |-> x]) /\ Out("peer.json", [text |-> x])
    [] Part = "multi" -> Out("peer.multi", [code |-> x.code, digest |-> Repeat(x.f, x.n)])
OneToOne ==
  CASE Part = "bytes" -> (HLen(x) <= 70 => Bytes58(Text58(x)) = x)
    [] Part = "text" -> (InAlphabet(x) => Text58(Bytes58(x)) = x)
    [] OTHER -> TRUE
Only == Part = "bytes" /\ Names(x) => /\ ByteAt(x, 0) \in {0, 18}
                                      /\ HLen(x) <= IF ByteAt(x, 0) = 0 THEN 44 ELSE 66
                                      /\ Peer(x).bytes = x /\ Same(PeerText(Text58(x)), Peer(x))
=============================================================================
