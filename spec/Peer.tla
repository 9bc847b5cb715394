-------------------------------- MODULE Peer --------------------------------
(* Peer identities: a multihash (code, length, digest) of a peer's public key. Its bytes are the two header bytes and    *)
(* the digest; its text is base 58 of them. A digest of SHA-256 (code 0x12) has up to 64 bytes, a key itself (code 0) up *)
(* to 42; nothing else names a peer.                                                                                     *)
EXTENDS Bytes
B58 == "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"
Digit58(k) == SubSeq(B58, k + 1, k + 1)
Value58(ch) == IF \E k \in 0..57 : Digit58(k) = ch THEN CHOOSE k \in 0..57 : Digit58(k) = ch ELSE -1
Max(S) == CHOOSE n \in S : \A m \in S : n >= m
(* leading zero bytes become leading ones; the rest is the number in base 58, no digit more than it needs *)
LeadZeros(h) == Max({k \in 0..HLen(h) : \A j \in 0..(k - 1) : ByteAt(h, j) = 0})
RECURSIVE Flip(_)
Flip(h) == IF HLen(h) = 0 THEN "" ELSE Flip(Slice(h, 1, HLen(h) - 1)) \o Slice(h, 0, 1)
Number(h) == BFromLE(Flip(h))
RECURSIVE Digits58(_)
Digits58(n) == IF BCmp(n, 0) = 0 THEN "" ELSE Digits58(BDiv(n, 58)) \o Digit58(BInt(BMod(n, 58)))
RECURSIVE Ones(_)
Ones(n) == IF n = 0 THEN "" ELSE "1" \o Ones(n - 1)
Text58(h) == Ones(LeadZeros(h)) \o Digits58(Number(h))

RECURSIVE NumberOf(_, _)
NumberOf(t, acc) == IF Len(t) = 0 THEN acc ELSE NumberOf(SubSeq(t, 2, Len(t)), BAdd(BMul(acc, 58), Value58(SubSeq(t, 1, 1))))
RECURSIVE MinBytes(_)
MinBytes(n) == IF BCmp(n, 0) = 0 THEN 0 ELSE 1 + MinBytes(BDiv(n, 256))
InAlphabet(t) == \A k \in 1..Len(t) : Value58(SubSeq(t, k, k)) >= 0
Bytes58(t) == LET ones == Max({k \in 0..Len(t) : \A j \in 1..k : SubSeq(t, j, j) = "1"})
                  n == NumberOf(t, "0")
              IN Zeros(ones) \o Flip(BLE(n, MinBytes(n)))

(* ---- which bytes name a peer *)
Limit(code) == IF code = 18 THEN 64 ELSE IF code = 0 THEN 42 ELSE -1
Names(h) == HLen(h) >= 2 /\ ByteAt(h, 1) = HLen(h) - 2 /\ ByteAt(h, 1) <= Limit(ByteAt(h, 0))
(* the views of a peer: bytes, text, JSON and a binary encoding that prefixes the length *)
Views(h) == [bytes |-> h, text |-> Text58(h), shown |-> Text58(h), json |-> Text58(h), bin |-> BLE(HLen(h), 8) \o h]
Peer(h) == IF Names(h) THEN Views(h) ELSE "err"
PeerText(t) == IF InAlphabet(t) THEN Peer(Bytes58(t)) ELSE "err"
\* a multihash in parts: code (a number), digest; what does not name a peer is handed back as it was
PeerMulti(code, d) ==
  LET small == BCmp(code, 128) < 0
      h == BLE(code, 1) \o BLE(HLen(d), 1) \o d
  IN IF small /\ Names(h) THEN Views(h) ELSE [code |-> BStr(code), digest |-> d]
PeerExp(op, a) ==
  CASE op = "peer.bytes" -> Peer(a.h)
    [] op = "peer.text" -> PeerText(a.text)
    [] op = "peer.json" -> PeerText(a.text)
    [] op = "peer.bin" -> Peer(a.h)
    [] op = "peer.multi" -> PeerMulti(a.code, a.digest)
    [] op = "peer.same" -> [eq |-> a.x = a.y, hash |-> a.x = a.y, order |-> a.x = a.y]
=============================================================================
