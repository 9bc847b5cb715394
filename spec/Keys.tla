------------------------------- MODULE Keys --------------------------------
(* Validator keys: BIP-39 mnemonics and seeds, EIP-2333 key derivation along the EIP-2334 paths, and    *)
(* EIP-2335 keystores. Secrets are 32 big-endian bytes; texts are hex of UTF-8.                         *)
EXTENDS Prims

Order == "52435875175126190479447740508185965837690552500527637822603658699938581184513"  \* of the BLS12-381 group

--------------------------------------------------------------------------------
(* BIP-39 *)
Pow2[k \in 0..11] == IF k = 0 THEN 1 ELSE 2 * Pow2[k - 1]
WordBits(k) == [j \in 1..11 |-> (k \div Pow2[11 - j]) % 2]
RECURSIVE Flat(_)
Flat(v) == IF v = <<>> THEN <<>> ELSE Head(v) \o Flat(Tail(v))
WordCounts == {12, 15, 18, 21, 24}
Bad == "err"
\* the entropy of a phrase, or Bad
Entropy(phrase) ==
  LET ws == SplitWhite(Nfkd(phrase))
      ix == TLCEval([k \in 1..Len(ws) |-> WordIndex(ws[k])])
      bits == TLCEval(Flat([k \in 1..Len(ws) |-> WordBits(ix[k])]))
      cs == Len(ws) \div 3                            \* one checksum bit for 32 bits of entropy
      ent == TLCEval(BytesOfBits(SubSeq(bits, 1, 32 * cs)))
      want == Sha256(ent)
  IN IF Len(ws) \notin WordCounts THEN Bad
     ELSE IF \E k \in 1..Len(ws) : ix[k] < 0 THEN Bad
     ELSE IF \E k \in 1..cs : bits[32 * cs + k] # BitMsb(want, k - 1) THEN Bad
     ELSE ent
RECURSIVE Join(_)
Join(ws) == IF Len(ws) = 1 THEN ws[1] ELSE ws[1] \o "20" \o Join(Tail(ws))
\* the phrase of an entropy of 16, 20, 24, 28 or 32 bytes
Phrase(ent) ==
  LET cs == HLen(ent) \div 4
      bits == TLCEval([k \in 1..8 * HLen(ent) + cs |-> IF k <= 8 * HLen(ent) THEN BitMsb(ent, k - 1)
                                                       ELSE BitMsb(Sha256(ent), k - 1 - 8 * HLen(ent))])
      idx(w) == LET v[j \in 0..11] == IF j = 0 THEN 0 ELSE 2 * v[j - 1] + bits[11 * (w - 1) + j] IN v[11]
  IN Join([w \in 1..3 * cs |-> WordAt(idx(w))])
Canonical(phrase) == Join(SplitWhite(Nfkd(phrase)))
Parse(phrase) == IF Entropy(phrase) = Bad THEN Bad ELSE Canonical(phrase)
Seed(phrase, pass) == Pbkdf2Sha512(Canonical(phrase), AsciiHex("mnemonic") \o Nfkd(pass), 2048, 64)

--------------------------------------------------------------------------------
(* EIP-2333 *)
Extract(salt, ikm) == HmacSha256(salt, ikm)
RECURSIVE ExpandFrom(_, _, _, _, _)
ExpandFrom(prk, info, n, k, prev) ==
  IF n <= 0 THEN "" ELSE LET t == TLCEval(HmacSha256(prk, prev \o info \o HexByte(k)))
                         IN Slice(t, 0, IF n < 32 THEN n ELSE 32) \o ExpandFrom(prk, info, n - 32, k + 1, t)
Expand(prk, info, n) == ExpandFrom(prk, info, n, 1, "")
RECURSIVE ModR(_, _)
ModR(ikm, salt) == LET okm == TLCEval(Expand(Extract(salt, ikm \o "00"), "0030", 48))
                       sk == BMod(FromBE(okm), Order)
                   IN IF sk = "0" THEN ModR(ikm, Sha256(salt)) ELSE BE(sk, 32)
HkdfModR(ikm) == ModR(ikm, Sha256(AsciiHex("BLS-SIG-KEYGEN-SALT-")))
MasterKey(seed) == HkdfModR(seed)
Pieces(h, n) == [k \in 1..(HLen(h) \div n) |-> Slice(h, n * (k - 1), n)]
Lamport(ikm, salt) == LET okm == TLCEval(Expand(Extract(salt, ikm), "", 32 * 255))
                          c == Pieces(okm, 32)
                      IN ConcatAll([k \in 1..255 |-> Sha256(c[k])])
ChildKey(sk, index) == LET salt == BE(index, 4)
                       IN HkdfModR(Sha256(Lamport(sk, salt) \o Lamport(XorHex(sk, Repeat("ff", 32)), salt)))
RECURSIVE Derive(_, _)
Derive(sk, path) == IF path = <<>> THEN sk ELSE Derive(TLCEval(ChildKey(sk, Head(path))), Tail(path))

(* EIP-2334 *)
WithdrawalPath(i) == <<12381, 3600, i, 0>>
SigningPath(i) == WithdrawalPath(i) \o <<0>>
RECURSIVE PathText(_)
PathText(p) == IF p = <<>> THEN "" ELSE "/" \o BStr(p[1]) \o PathText(Tail(p))
KeyPair(sk, path) == [sk |-> sk, pk |-> IdealPk(sk), path |-> "m" \o PathText(path)]
\* the pair <<signing, withdrawal>> of one account index (a small integer, or decimal text)
Account(master, i) ==
  LET w == TLCEval(Derive(master, WithdrawalPath(i)))
      s == TLCEval(ChildKey(w, 0))
  IN <<KeyPair(s, SigningPath(i)), KeyPair(w, WithdrawalPath(i))>>

--------------------------------------------------------------------------------
(* EIP-2335 *)
PasswordBytes(pass) == StripControls(Nfkd(pass))
Two128 == "340282366920938463463374607431768211456"
\* AES-128 in counter mode: block k is encrypted under the initial vector plus k
RECURSIVE Ctr(_, _, _)
Ctr(key, iv, data) ==
  IF HLen(data) = 0 THEN ""
  ELSE LET n == IF HLen(data) < 16 THEN HLen(data) ELSE 16
       IN XorHex(Slice(Aes128(key, iv), 0, n), Slice(data, 0, n))
          \o Ctr(key, BE(BMod(BAdd(FromBE(iv), 1), Two128), 16), Slice(data, n, HLen(data) - n))
DecryptionKey(pass, kdf) == Scrypt(PasswordBytes(pass), kdf.salt, kdf.n, kdf.r, kdf.p, kdf.dklen)
ChecksumOf(dk, cipher) == Sha256(Slice(dk, 16, 16) \o cipher)
\* the crypto part of a keystore
Sealed(pass, kdf, iv, secret) ==
  LET dk == TLCEval(DecryptionKey(pass, kdf))
      c == Ctr(Slice(dk, 0, 16), iv, secret)
  IN [kdf |-> [function |-> "scrypt", params |-> kdf, message |-> ""],
      checksum |-> [function |-> "sha256", params |-> "empty", message |-> ChecksumOf(dk, c)],
      cipher |-> [function |-> "aes-128-ctr", params |-> [iv |-> iv], message |-> c]]
\* the secret a password opens a keystore to, or Bad
Unseal(pass, crypto) ==
  LET dk == TLCEval(DecryptionKey(pass, crypto.kdf.params))
  IN IF ChecksumOf(dk, crypto.cipher.message) # crypto.checksum.message THEN Bad
     ELSE Ctr(Slice(dk, 0, 16), crypto.cipher.params.iv, crypto.cipher.message)
HexChars == {"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f"}
At(s, k) == SubSeq(s, k, k)
IsHex(s) == Len(s) % 2 = 0 /\ \A k \in 1..Len(s) : At(s, k) \in HexChars
IsUuid(s) == /\ Len(s) = 36
             /\ \A k \in 1..36 : IF k \in {9, 14, 19, 24} THEN At(s, k) = "-" ELSE At(s, k) \in HexChars
             /\ At(s, 15) = "4" /\ At(s, 20) \in {"8", "9", "a", "b"}
Unprefixed(s) == IF Len(s) >= 2 /\ SubSeq(s, 1, 2) = "0x" THEN SubSeq(s, 3, Len(s)) ELSE s
\* ks is a well-formed keystore for the key pair, opened by the password
KeystoreFor(ks, pass, pair) ==
  /\ DOMAIN ks = {"crypto", "pubkey", "path", "uuid", "version"}
  /\ ks.version = 4 /\ ks.path = pair.path /\ IsUuid(ks.uuid)
  /\ Unprefixed(ks.pubkey) = pair.pk
  /\ DOMAIN ks.crypto = {"kdf", "checksum", "cipher"}
  /\ ks.crypto.kdf.function = "scrypt" /\ ks.crypto.kdf.message = "" /\ ks.crypto.kdf.params.dklen = 32
  /\ IsHex(ks.crypto.kdf.params.salt) /\ HLen(ks.crypto.kdf.params.salt) >= 16
  /\ ks.crypto.checksum.function = "sha256" /\ ks.crypto.checksum.params = "empty"
  /\ ks.crypto.cipher.function = "aes-128-ctr" /\ HLen(ks.crypto.cipher.params.iv) = 16
  /\ Unseal(pass, ks.crypto) = pair.sk

--------------------------------------------------------------------------------
DecIn(from, n) == [k \in 1..n |-> BAdd(from, k - 1)]
Distinct(v) == \A j \in 1..Len(v) : \A k \in 1..Len(v) : v[j] = v[k] => j = k
\* nothing random may repeat, and no byte of fresh randomness may be fixed
Fresh(v) == Distinct(v) /\ \A k \in 0..HLen(v[1]) - 1 : \E j \in 1..Len(v) : ByteAt(v[j], k) # ByteAt(v[1], k)
Count(a) == BInt(BSub(a.end, a.start))
Range(a) == IF BLeq(a.end, a.start) THEN <<>> ELSE DecIn(a.start, Count(a))
Pairs(seed, a) == LET m == TLCEval(MasterKey(seed))
                      r == Range(a)
                  IN TLCEval([k \in 1..Len(r) |-> Account(m, r[k])])
\* the answer to a call: what it returns, or (for calls that draw randomness) whether r is acceptable
Answer(op, a, r) ==
  CASE op = "key.parse" -> Parse(a.phrase)
    [] op = "key.seed" -> IF Entropy(a.phrase) = Bad THEN Bad ELSE Seed(a.phrase, IF a.some THEN a.pass ELSE "")
    [] op = "key.derive" -> LET p == Pairs(a.seed, a)
                            IN [signing |-> [k \in DOMAIN p |-> p[k][1]], withdrawal |-> [k \in DOMAIN p |-> p[k][2]]]
    [] op = "key.parts" -> Sealed(a.pass, a.kdf, a.iv, a.secret)
    [] op = "key.random" ->  \* r: phrases
         LET e == TLCEval([k \in DOMAIN r |-> Entropy(r[k])])
         IN IF Len(r) = a.n /\ (\A k \in DOMAIN e : e[k] # Bad /\ HLen(e[k]) = 32) /\ Fresh(e) THEN r ELSE "256 bits of fresh entropy each"
    [] op = "key.bls" ->     \* r: pairs of secret and public key
         IF Len(r) = a.n /\ (\A k \in DOMAIN r : r[k].pk = IdealPk(r[k].sk) /\ BLt(FromBE(r[k].sk), Order))
            /\ Fresh([k \in DOMAIN r |-> r[k].sk])
         THEN r ELSE "fresh key pairs"
    [] op = "key.keystores" ->  \* r: keystores with their passwords
         LET p == Pairs(Seed(a.phrase, ""), a)
         IN IF Entropy(a.phrase) = Bad THEN Bad
            ELSE IF /\ Len(r) = Len(p)
                    /\ \A k \in DOMAIN r : KeystoreFor(r[k].keystore, AsciiHex(r[k].password), p[k][1])
                    /\ Distinct([k \in DOMAIN r |-> r[k].password])
                    /\ Distinct([k \in DOMAIN r |-> r[k].keystore.uuid])
                    /\ Distinct([k \in DOMAIN r |-> r[k].keystore.crypto.kdf.params.salt])
                    /\ Distinct([k \in DOMAIN r |-> r[k].keystore.crypto.cipher.params.iv])
                 THEN r ELSE "a keystore for each account's signing key, opened by its own password"
    [] op = "key.wrongpass" -> \* a keystore tried with other passwords
         [k \in DOMAIN a.others |-> Unseal(a.others[k], a.crypto)]
=============================================================================
