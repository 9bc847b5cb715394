------------------------------- MODULE KeysMC -------------------------------
(* Design: mnemonics encode entropy one to one, distinct accounts and purposes have distinct paths and  *)
(* keys, sealing then opening gives the secret back and only the right password opens.                  *)
EXTENDS Keys, FiniteSets, Json
CONSTANTS Part
VARIABLE x
Entropies == {Repeat(b, n) : b \in {"00", "7f", "80", "ff", "a5"}, n \in {16, 20, 24, 28, 32}}
             \cup {"000102030405060708090a0b0c0d0e0f", "9e885d952ad362caeb4efe34a8e91bd2"}
T(s) == AsciiHex(s)
Passes == {T(""), T(" "), T("TREZOR"), T(" TREZOR"), T("TREZOR "), T("trezor"), T("a b  c"), "c3a9", "65cc81", "efac81", "f09d94b1", "00", "7f41", "c285", T("0123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789")}
\* damage to the phrase of an entropy: word k replaced, dropped, doubled, swapped with the next; letter case; spacing
Edits(ws) ==
  LET n == Len(ws)
      sub(k, w) == [ws EXCEPT ![k] = w]
  IN {ws} \cup {sub(k, WordAt(j)) : k \in {1, n \div 2, n}, j \in {0, 1, 3, 7, 1024, 2047}}
     \cup {SubSeq(ws, 1, n - 1), Tail(ws), ws \o <<ws[1]>>, ws \o SubSeq(ws, 1, 3), SubSeq(ws, 1, n - 3), <<ws[n]>> \o SubSeq(ws, 1, n - 1)}
     \cup {sub(1, w) : w \in {T("Abandon"), T("ZOO"), T("aband"), T("zoos"), T("x"), "efbd81", "efbd9aefbd8fefbd8f"}}
Spaced == {<<"20", "20", "">>, <<"", "2020", "">>, <<"", "0a", "0a">>, <<"", "e38080", "">>, <<"", "c2a0", "20">>, <<"", "2d", "">>, <<"", "", "">>}
RECURSIVE JoinWith(_, _)
JoinWith(ws, sep) == IF Len(ws) <= 1 THEN ConcatAll(ws) ELSE ws[1] \o sep \o JoinWith(Tail(ws), sep)
Salts == {"d4e56740f876aef8c010b86a40d5f56745a118d0906a34e69aec8c0db1cb8fa3", "000102030405060708090a0b0c0d0e0f"}
Ivs == {"264daa3f303d7259501c93d997d84fe6", Repeat("00", 16), Repeat("ff", 16), Repeat("00", 8) \o Repeat("ff", 8), Repeat("00", 15) \o "ff", Repeat("00", 12) \o Repeat("ff", 4)}
Secrets == {"000000000019d6689c085ae165831e934ff763ae46a2a6c172b3f1b60a8ce26f", BE(1, 32), BE(BSub(Order, 1), 32)}
Kdf(salt, n, r, p) == [dklen |-> 32, n |-> n, r |-> r, p |-> p, salt |-> salt]
Seeds == {Repeat("00", 64), Repeat("ff", 64), "c55257c360c07c72029aebc1b53c05ed0362ada38ead3e3e9efa3708e53495531f09a6987599d18264c1e1c92f2cf141630c7a3c4ab7c81b2f001698e7463b04"}
Ranges == {<<"0", "3">>, <<"1", "2">>, <<"5", "5">>, <<"7", "3">>, <<"255", "257">>, <<"2147483647", "2147483649">>, <<"4294967294", "4294967295">>}
States ==
  CASE Part = "phrase" -> {[e |-> e] : e \in Entropies}
    [] Part = "seed" -> {[e |-> e, pass |-> p] : e \in {"000102030405060708090a0b0c0d0e0f", Repeat("ff", 32)}, p \in Passes}
    [] Part = "derive" -> {[seed |-> s, range |-> r] : s \in Seeds, r \in Ranges}
    [] Part = "seal" -> {[pass |-> p, salt |-> s, iv |-> iv, secret |-> k] : p \in Passes, s \in Salts, iv \in Ivs, k \in Secrets}
    [] Part = "cost" -> {[pass |-> p, salt |-> s, n |-> 8, r |-> r, p |-> q] : p \in {T("x")}, s \in Salts, r \in {1, 8, 3}, q \in {1, 2, 3}}
                        \cup {[pass |-> T("x"), salt |-> s, n |-> 1024, r |-> 2, p |-> 1] : s \in Salts}
Init == x \in States
Next == UNCHANGED x
Case(op, a) == [op |-> op, a |-> a, e |-> Answer(op, a, "")]
Out(op, a) == Emit(ToJson(Case(op, a)))
CasesOut ==
  CASE Part = "phrase" ->
         LET ws == SplitWhite(Phrase(x.e))
         IN /\ \A v \in Edits(ws) : Out("key.parse", [phrase |-> JoinWith(v, "20")])
            /\ \A s \in Spaced : Out("key.parse", [phrase |-> s[1] \o JoinWith(ws, s[2]) \o s[3]])
    [] Part = "seed" ->
         /\ Out("key.seed", [phrase |-> Phrase(x.e), some |-> TRUE, pass |-> x.pass])
         /\ Out("key.seed", [phrase |-> "20" \o JoinWith(SplitWhite(Phrase(x.e)), "2020"), some |-> TRUE, pass |-> x.pass])
         /\ x.pass = "" => Out("key.seed", [phrase |-> Phrase(x.e), some |-> FALSE, pass |-> ""])
    [] Part = "derive" -> Out("key.derive", [seed |-> x.seed, start |-> x.range[1], end |-> x.range[2]])
    [] Part = "seal" -> Out("key.parts", [pass |-> x.pass, kdf |-> Kdf(x.salt, 16, 1, 1), iv |-> x.iv, secret |-> x.secret])
    [] Part = "cost" -> Out("key.parts", [pass |-> x.pass, kdf |-> Kdf(x.salt, x.n, x.r, x.p), iv |-> Repeat("01", 16), secret |-> BE(7, 32)])
OneToOne == Part = "phrase" => Entropy(Phrase(x.e)) = x.e /\ Parse(Phrase(x.e)) = Phrase(x.e)
Separate == Part = "derive" =>
  LET p == Pairs(x.seed, [start |-> x.range[1], end |-> x.range[2]])
      all == {p[k][j] : k \in DOMAIN p, j \in {1, 2}}
  IN /\ Cardinality({q.path : q \in all}) = 2 * Len(p) /\ Cardinality({q.sk : q \in all}) = 2 * Len(p)
     /\ \A q \in all : BLt(FromBE(q.sk), Order) /\ FromBE(q.sk) # "0"
OpensOnly == Part = "seal" =>
  LET c == TLCEval(Sealed(x.pass, Kdf(x.salt, 16, 1, 1), x.iv, x.secret))
  IN \A q \in Passes : Unseal(q, c) = (IF PasswordBytes(q) = PasswordBytes(x.pass) THEN x.secret ELSE Bad)
\* published vectors of EIP-2333 and EIP-2335
ASSUME Part = "derive" =>
  /\ FromBE(MasterKey("c55257c360c07c72029aebc1b53c05ed0362ada38ead3e3e9efa3708e53495531f09a6987599d18264c1e1c92f2cf141630c7a3c4ab7c81b2f001698e7463b04"))
       = "6083874454709270928345386274498605044986640685124978867557563392430687146096"
  /\ FromBE(ChildKey(BE("6083874454709270928345386274498605044986640685124978867557563392430687146096", 32), 0))
       = "20397789859736650942317412262472558107875392172444076792671091975210932703118"
ASSUME Part = "cost" =>
  LET c == Sealed("f09d94b1f09d94a2f09d94b0f09d94b1f09d94adf09d949ef09d94b0f09d94b0f09d94b4f09d94acf09d94aff09d94a1f09f9491",
                  Kdf("d4e56740f876aef8c010b86a40d5f56745a118d0906a34e69aec8c0db1cb8fa3", 262144, 8, 1),
                  "264daa3f303d7259501c93d997d84fe6", "000000000019d6689c085ae165831e934ff763ae46a2a6c172b3f1b60a8ce26f")
  IN /\ c.checksum.message = "d2217fe5f3e9a1e34581ef8a78f7c9928e436d36dacc5e846690a5581e8ea484"
     /\ c.cipher.message = "06ae90d55fe0a6e9c5c3bc5b170827b2e5cce3929ed3f116c2811e6366dfe20f"
ASSUME Part = "seed" =>
  Seed(AsciiHex("abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon about"), AsciiHex("TREZOR"))
    = "c55257c360c07c72029aebc1b53c05ed0362ada38ead3e3e9efa3708e53495531f09a6987599d18264c1e1c92f2cf141630c7a3c4ab7c81b2f001698e7463b04"
=============================================================================
