------------------------------ MODULE CryptoMC ------------------------------
(* Small worlds of keys, messages and blobs: every combination of keys, messages and a signature over any of them, every *)
(* commitment and proof against every blob. Emits each call with its verdict; checks what the verdicts promise.         *)
EXTENDS Crypto, FiniteSets, Json
CONSTANTS Part, MaxKeys
VARIABLE x
Sks == <<BE("1", 32), BE("2", 32), BE("3", 32), BE(BSub(Order, 1), 32)>>
Val == <<1, 2, 3, -1>>                          \* the same keys as integers
Ms == <<"", "6d">>
\* the same point plus one of small order: on the curve, but outside the group
Off(h, t) == SubSeq(h, 1, 2) \o HexByte(t) \o SubSeq(h, 5, Len(h))
Pk(k) == CASE k \in 1..4 -> IdealPk(Sks[k]) [] k = 5 -> PkInfinity [] k = 6 -> Zeros(48) [] k = 7 -> "80" \o Repeat("ff", 47)
              [] k = 8 -> Off(IdealPk(Sks[1]), 1)
\* signatures: a sum of what some keys signed
Signers == {<<>>, <<1>>, <<2>>, <<3>>, <<4>>, <<1, 2>>, <<1, 4>>, <<2, 4>>, <<1, 2, 3>>}
SigOf(t) == CASE t.kind = "sum" -> (IF t.by = <<>> THEN SigInfinity ELSE IdealSum([k \in 1..Len(t.by) |-> IdealSign(Sks[t.by[k]], Ms[t.on[k]])], 96))
              [] t.kind = "off" -> Off(IdealSign(Sks[t.by[1]], Ms[t.on[1]]), t.part)
              [] t.kind = "bad" -> Zeros(96)
              [] t.kind = "junk" -> "80" \o Repeat("ff", 95)
SigsOn(m) == {[kind |-> "sum", by |-> b, on |-> [k \in 1..Len(b) |-> m]] : b \in Signers}
Sigs == SigsOn(1) \cup SigsOn(2) \cup {[kind |-> "sum", by |-> <<1, 2>>, on |-> <<1, 2>>], [kind |-> "sum", by |-> <<2, 1>>, on |-> <<1, 2>>]}
        \cup {[kind |-> "bad"], [kind |-> "junk"]}
        \cup {[kind |-> "off", by |-> <<1>>, on |-> <<1>>, part |-> p] : p \in 1..2}
Seqs(n) == UNION {[1..k -> 1..8] : k \in 0..n}
MSeqs(n) == UNION {[1..k -> 1..2] : k \in 0..n}
\* blobs: no element, one, two, one that is not in the field
Blobs == <<[len |-> BlobLen, h |-> ""], [len |-> BlobLen, h |-> BE("7", 32)], [len |-> BlobLen, h |-> BE("7", 32) \o BE(BSub(Order, 1), 32)],
           [len |-> BlobLen, h |-> BE(Order, 32)], [len |-> BlobLen - 1, h |-> BE("7", 32)], [len |-> 0, h |-> ""], [len |-> BlobLen + 32, h |-> BE("7", 32)]>>
Points == <<BE("0", 32), BE("1", 32), BE(BSub(Order, 1), 32), BE(Order, 32)>>
Good == 1..3
Com(k) == CASE k \in Good -> KzgCommit(Blobs[k].h) [] k = 4 -> PkInfinity [] k = 5 -> Zeros(48) [] OTHER -> "c0" \o Repeat("01", 47)
Prf(k, c) == CASE k \in Good -> KzgBlobProof(Blobs[k].h, Com(c)) [] k = 4 -> PkInfinity [] OTHER -> Zeros(48)
States ==
  CASE Part = "one" -> [pk : 1..8, m : 1..2, s : Sigs]
    [] Part = "many" -> [pks : Seqs(MaxKeys - 1), ms : MSeqs(MaxKeys - 1), s : Sigs]
    [] Part = "same" -> [pks : Seqs(MaxKeys), m : 1..2, s : Sigs]
    [] Part = "sums" -> [pks : Seqs(MaxKeys)] \cup [ss : UNION {[1..k -> Sigs] : k \in 0..2}]
    [] Part = "check" -> [b : Good, z : 1..4, y : 1..5, q : 1..5, c : 1..6]
    [] Part = "blob" -> [b : 1..7, c : 1..6, p : 1..5, pc : 1..3]
    [] Part = "blobs" -> [bs : UNION {[1..k -> {1, 2, 3, 5}] : k \in 0..2}, cs : UNION {[1..k -> {1, 2, 3}] : k \in 0..2}, ps : UNION {[1..k -> {1, 2, 5}] : k \in 0..2}]
    [] Part = "secret" -> [sk : 1..4]
Init == x \in States
Next == UNCHANGED x
Out(op, a) == Emit(ToJson([op |-> op, a |-> a, e |-> CryptoExp(op, a, "")]))
Map(F(_), s) == TLCEval([k \in 1..Len(s) |-> F(s[k])])
Blob(k) == Blobs[k]
Msg(k) == Ms[k]
Opened == KzgOpen(Blobs[x.b].h, Points[x.z])
CasesOut ==
  CASE Part = "one" -> Out("bls.verify", [pk |-> Pk(x.pk), m |-> Ms[x.m], s |-> SigOf(x.s)])
    [] Part = "many" -> Out("bls.verify_many", [pks |-> Map(Pk, x.pks), ms |-> Map(Msg, x.ms), s |-> SigOf(x.s)])
    [] Part = "same" -> LET a == [pks |-> Map(Pk, x.pks), m |-> Ms[x.m], s |-> SigOf(x.s)] IN Out("bls.verify_same", a) /\ Out("bls.verify_sync", a)
    [] Part = "sums" -> IF "pks" \in DOMAIN x THEN Out("bls.sum_keys", [pks |-> Map(Pk, x.pks)]) ELSE Out("bls.sum", [ss |-> Map(SigOf, x.ss)])
    [] Part = "check" ->
         LET o == Opened
             y == IF x.y <= 4 THEN Points[x.y] ELSE IF Same(o, "error") THEN Points[1] ELSE o[2]
             p == IF x.q = 5 /\ ~Same(o, "error") THEN o[1] ELSE IF x.q <= 3 THEN Prf(x.q, x.q) ELSE IF x.q = 4 THEN PkInfinity ELSE Zeros(48)
         IN /\ (x.c = 1 /\ x.y = 1 /\ x.q = 1 => Out("kzg.open", [blob |-> Blobs[x.b], z |-> Points[x.z]]))
            /\ Out("kzg.check", [c |-> Com(x.c), z |-> Points[x.z], y |-> y, p |-> p])
    [] Part = "blob" -> /\ (x.p = 1 /\ x.pc = 1 => Out("kzg.prove", [blob |-> Blobs[x.b], c |-> Com(x.c)]))
                        /\ (x.c = 1 /\ x.p = 1 /\ x.pc = 1 => Out("kzg.commit", [blob |-> Blobs[x.b]]))
                        /\ Out("kzg.check_blob", [blob |-> Blobs[x.b], c |-> Com(x.c), p |-> Prf(x.p, x.pc)])
    \* what a key shows of itself when a program that did not ask for it prints it: nothing
    [] Part = "secret" -> Emit(ToJson([op |-> "api.secret_debug", a |-> [h |-> <<Sks[4], Repeat("5a3c", 16), Repeat("1f2e3d4c", 8), Repeat("07", 32)>>[x.sk]], e |-> [shows |-> FALSE]]))
    [] Part = "blobs" -> Out("kzg.check_blobs", [blobs |-> Map(Blob, x.bs), cs |-> Map(Com, x.cs), ps |-> LET P(k) == Prf(k, IF k = 5 THEN 1 ELSE k) IN Map(P, x.ps)])
\* ---- what the verdicts promise
RECURSIVE Total(_)
Total(s) == IF s = <<>> THEN 0 ELSE Val[s[1]] + Total(Tail(s))
Real(s) == \A k \in 1..Len(s) : s[k] <= 4
\* the part of a sum of signatures that is on message m, as the sum of the keys that made it
RECURSIVE On(_, _, _)
On(t, m, k) == IF k > Len(t.by) THEN 0 ELSE (IF t.on[k] = m THEN Val[t.by[k]] ELSE 0) + On(t, m, k + 1)
RECURSIVE OnPks(_, _, _, _)
OnPks(pks, ms, m, k) == IF k > Len(pks) THEN 0 ELSE (IF ms[k] = m THEN Val[pks[k]] ELSE 0) + OnPks(pks, ms, m, k + 1)
\* a signature is accepted exactly when it is the one these keys make on these messages: sums agree message by message
Right ==
  CASE Part = "one" -> VerifyOne(Pk(x.pk), Ms[x.m], SigOf(x.s)) <=>
         (x.pk <= 4 /\ x.s.kind = "sum" /\ On(x.s, x.m, 1) = Val[x.pk] /\ On(x.s, 3 - x.m, 1) = 0)
    [] Part = "same" -> LET v == VerifySame(Map(Pk, x.pks), Ms[x.m], SigOf(x.s)) IN
         /\ v <=> (x.pks # <<>> /\ Real(x.pks) /\ x.s.kind = "sum" /\ Total(x.pks) # 0 /\ On(x.s, x.m, 1) = Total(x.pks) /\ On(x.s, 3 - x.m, 1) = 0)
         /\ VerifySync(Map(Pk, x.pks), Ms[x.m], SigOf(x.s)) <=> (v \/ (x.pks = <<>> /\ SigOf(x.s) = SigInfinity))
    [] Part = "many" -> VerifyMany(Map(Pk, x.pks), Map(Msg, x.ms), SigOf(x.s)) <=>
         /\ x.pks # <<>> /\ Len(x.pks) = Len(x.ms) /\ Real(x.pks) /\ x.s.kind = "sum"
         /\ \A m \in 1..2 : On(x.s, m, 1) = OnPks(x.pks, x.ms, m, 1)
    [] Part = "sums" -> IF "pks" \in DOMAIN x THEN AggregateKeys(Map(Pk, x.pks)) = "err" <=> (x.pks = <<>> \/ ~Real(x.pks))
                        ELSE AggregateSigs(Map(SigOf, x.ss)) = "err" <=> (x.ss = <<>> \/ \E k \in DOMAIN x.ss : x.ss[k].kind # "sum")
    \* a commitment opens at a point to the polynomial's value there, and to nothing else with the honest proof
    [] Part = "check" -> LET o == Opened IN (~Same(o, "error") /\ x.q = 5 /\ x.c = x.b) =>
         \A y \in 1..4 : (KzgCheck(Com(x.c), Points[x.z], Points[y], o[1]) = "valid") <=> (Points[y] = o[2])
    \* the honest proof of a blob is accepted for it and its commitment
    [] Part = "blob" -> (x.b \in Good /\ x.c = x.b /\ x.p = x.b /\ x.pc = x.b) => CheckBlob(Blobs[x.b], Com(x.c), Prf(x.p, x.pc))
    [] Part = "blobs" -> CheckBlobs(<<>>, <<>>, <<>>)
    [] Part = "secret" -> TRUE
=============================================================================
