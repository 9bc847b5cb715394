------------------------------- MODULE Crypto -------------------------------
(* What the signature and polynomial-commitment wrappers accept and return, over the ideal schemes of Bytes and Prims. *)
EXTENDS Keys

\* ---- signatures. Keys of 32, 48 and signatures of 96 bytes; everything else is refused on decoding.
SkValid(h) == HLen(h) = 32 /\ BLt("0", FromBE(h)) /\ BLt(FromBE(h), Order)
AllValid(pks) == \A k \in DOMAIN pks : IdealPkValid(pks[k])
Copies(m, n) == TLCEval([k \in 1..n |-> m])
VerifyOne(pk, m, s) == IdealPkValid(pk) /\ IdealSigDecodes(s) /\ IdealCheck(<<pk>>, <<m>>, s)
VerifyMany(pks, ms, s) == pks # <<>> /\ Len(pks) = Len(ms) /\ AllValid(pks) /\ IdealSigDecodes(s) /\ IdealCheck(pks, ms, s)
\* keys that cancel out sign nothing: their sum is the identity, which is no key
VerifySame(pks, m, s) == /\ pks # <<>> /\ AllValid(pks) /\ IdealSigDecodes(s)
                         /\ IdealSum(pks, 48) # PkInfinity
                         /\ IdealCheck(pks, Copies(m, Len(pks)), s)
VerifySync(pks, m, s) == IF pks = <<>> THEN s = SigInfinity ELSE VerifySame(pks, m, s)
AggregateSigs(ss) == IF ss = <<>> \/ \E k \in DOMAIN ss : ~IdealSigDecodes(ss[k]) THEN "err" ELSE IdealSum(ss, 96)
AggregateKeys(pks) == IF pks = <<>> \/ ~AllValid(pks) THEN "err" ELSE IdealSum(pks, 48)
Verdict(b) == IF b THEN "ok" ELSE "err"
SecretOf(h) == IF SkValid(h) THEN [bytes |-> h, pk |-> IdealPk(h)] ELSE "err"

\* ---- polynomial commitments. A blob is [len, h]: its length and its bytes without the trailing zeros.
BlobLen == 131072
IsBlob(b) == b.len = BlobLen
OrErr(x) == IF Same(x, "error") THEN "err" ELSE x
Commit(b) == IF IsBlob(b) THEN OrErr(KzgCommit(b.h)) ELSE "err"
Open(b, z) == IF IsBlob(b) THEN OrErr(KzgOpen(b.h, z)) ELSE "err"
ProveBlob(b, c) == IF IsBlob(b) THEN OrErr(KzgBlobProof(b.h, c)) ELSE "err"
CheckBlob(b, c, p) == IsBlob(b) /\ KzgBlobCheck(b.h, c, p) = "valid"
CheckBlobs(bs, cs, ps) == /\ Len(bs) = Len(cs) /\ Len(bs) = Len(ps)
                          /\ \A k \in DOMAIN bs : CheckBlob(bs[k], cs[k], ps[k])

\* r: the recorded result, for the calls that are only pinned down up to a relation
CryptoExp(op, a, r) ==
  CASE op = "bls.hash" -> Sha256(a.h)
    [] op = "bls.secret" -> SecretOf(a.h)
    [] op = "bls.secret_text" -> (IF a.valid THEN SecretOf(a.h) ELSE "err")
    [] op = "bls.master" -> (IF HLen(a.h) < 32 THEN "err" ELSE SecretOf(MasterKey(a.h)))
    [] op \in {"bls.generate", "bls.random"} ->
         (IF op = "bls.generate" /\ HLen(a.h) < 32 THEN "err"
          ELSE IF ~Same(r, "err") /\ ~Same(r, "") /\ "bytes" \in DOMAIN r /\ SkValid(r.bytes) THEN [bytes |-> r.bytes, pk |-> IdealPk(r.bytes), again |-> TRUE] ELSE "a valid key")
    [] op = "bls.public" -> (IF HLen(a.h) = 48 THEN [bytes |-> a.h] ELSE "err")
    [] op = "bls.signature" -> (IF HLen(a.h) = 96 THEN [bytes |-> a.h, infinity |-> a.h = SigInfinity] ELSE "err")
    [] op = "bls.sign" -> IdealSign(a.sk, a.m)
    [] op = "bls.verify" -> Verdict(VerifyOne(a.pk, a.m, a.s))
    [] op = "bls.verify_many" -> Verdict(VerifyMany(a.pks, a.ms, a.s))
    [] op = "bls.verify_same" -> Verdict(VerifySame(a.pks, a.m, a.s))
    [] op = "bls.verify_sync" -> Verdict(VerifySync(a.pks, a.m, a.s))
    [] op = "bls.sum" -> AggregateSigs(a.ss)
    [] op = "bls.sum_keys" -> AggregateKeys(a.pks)
    [] op = "kzg.commit" -> Commit(a.blob)
    [] op = "kzg.open" -> Open(a.blob, a.z)
    [] op = "kzg.prove" -> ProveBlob(a.blob, a.c)
    [] op = "kzg.check" -> Verdict(KzgCheck(a.c, a.z, a.y, a.p) = "valid")
    [] op = "kzg.check_blob" -> Verdict(CheckBlob(a.blob, a.c, a.p))
    [] op = "kzg.check_blobs" -> Verdict(CheckBlobs(a.blobs, a.cs, a.ps))
=============================================================================
