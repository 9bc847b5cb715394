------------------------------ MODULE HostileMC ------------------------------
(* Right operations and blocks with `Wrongs` values in them replaced by hostile ones: numbers at the ends of    *)
(* their range, empty, doubled and reversed lists, bit fields of another length, other bytes, elements of  *)
(* all zeroes. Whatever comes of it is an error or a sound state.                                          *)
EXTENDS OpsMC
Kind(f) == CASE Part = "exit" -> SignedVoluntaryExitT [] Part = "bls" -> Cont(<<F("message", BlsChangeT), F("signature", B96)>>) [] Part = "pslash" -> ProposerSlashingT
             [] Part = "aslash" -> AttesterSlashingT(f) [] Part = "header" -> Cont(<<F("message", BlockT[f])>>)
             [] Part \in {"randao", "payload", "body"} -> BodyT[f] [] Part = "sync" -> SyncAggregateT [] Part = "consol" -> SignedConsolidationT [] Part = "deposit" -> DepositT
             [] Part = "attest" -> AttestationT(f) [] Part = "request" -> WithdrawalRequestT [] Part = "receipt" -> DepositReceiptT [] Part = "sweep" -> PayloadT[f] [] Part = "block" -> SignedBlockT[f]
\* ---- the parts that are not in OpsMC
Blank(t) ==
  LET f == t.fk
      p == Proposer(t)
      a == [DefaultOf(BodyT[f]) EXCEPT !.randao_reveal = SignBy(<<p>>, SigningRoot(U64, Ep, Dom(t, D_RANDAO, Cur(f)))), !.eth1_data = t.eth1_data]
      b == IF f = "phase0" THEN a ELSE [a EXCEPT !.sync_aggregate.sync_committee_signature = SigInfinity]
      pay == [DefaultOf(PayloadT[f]) EXCEPT !.parent_hash = t.latest_execution_payload_header.block_hash, !.prev_randao = RandaoMix(t, Ep), !.block_hash = Tag(77),
                !.timestamp = t.genesis_time + Now * C.seconds_per_slot]
  IN IF ~Ge(f, "bellatrix") THEN b ELSE [b EXCEPT !.execution_payload = IF Ge(f, "capella") THEN [pay EXCEPT !.withdrawals = ExpectedWithdrawals(t)] ELSE pay]
Rich(f) == [W0(f, Now) EXCEPT !.balances = TLCEval([k \in 1..N |-> IF k = 4 THEN FullBal + 7 ELSE FullBal])]
Before(f) == CASE Part \in {"request", "receipt", "body"} -> W0(f, Now) [] Part \in {"sweep", "block"} -> Rich(f) [] OTHER -> Pre(f)
Block(t) == [DefaultOf(BlockT[t.fk]) EXCEPT !.slot = Now, !.proposer_index = Proposer(t), !.parent_root = HTR(HeaderT, t.latest_block_header), !.body = Blank(t)]
Base0(t) ==
  CASE Part = "request" -> Call("withdrawal_request", [x |-> [source_address |-> Slice(V(t, X).withdrawal_credentials, 12, 20), validator_public_key |-> Key(X), amount |-> 0]])
    [] Part = "receipt" -> Call("deposit_receipt", [x |-> [public_key |-> Key(X), withdrawal_credentials |-> Cred("eth1", X), amount |-> FullBal, signature |-> Zeros(96), index |-> 5]])
    [] Part = "sweep" -> Call("withdrawals", [x |-> Blank(t).execution_payload])
    [] Part = "body" -> Call("operations", [x |-> Blank(t)])
    [] Part = "block" -> Call("block", [x |-> [message |-> Block(t), signature |-> Zeros(96)]])
    [] OTHER -> Made(t)

\* ---- damage: each the value with one thing about it changed
Rev(q) == TLCEval([k \in 1..Len(q) |-> q[Len(q) + 1 - k]])
Put(q, k, x) == [q EXCEPT ![k] = x]
RECURSIVE Damaged(_, _)
Damaged(ty, v) ==
  CASE ty.t = "u" -> IF ty.n = 8 THEN {0, 1, N - 1, N, FAR, 2000000000, IF v >= 2000000000 THEN v ELSE v + 1, IF v = 0 THEN 0 ELSE v - 1} \ {v} ELSE {}
    [] ty.t = "bool" -> {~v}
    [] ty.t = "bv" -> {Zeros(ty.n), Repeat("ff", ty.n)} \ {v}
    [] ty.t = "bl" -> {"", Repeat("ff", MinI(ty.n, 32))} \ {v}
    [] ty.t = "bitv" -> {Rev(v), Zeroes(ty.n), TLCEval([k \in 1..ty.n |-> 1])} \ {v}
    [] ty.t = "bitl" -> {<<>>, Zeroes(Len(v)), TLCEval([k \in 1..Len(v) |-> 1]), IF Len(v) < ty.n THEN Append(v, 1) ELSE v, IF v = <<>> THEN v ELSE Tail(v), TLCEval([k \in 1..ty.n |-> 1])} \ {v}
    [] ty.t = "vec" -> {Put(v, 1, x) : x \in Damaged(ty.e, v[1])} \cup {Put(v, ty.n, x) : x \in Damaged(ty.e, v[ty.n])}
    [] ty.t \in {"list", "listd"} ->
         IF ty.t = "listd" THEN {}
         ELSE IF v = <<>> THEN LET d == DefaultOf(ty.e) IN {<<d>>} \cup (IF ty.n > 1 THEN {<<d, d>>} ELSE {}) \cup {<<x>> : x \in Damaged(ty.e, d)}
         ELSE ({<<>>, Rev(v), IF Len(v) < ty.n THEN Append(v, v[Len(v)]) ELSE v, IF 2 * Len(v) <= ty.n THEN v \o v ELSE v} \ {v})
              \cup UNION {{Put(v, k, x) : x \in Damaged(ty.e, v[k])} : k \in {1, Len(v)}}
    [] ty.t = "cont" -> UNION {LET f == ty.fs[k] IN {[v EXCEPT ![f[1]] = x] : x \in Damaged(f[2], v[f[1]])} : k \in 1..Len(ty.fs)}
Sane(t) ==
  /\ NumV(t) = Len(t.balances) /\ NumV(t) >= NumV(was) /\ t.slot = was.slot
  /\ (t.fk # "phase0" => NumV(t) = Len(t.inactivity_scores) /\ NumV(t) = Len(t.current_epoch_participation) /\ NumV(t) = Len(t.previous_epoch_participation))
  /\ \A k \in 1..NumV(t) : t.balances[k] >= 0 /\ t.validators[k].exit_epoch <= t.validators[k].withdrawable_epoch

\* the damaged operation signed again, by those who signed the right one
Again(t, x) ==
  LET ver(e) == IF e < Ep THEN Prev(t.fk) ELSE Cur(t.fk)
      Ours(q) == SelectSeq(q, LAMBDA i : i < 20)
      header(h) == [h EXCEPT !.signature = SignBy(<<X>>, SigningRoot(HeaderT, h.message, Dom(t, D_PROPOSER, ver(EpochOf(h.message.slot)))))]
      votes(a, by) == [a EXCEPT !.signature = SignBy(by, SigningRoot(AttDataT, a.data, Dom(t, D_ATTESTER, ver(a.data.target.epoch))))]
  IN CASE Part = "exit" -> [x EXCEPT !.signature = SignBy(<<X>>, SigningRoot(VoluntaryExitT, x.message, Dom(t, D_EXIT, ExitDue(t.fk, x.message.epoch))))]
       [] Part = "bls" -> [x EXCEPT !.signature = SignBy(<<X>>, SigningRoot(BlsChangeT, x.message, Dom(t, D_BLS_CHANGE, C.genesis_fork_version)))]
       [] Part = "pslash" -> [x EXCEPT !.signed_header_1 = header(@), !.signed_header_2 = header(@)]
       [] Part = "aslash" -> [x EXCEPT !.attestation_1 = votes(@, Ours(@.attesting_indices)), !.attestation_2 = votes(@, Ours(@.attesting_indices))]
       [] Part = "consol" -> [x EXCEPT !.signature = SignBy(<<X, Y>>, SigningRoot(ConsolidationT, x.message, Dom(t, D_CONSOLIDATION, C.genesis_fork_version)))]
       [] Part = "attest" -> LET m == Members(t) IN votes(x, IF Len(m) = Len(x.aggregation_bits) THEN MapS(SelectSeq(Idx(m), LAMBDA i : x.aggregation_bits[i + 1] = 1), LAMBDA i : m[i + 1]) ELSE m)
       [] OTHER -> x
Twice(ty, v) == IF Wrongs = 1 THEN Damaged(ty, v) ELSE UNION {Damaged(ty, x) : x \in Damaged(ty, v)}
Spot(t) == LET m == TLCEval(Base0(t)) IN UNION {{[op |-> m.op, a |-> [m.a EXCEPT !.x = y]] : y \in {x, Guard(TLCEval(Again(t, x)), x)}} : x \in Twice(Kind(t.fk), m.a.x)}

Extra == {"request", "receipt", "sweep", "body", "block"}
HostileInit == c = (IF Part \in Extra THEN [z |-> "no"] ELSE Base) /\ s = <<>> /\ res = "start" /\ was \in Fs
HostileNext ==
  \/ res = "start" /\ res' = "made" /\ s' = TLCEval(Before(was)) /\ was' = s' /\ c' = c
  \/ res = "made" /\ \E m \in Spot(s) : LET r == IF Behaviour(s, <<m>>) THEN Guard(TLCEval(Exp(s, m)), Err) ELSE Err
                                        IN res' = (IF r.ok THEN "ok" ELSE "err") /\ s' = (IF r.ok THEN r.s ELSE s) /\ UNCHANGED <<c, was>>
Sound == res = "ok" => Sane(s)
=============================================================================
