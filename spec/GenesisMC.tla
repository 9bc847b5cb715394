----------------------------- MODULE GenesisMC -----------------------------
(* Genesis from every sequence of deposits of a few kinds: one validator for each key with a signed first *)
(* deposit, all that was paid in on its account, active when it is full.                                  *)
EXTENDS Scene
CONSTANTS Fs, Kinds, MaxLen, Times, Depth
VARIABLES s, ds, f, t0, res
vars == <<s, ds, f, t0, res>>
\* the kinds: key, amount, signature, proof
KeyOf(k) == CASE k \in {"a", "a+", "abad", "ahalf", "aproof"} -> 1 [] k \in {"b", "bover"} -> 2 [] k \in {"c", "cbad"} -> 3 [] k = "d" -> 4 [] k = "e" -> 5 [] k = "nokey" -> 9
Amount(k) == CASE k = "ahalf" -> FullBal \div 2 [] k = "a+" -> 1500 [] k = "bover" -> FullBal + 3000 [] k = "c" -> FullBal - 1 [] OTHER -> FullBal
Right(k) == k \notin {"abad", "cbad", "nokey"}
Pub(k) == IF k = "nokey" THEN Repeat("ff", 48) ELSE Key(KeyOf(k))
Data(k) ==
  LET m == [public_key |-> Pub(k), withdrawal_credentials |-> Cred(IF KeyOf(k) = 2 THEN "comp" ELSE "bls", KeyOf(k)), amount |-> Amount(k)]
      by == IF Right(k) THEN KeyOf(k) ELSE 30
  IN m @@ [signature |-> IdealSign(Sk(by), SigningRoot(DepositMessageT, m, ComputeDomain(D_DEPOSIT, C.genesis_fork_version, ZERO32)))]
Leaf(k) == HTR(DepositDataT, Data(k))
\* node of height h at place p of the tree over the leaves ls
RECURSIVE NodeOf(_, _, _)
NodeOf(ls, h, p) == IF p * (2^h) >= Len(ls) THEN ZeroHash[h] ELSE IF h = 0 THEN ls[p + 1] ELSE Sha256(NodeOf(ls, h - 1, 2 * p) \o NodeOf(ls, h - 1, 2 * p + 1))
Proof(ls, i) == TLCEval([h \in 1..33 |-> IF h = 33 THEN LE(Len(ls), 8) \o Zeros(24) ELSE IF h > 4 THEN ZeroHash[h - 1]
                                         ELSE LET p == i \div (2^(h - 1)) IN NodeOf(ls, h - 1, IF p % 2 = 0 THEN p + 1 ELSE p - 1)])
Deposits(q) ==
  LET leaves == MapS(q, Leaf)
  IN TLCEval([j \in 1..Len(q) |-> [proof |-> IF q[j] = "aproof" THEN [Proof(SubSeq(leaves, 1, j), j - 1) EXCEPT ![2] = Tag(1)] ELSE Proof(SubSeq(leaves, 1, j), j - 1), data |-> Data(q[j])]])
Idle == World("phase0", 8, Plain(4, "bls"), <<1, 2, 3, 4>>)
Args(q, g, t) == [f |-> g, hash |-> Tag(t), time |-> t, deposits |-> Deposits(q)] @@ (IF Ge(g, "bellatrix") THEN [header |-> [DefaultOf(PayloadHeaderT[g]) EXCEPT !.block_hash = Tag(5), !.block_number = 3]] ELSE [z |-> 0])
Init == s = <<>> /\ ds = <<>> /\ res = "none" /\ f \in Fs /\ t0 \in Times
More == /\ res = "none" /\ Len(ds) < MaxLen /\ \E k \in Kinds : ds' = Append(ds, k)
        /\ UNCHANGED <<s, f, t0, res>>
Found == /\ res = "none" /\ Len(ds) >= Depth
         /\ LET a == TLCEval(Args(ds, f, t0))
                r == TLCEval(Exp(Idle, Call("genesis", a)))
                full == <<Call("genesis", a)>> \o (IF r.ok THEN <<Call("q.valid_genesis", NoArg), Call("q.genesis_block", NoArg)>> ELSE <<>>)
            IN Behaviour(Idle, full) /\ res' = (IF r.ok THEN "ok" ELSE "err") /\ s' = (IF r.ok THEN r.s ELSE <<>>)
         /\ UNCHANGED <<ds, f, t0>>
Next == More \/ Found
\* the first signed deposit of each key makes a validator
Firsts == {j \in 1..Len(ds) : Right(ds[j]) /\ \A i \in 1..(j - 1) : ~(KeyOf(ds[i]) = KeyOf(ds[j]) /\ Right(ds[i]))}
Order == Ascending(Firsts)
\* what comes after it counts, signed or not
Paid(j) == Sum(MapS(SelectSeq(TLCEval([i \in 1..Len(ds) |-> i]), LAMBDA i : i >= j /\ KeyOf(ds[i]) = KeyOf(ds[j])), LAMBDA i : Amount(ds[i])))
Full(j) == Paid(j) >= FullBal
AnyFull == \E j \in Firsts : Full(j)
Accepted == res \in {"ok", "err"} => (res = "ok") = (("aproof" \notin SeqSet(ds)) /\ (f = "phase0" \/ AnyFull))
Made == res = "ok" =>
  /\ NumV(s) = Len(Order) /\ Len(s.balances) = Len(Order)
  /\ \A k \in 1..Len(Order) :
       LET j == Order[k]
           v == s.validators[k]
       IN /\ v.public_key = Pub(ds[j]) /\ v.withdrawal_credentials = Data(ds[j]).withdrawal_credentials /\ s.balances[k] = Paid(j)
          /\ v.effective_balance = MinI(FullBal, Paid(j) - (Paid(j) % EBI)) /\ (v.activation_epoch = 0) = Full(j) /\ (v.activation_eligibility_epoch = 0) = Full(j)
          /\ (~Full(j) => v.activation_epoch = FAR) /\ v.exit_epoch = FAR /\ ~v.slashed
Beginning == res = "ok" =>
  /\ s.genesis_time = t0 + C.genesis_delay /\ s.slot = 0 /\ s.eth1_deposit_index = Len(ds) /\ s.eth1_data.deposit_count = Len(ds) /\ s.eth1_data.block_hash = Tag(t0)
  /\ (ds # <<>> => s.eth1_data.deposit_root = HTR(LstD(DepositDataT, 32), MapS(ds, Data)))
  /\ \A k \in 1..C.epochs_per_historical_vector : s.randao_mixes[k] = Tag(t0)
  /\ s.fork = [previous_version |-> ForkVersion(f), current_version |-> ForkVersion(f), epoch |-> 0]
  /\ s.genesis_validators_root = HTR(Lst(ValidatorT, C.validator_registry_limit), s.validators)
  /\ s.latest_block_header = [DefaultOf(HeaderT) EXCEPT !.body_root = HTR(BodyT[f], DefaultOf(BodyT[f]))]
  /\ (f # "phase0" => s.current_sync_committee = s.next_sync_committee)
  /\ (IsE(s) => s.pending_balance_deposits = <<>>)
ValidIff == res = "ok" => ValidGenesis(s) = (t0 + C.genesis_delay >= C.min_genesis_time /\ Cardinality({j \in Firsts : Full(j)}) >= C.min_genesis_active_validator_count)
=============================================================================
