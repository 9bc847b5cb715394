-------------------------------- MODULE OpsMC --------------------------------
(* Operations of a block that are right, or wrong in up to `Wrongs` respects; each respect is one dimension *)
(* with its right value first (values after a "|" are right as well). An operation is accepted exactly when *)
(* every respect is right.                                                                                  *)
EXTENDS Scene
CONSTANTS Fs, Part, Wrongs
VARIABLES s, c, res, was
N == 8
Ep == 20
\* the slot, in the middle of its epoch where the case says nothing else
Now == StartSlot(Ep) + (IF "sl" \in DOMAIN c THEN (CASE c.sl = "first" -> 0 [] c.sl = "mid" -> 2 [] c.sl = "last" -> SPE - 1) ELSE 2)
\* name, right values, wrong values
Dims ==
  CASE Part = "exit" -> <<<<"sl", <<"mid", "first">>, <<>> >>, <<"ep", <<"now", "before">>, <<"next">> >>, <<"who", <<"old", "exact">>, <<"young", "unborn", "gone", "leaving", "torn", "unknown">> >>,
                          <<"key", <<"own">>, <<"other">> >>, <<"ver", <<"due">>, <<"previous", "current", "capella", "genesis">> >>, <<"pend", <<"no">>, <<"yes">> >>>>
    [] Part = "bls" -> <<<<"who", <<"bls">>, <<"eth1", "comp", "unknown", "short">> >>, <<"from", <<"own">>, <<"other">> >>, <<"key", <<"own">>, <<"other">> >>,
                         <<"ver", <<"genesis">>, <<"current", "capella">> >>, <<"root", <<"own">>, <<"zero">> >>>>
    [] Part = "pslash" -> <<<<"who", <<"active", "leaving", "last">>, <<"slashed", "out", "unborn", "unknown">> >>, <<"slots", <<"same", "old">>, <<"differ">> >>, <<"kind", <<"body", "parent">>, <<"equal">> >>,
                            <<"by", <<"one">>, <<"two">> >>, <<"sig1", <<"own">>, <<"other", "swap">> >>, <<"sig2", <<"own">>, <<"other">> >>>>
    [] Part = "aslash" -> <<<<"kind", <<"double", "surround", "head">>, <<"surrounded", "equal", "apart", "inner", "outer">> >>, <<"ix1", <<"three", "all">>, <<"none", "unsorted", "twice", "unknown">> >>,
                            <<"ix2", <<"three", "all">>, <<"none", "others", "unsorted">> >>, <<"sig1", <<"own">>, <<"missing", "domain">> >>, <<"sig2", <<"own">>, <<"missing">> >>,
                            <<"them", <<"active", "some">>, <<"slashed", "out">> >>>>
    [] Part = "header" -> <<<<"sl", <<"mid", "first", "last">>, <<>> >>, <<"slot", <<"now">>, <<"before", "next">> >>, <<"last", <<"older">>, <<"same">> >>, <<"by", <<"proposer">>, <<"other">> >>, <<"parent", <<"head">>, <<"other">> >>,
                            <<"honest", <<"yes">>, <<"slashed">> >>>>
    [] Part = "randao" -> <<<<"key", <<"proposer">>, <<"other">> >>, <<"msg", <<"now">>, <<"next", "last">> >>, <<"ver", <<"current">>, <<"previous">> >>, <<"dom", <<"randao">>, <<"proposer">> >>,
                           <<"sl", <<"mid", "first", "last">>, <<>> >>>>
    [] Part = "sync" -> <<<<"bits", <<"all", "some", "one">>, <<"more", "fewer">> >>, <<"root", <<"last">>, <<"older">> >>, <<"ver", <<"due">>, <<"not">> >>, <<"at", <<"inside", "edge">>, <<>> >>,
                          <<"none", <<"no", "empty">>, <<"signed">> >>>>
    [] Part = "payload" -> <<<<"sl", <<"mid", "first", "last">>, <<>> >>, <<"parent", <<"head">>, <<"other">> >>, <<"mix", <<"now">>, <<"last">> >>, <<"time", <<"slot">>, <<"early", "late">> >>, <<"blobs", <<"none", "most", "same">>, <<"over">> >>,
                             <<"engine", <<"yes">>, <<"no">> >>, <<"merge", <<"done", "first", "thin", "bare">>, <<>> >>>>
    [] Part = "consol" -> <<<<"src", <<"eth1", "comp">>, <<"bls", "leaving", "unborn", "unknown">> >>, <<"tgt", <<"eth1", "comp">>, <<"bls", "leaving", "unborn", "unknown", "same">> >>,
                            <<"addr", <<"same">>, <<"differ">> >>, <<"ep", <<"now", "before">>, <<"next">> >>, <<"sig", <<"both">>, <<"source", "target", "version">> >>, <<"queue", <<"room">>, <<"full">> >>,
                            <<"stake", <<"large">>, <<"small">> >>>>
    [] Part = "deposit" -> <<<<"proof", <<"own">>, <<"other", "depth">> >>, <<"at", <<"next">>, <<"last", "later">> >>, <<"key", <<"new", "known", "invalid">>, <<>> >>,
                             <<"sig", <<"own", "other", "version", "amount">>, <<>> >>, <<"amount", <<"full", "odd", "least", "huge">>, <<>> >>, <<"cred", <<"bls", "eth1", "comp">>, <<>> >>>>
    [] Part = "attest" -> <<<<"delay", <<"1", "2", "3", "4">>, <<"0", "5", "8">> >>, <<"at", <<"mid", "start">>, <<>> >>, <<"source", <<"due">>, <<"epoch", "root", "another">> >>,
                            <<"target", <<"right", "other">>, <<"epoch">> >>, <<"head", <<"right", "other">>, <<>> >>, <<"com", <<"first", "second", "both">>, <<"beyond", "index">> >>, <<"many", <<"two", "one">>, <<>> >>,
                            <<"bits", <<"all", "one">>, <<"none", "long", "short">> >>, <<"sig", <<"own">>, <<"missing", "extra", "version">> >>, <<"had", <<"nothing", "source", "all">>, <<>> >>>>
Name(d) == d[1]
Names == {Name(Dims[k]) : k \in 1..Len(Dims)}
DimOf(x) == Dims[CHOOSE k \in 1..Len(Dims) : Name(Dims[k]) = x]
Vals(x) == SeqSet(DimOf(x)[2]) \cup SeqSet(DimOf(x)[3])
Bad(x, v) == v \in SeqSet(DimOf(x)[3])
Base == [x \in Names |-> DimOf(x)[2][1]]
\* all choices that differ from the base in at most Wrongs dimensions
RECURSIVE Vary(_, _, _)
Vary(b, X, k) == IF k = 0 \/ X = {} THEN {b} ELSE UNION {{b} \cup UNION {Vary([b EXCEPT ![x] = v], {y \in X : y # x}, k - 1) : v \in Vals(x)} : x \in X}
Cases == TLCEval(Vary(Base, Names, Wrongs))
Good == \A x \in Names : ~Bad(x, c[x])

\* (a phase 0 state has one version; here it has two, as any state may)
Prev(f) == IF f = "phase0" THEN "00000063" ELSE ForkVersion(PrevFork(f))
Cur(f) == ForkVersion(f)
Dom(t, type, ver) == ComputeDomain(type, ver, t.genesis_validators_root)
SignBy(S, root) == IF S = <<>> THEN SigInfinity ELSE IdealSum(MapS(S, LAMBDA i : IdealSign(Sk(i), root)), 96)
W0(f, slot) == [WithSync(World(f, slot, Plain(N, "eth1"), TLCEval([k \in 1..N |-> FullBal]))) EXCEPT !.fork.epoch = Ep, !.fork.previous_version = Prev(f)]
SetV(t, i, v) == [t EXCEPT !.validators[i + 1] = v]
X == 3     \* the validator it is about
VX(t) == V(t, X)
Electra(f) == f = "electra"

\* ---- voluntary exits
ExitPre(f) ==
  LET t == W0(f, Now)
      v == CASE c.who = "exact" -> [VX(t) EXCEPT !.activation_eligibility_epoch = Ep - C.shard_committee_period, !.activation_epoch = Ep - C.shard_committee_period]
             [] c.who = "young" -> [VX(t) EXCEPT !.activation_epoch = Ep - C.shard_committee_period + 1]
             [] c.who = "unborn" -> [VX(t) EXCEPT !.activation_epoch = Ep + 1]
             [] c.who = "gone" -> Leaving(VX(t), Ep)
             [] c.who = "leaving" -> Leaving(VX(t), Ep + 3)
             \* (no validator of a real chain, but the rule is about the exit epoch alone)
             [] c.who = "torn" -> [VX(t) EXCEPT !.exit_epoch = Ep + 3]
             [] OTHER -> VX(t)
      u == SetV(t, X, v)
  IN IF Electra(f) /\ c.pend = "yes" THEN [u EXCEPT !.pending_partial_withdrawals = <<[index |-> X, amount |-> 1, withdrawable_epoch |-> Ep + 9]>>] ELSE u
ExitDue(f, e) == IF Ge(f, "deneb") THEN C.capella_fork_version ELSE IF e < Ep THEN Prev(f) ELSE Cur(f)
ExitCall(t) ==
  LET e == CASE c.ep = "now" -> Ep [] c.ep = "before" -> Ep - 1 [] c.ep = "next" -> Ep + 1
      m == [epoch |-> e, validator_index |-> IF c.who = "unknown" THEN N ELSE X]
      ver == CASE c.ver = "due" -> ExitDue(t.fk, e) [] c.ver = "previous" -> Prev(t.fk) [] c.ver = "current" -> Cur(t.fk) [] c.ver = "capella" -> C.capella_fork_version [] c.ver = "genesis" -> C.genesis_fork_version
  IN Call("exit", [x |-> [message |-> m, signature |-> SignBy(<<IF c.key = "own" THEN X ELSE X + 1>>, SigningRoot(VoluntaryExitT, m, Dom(t, D_EXIT, ver)))]])
\* (a version that happens to be the due one is right; only electra has pending withdrawals)
ExitGood ==
  LET f == was.fk
      e == CASE c.ep = "now" -> Ep [] c.ep = "before" -> Ep - 1 [] c.ep = "next" -> Ep + 1
      v == CASE c.ver = "due" -> ExitDue(f, e) [] c.ver = "previous" -> Prev(f) [] c.ver = "current" -> Cur(f) [] c.ver = "capella" -> C.capella_fork_version [] c.ver = "genesis" -> C.genesis_fork_version
  IN /\ \A x \in {"ep", "who", "key"} : ~Bad(x, c[x])
     /\ v = ExitDue(f, e) /\ (c.pend = "yes" => ~Electra(f))
Rest(t) == IF Electra(t.fk) THEN [t EXCEPT !.validators = was.validators, !.earliest_exit_epoch = was.earliest_exit_epoch, !.exit_balance_to_consume = was.exit_balance_to_consume,
                                            !.earliest_consolidation_epoch = was.earliest_consolidation_epoch, !.consolidation_balance_to_consume = was.consolidation_balance_to_consume]
           ELSE [t EXCEPT !.validators = was.validators]
ExitEffect == V(s, X).exit_epoch = Ep + 1 + C.max_seed_lookahead /\ Rest(s) = was

\* ---- changes of credentials
BlsPre(f) ==
  LET t == W0(f, Now)
      own == "00" \o Slice(Sha256(Key(X)), 1, 31)
  IN SetV(t, X, [VX(t) EXCEPT !.withdrawal_credentials = CASE c.who = "eth1" -> "01" \o Slice(own, 1, 31) [] c.who = "comp" -> "02" \o Slice(own, 1, 31)
                                                           [] c.who = "short" -> Slice(own, 0, 31) \o (IF ByteAt(own, 31) = 0 THEN "01" ELSE "00") [] OTHER -> own])
BlsCall(t) ==
  LET m == [validator_index |-> IF c.who = "unknown" THEN N ELSE X, from_bls_public_key |-> Key(IF c.from = "own" THEN X ELSE X + 1), to_execution_address |-> Addr(50)]
      ver == CASE c.ver = "genesis" -> C.genesis_fork_version [] c.ver = "current" -> Cur(t.fk) [] c.ver = "capella" -> C.capella_fork_version
      dom == ComputeDomain(D_BLS_CHANGE, ver, IF c.root = "own" THEN t.genesis_validators_root ELSE ZERO32)
  IN Call("bls_change", [x |-> [message |-> m, signature |-> SignBy(<<IF c.key = "own" THEN X ELSE X + 1>>, SigningRoot(BlsChangeT, m, dom))]])
BlsGood == Good /\ (c.from = "own")
BlsEffect == s = SetV(was, X, [VX(was) EXCEPT !.withdrawal_credentials = "01" \o Zeros(11) \o Addr(50)])

\* ---- proposer slashings
StateFor(t, how) == CASE how = "slashed" -> Slashed(VX(t), Ep + 4, Ep + 8) [] how = "leaving" -> Leaving(VX(t), Ep + 3) [] how = "last" -> [Leaving(VX(t), Ep - 3) EXCEPT !.withdrawable_epoch = Ep + 1]
                      [] how = "out" -> [Leaving(VX(t), Ep - 3) EXCEPT !.withdrawable_epoch = Ep] [] how = "unborn" -> [VX(t) EXCEPT !.activation_epoch = Ep + 1] [] OTHER -> VX(t)
PSlashPre(f) == SetV(W0(f, Now), X, StateFor(W0(f, Now), c.who))
PSlashCall(t) ==
  LET i == IF c.who = "unknown" THEN N ELSE X
      slot == IF c.slots = "old" THEN StartSlot(Ep) - 1 ELSE Now
      h1 == [slot |-> slot, proposer_index |-> i, parent_root |-> Tag(1), state_root |-> Tag(2), body_root |-> Tag(3)]
      h2 == [slot |-> IF c.slots = "differ" THEN slot - 1 ELSE slot, proposer_index |-> IF c.by = "one" THEN i ELSE i - 1, parent_root |-> IF c.kind = "parent" THEN Tag(9) ELSE Tag(1),
             state_root |-> Tag(2), body_root |-> IF c.kind = "body" THEN Tag(9) ELSE Tag(3)]
      ver(h) == IF EpochOf(h.slot) < Ep THEN Prev(t.fk) ELSE Cur(t.fk)
      root(h) == SigningRoot(HeaderT, h, Dom(t, D_PROPOSER, ver(h)))
      key(k) == IF c.sig1 = "swap" /\ k = 1 THEN <<X, X>> ELSE IF (IF k = 1 THEN c.sig1 ELSE c.sig2) = "own" THEN <<X>> ELSE <<X + 1>>
  IN Call("proposer_slashing", [x |-> [signed_header_1 |-> [message |-> h1, signature |-> SignBy(key(1), root(h1))],
                                       signed_header_2 |-> [message |-> h2, signature |-> SignBy(key(2), root(h2))]]])
\* different slots or proposers make the headers differ, too, but do not help
PSlashGood == Good
PSlashEffect == V(s, X).slashed /\ V(s, X).exit_epoch # FAR

\* ---- attester slashings
Ix(x) == CASE x = "three" -> <<2, 3, 5>> [] x = "all" -> Idx(was.validators) [] x = "none" -> <<>> [] x = "unsorted" -> <<3, 2, 5>> [] x = "twice" -> <<2, 3, 3>>
           [] x = "unknown" -> <<2, 3, N>> [] x = "others" -> <<0, 1, 4>>
ASlashPre(f) ==
  LET t == W0(f, Now)
      put(u, i) == SetV(u, i, CASE c.them = "slashed" -> Slashed(V(t, i), Ep + 4, Ep + 8) [] c.them = "out" -> [Leaving(V(t, i), Ep - 3) EXCEPT !.withdrawable_epoch = Ep]
                                [] c.them = "some" -> (IF i \in {2, 4, 7} THEN Slashed(V(t, i), Ep + 4, Ep + 8) ELSE V(t, i)) [] OTHER -> V(t, i))
  IN FoldLeft(put, t, <<0, 1, 2, 3, 4, 5, 6, 7>>)
Att(src, tgt, tag) == [slot |-> StartSlot(tgt), index |-> 0, beacon_block_root |-> Tag(tag), source |-> [epoch |-> src, root |-> Tag(src)], target |-> [epoch |-> tgt, root |-> Tag(tgt)]]
ADatas == CASE c.kind = "double" -> <<Att(14, 19, 1), Att(15, 19, 1)>> [] c.kind = "head" -> <<Att(14, 19, 1), Att(14, 19, 2)>> [] c.kind = "surround" -> <<Att(14, 19, 1), Att(15, 18, 1)>>
            [] c.kind = "surrounded" -> <<Att(15, 18, 1), Att(14, 19, 1)>> [] c.kind = "equal" -> <<Att(14, 19, 1), Att(14, 19, 1)>> [] c.kind = "apart" -> <<Att(14, 15, 1), Att(15, 16, 1)>>
            [] c.kind = "inner" -> <<Att(14, 19, 1), Att(14, 18, 1)>> [] c.kind = "outer" -> <<Att(14, 18, 1), Att(15, 20, 1)>>
ASlashCall(t) ==
  LET one(k) ==
        LET d == ADatas[k]
            ix == CASE k = 1 -> (IF c.ix1 = "all" THEN <<0, 1, 2, 3, 4, 5, 6, 7>> ELSE Ix(c.ix1)) [] OTHER -> (IF c.ix2 = "all" THEN <<0, 1, 2, 3, 4, 5, 6, 7>> ELSE Ix(c.ix2))
            how == IF k = 1 THEN c.sig1 ELSE c.sig2
            by == IF how = "missing" /\ Len(ix) > 1 THEN Tail(ix) ELSE IF how = "missing" THEN <<7>> ELSE ix
            ver == IF d.target.epoch < Ep THEN Prev(t.fk) ELSE Cur(t.fk)
        IN [attesting_indices |-> ix, data |-> d, signature |-> SignBy(by, SigningRoot(AttDataT, d, Dom(t, IF how = "domain" THEN D_PROPOSER ELSE D_ATTESTER, ver)))]
  IN Call("attester_slashing", [x |-> [attestation_1 |-> one(1), attestation_2 |-> one(2)]])
\* two attestations by different validators are fine when one of them is also in the other
ASlashGood == (\A x \in Names \ {"ix2"} : ~Bad(x, c[x])) /\ c.ix2 \in {"three", "all", "others"} /\ ~(c.ix1 = "three" /\ c.ix2 = "others")
ASlashEffect == LET both == (IF c.ix1 = "all" THEN 0..7 ELSE {2, 3, 5}) \cap (IF c.ix2 = "all" THEN 0..7 ELSE IF c.ix2 = "others" THEN {0, 1, 4} ELSE {2, 3, 5})
                IN {i \in 0..7 : V(s, i).slashed} = {i \in 0..7 : V(was, i).slashed} \cup both

\* ---- headers
HeaderPre(f) ==
  LET t == [W0(f, Now) EXCEPT !.latest_block_header.slot = IF c.last = "same" THEN Now ELSE Now - 1]
      p == Proposer(t)
  IN IF c.honest = "slashed" THEN [t EXCEPT !.validators[(IF c.by = "proposer" THEN p ELSE (p + 1) % N) + 1].slashed = TRUE] ELSE t
HeaderCall(t) ==
  LET p == Proposer(t)
      b == [DefaultOf(BlockT[t.fk]) EXCEPT !.slot = CASE c.slot = "now" -> Now [] c.slot = "before" -> Now - 1 [] c.slot = "next" -> Now + 1,
              !.proposer_index = IF c.by = "proposer" THEN p ELSE (p + 1) % N,
              !.parent_root = IF c.parent = "head" THEN HTR(HeaderT, t.latest_block_header) ELSE Tag(9), !.state_root = Tag(8), !.body.graffiti = Tag(7)]
  IN Call("header", [x |-> [message |-> b, signature |-> Zeros(96)]])
HeaderGood == Good
HeaderEffect == s.latest_block_header.slot = Now /\ s.latest_block_header.state_root = ZERO32 /\ s.latest_block_header.proposer_index = Proposer(was)
                /\ s.latest_block_header.parent_root = HTR(HeaderT, was.latest_block_header) /\ [s EXCEPT !.latest_block_header = was.latest_block_header] = was

\* ---- randao
RandaoPre(f) == W0(f, Now)
RandaoCall(t) ==
  LET p == Proposer(t)
      root == SigningRoot(U64, CASE c.msg = "now" -> Ep [] c.msg = "next" -> Ep + 1 [] c.msg = "last" -> Ep - 1, Dom(t, IF c.dom = "randao" THEN D_RANDAO ELSE D_PROPOSER, IF c.ver = "current" THEN Cur(t.fk) ELSE Prev(t.fk)))
  IN Call("randao", [x |-> [DefaultOf(BodyT[t.fk]) EXCEPT !.randao_reveal = SignBy(<<IF c.key = "proposer" THEN p ELSE (p + 1) % N>>, root)]])
RandaoGood == \A x \in {"key", "msg", "dom"} : ~Bad(x, c[x]) /\ (IF c.ver = "current" THEN Cur(was.fk) ELSE Prev(was.fk)) = Cur(was.fk)
RandaoEffect == LET k == (Ep % C.epochs_per_historical_vector) + 1 IN s.randao_mixes[k] # was.randao_mixes[k] /\ [s EXCEPT !.randao_mixes[k] = was.randao_mixes[k]] = was

\* ---- sync aggregates: the signature is on the last block's root, with the version of its slot
SyncPre(f) == W0(f, IF c.at = "edge" THEN StartSlot(Ep) ELSE Now)
SyncOn == CASE c.none # "no" -> <<>> [] c.bits = "some" -> <<1, 3, 4>> [] c.bits = "one" -> <<6>> [] OTHER -> <<1, 2, 3, 4, 5, 6, 7, 8>>
MemberOf(t, k) == IndexOfKey(t, t.current_sync_committee.public_keys[k])
SyncCall(t) ==
  LET on == SyncOn
      by0 == MapS(on, LAMBDA k : MemberOf(t, k))
      by == CASE c.none = "signed" -> <<MemberOf(t, 1)>> [] c.none = "empty" -> <<>> [] c.bits = "more" -> Append(by0, 0) [] c.bits = "fewer" -> Tail(by0) [] OTHER -> by0
      last == t.slot - 1
      due == IF EpochOf(last) < Ep THEN Prev(t.fk) ELSE Cur(t.fk)
      not == IF EpochOf(last) < Ep THEN Cur(t.fk) ELSE Prev(t.fk)
      root == SigningRoot(B32, IF c.root = "last" THEN RootOf(last) ELSE RootOf(last - 1), Dom(t, D_SYNC, IF c.ver = "due" THEN due ELSE not))
  IN Call("sync", [x |-> [sync_committee_bits |-> TLCEval([k \in 1..C.sync_committee_size |-> IF k \in SeqSet(on) THEN 1 ELSE 0]), sync_committee_signature |-> SignBy(by, root)]])
SyncGood == IF c.none = "empty" THEN TRUE ELSE Good
SyncEffect ==
  LET gain == [i \in 0..(N - 1) |-> At(s.balances, i) - At(was.balances, i)]
      seats(i, B) == Cardinality({k \in 1..C.sync_committee_size : MemberOf(was, k) = i /\ (k \in SeqSet(SyncOn)) = B})
      p == Proposer(was)
  IN /\ [s EXCEPT !.balances = was.balances] = was
     \* every seat earns or loses the same; the proposer earns for every one taken
     /\ \E part \in {0, 1} \cup {gain[i] : i \in DOMAIN gain} \cup {-gain[i] : i \in DOMAIN gain} \cup {gain[i] - gain[j] : i, j \in DOMAIN gain} :
          \A i \in DOMAIN gain : i # p => gain[i] = part * (seats(i, TRUE) - seats(i, FALSE))

\* ---- execution payloads
\* (a chain that has merged shows in its last header, whatever little of it is set)
PayloadPre(f) ==
  LET none == DefaultOf(PayloadHeaderT[f])
      t == W0(f, Now)
  IN CASE f = "bellatrix" /\ c.merge = "first" -> [t EXCEPT !.latest_execution_payload_header = none]
       [] c.merge = "thin" -> [t EXCEPT !.latest_execution_payload_header = [none EXCEPT !.block_hash = Tag(7)]]
       [] c.merge = "bare" -> [t EXCEPT !.latest_execution_payload_header = [none EXCEPT !.transactions_root = Tag(8)]]
       [] OTHER -> t
PayloadCall(t) ==
  LET p == [DefaultOf(PayloadT[t.fk]) EXCEPT !.parent_hash = IF c.parent = "head" THEN t.latest_execution_payload_header.block_hash ELSE Tag(99),
              !.prev_randao = RandaoMix(t, IF c.mix = "now" THEN Ep ELSE Ep - 1), !.block_hash = Tag(77), !.transactions = <<"0102", "">>, !.gas_limit = 9, !.extra_data = "aa",
              !.timestamp = t.genesis_time + Now * C.seconds_per_slot + (CASE c.time = "slot" -> 0 [] c.time = "early" -> -1 [] c.time = "late" -> 1)]
      n == CASE c.blobs = "none" -> 0 [] c.blobs \in {"most", "same"} -> C.max_blobs_per_block [] c.blobs = "over" -> C.max_blobs_per_block + 1
      b == [DefaultOf(BodyT[t.fk]) EXCEPT !.execution_payload = p]
  IN Call("payload", [x |-> IF Ge(t.fk, "deneb") THEN [b EXCEPT !.blob_kzg_commitments = TLCEval([k \in 1..n |-> Repeat(IF c.blobs = "same" THEN "c1" ELSE HexByte(200 + k), 48)])] ELSE b, engine |-> c.engine = "yes"])
PayloadGood == /\ \A x \in {"mix", "time", "engine"} : ~Bad(x, c[x])
               /\ (c.parent = "other" => was.fk = "bellatrix" /\ c.merge = "first") /\ (c.blobs = "over" => ~Ge(was.fk, "deneb"))
PayloadEffect == LET h == s.latest_execution_payload_header IN h.block_hash = Tag(77) /\ h.gas_limit = 9 /\ h.transactions_root = HTR(TransactionsT, <<"0102", "">>)
                 /\ [s EXCEPT !.latest_execution_payload_header = was.latest_execution_payload_header] = was

\* ---- consolidations
Y == 4
Make(t, i, how) == LET v == V(t, i)
                       cr == (CASE how = "bls" -> "00" [] how = "comp" -> "02" [] OTHER -> "01") \o Zeros(11) \o (IF i = Y /\ c.addr = "differ" THEN Addr(61) ELSE Addr(60))
                       w == [v EXCEPT !.withdrawal_credentials = cr]
                   IN CASE how = "leaving" -> Leaving(w, Ep + 5) [] how = "unborn" -> [w EXCEPT !.activation_epoch = Ep + 1] [] OTHER -> w
ConsolPre(f) ==
  LET vs == TLCEval([k \in 1..N |-> Val0(k - 1, "comp", IF c.stake = "large" THEN C.max_effective_balance_electra ELSE FullBal)])
      t == [World(f, Now, vs, Effs(vs)) EXCEPT !.fork.epoch = Ep]
      u == SetV(SetV(t, X, Make(t, X, c.src)), Y, Make(t, Y, c.tgt))
  IN IF c.queue = "full" THEN [u EXCEPT !.pending_consolidations = TLCEval([k \in 1..C.pending_consolidations_limit |-> [source_index |-> 0, target_index |-> 1]])] ELSE u
ConsolCall(t) ==
  LET a == IF c.src = "unknown" THEN N ELSE X
      b == CASE c.tgt = "unknown" -> N [] c.tgt = "same" -> a [] OTHER -> Y
      m == [source_index |-> a, target_index |-> b, epoch |-> CASE c.ep = "now" -> Ep [] c.ep = "before" -> Ep - 1 [] c.ep = "next" -> Ep + 1]
      root == SigningRoot(ConsolidationT, m, Dom(t, D_CONSOLIDATION, IF c.sig = "version" THEN Cur(t.fk) ELSE C.genesis_fork_version))
      by == CASE c.sig = "source" -> <<X>> [] c.sig = "target" -> <<Y>> [] OTHER -> <<X, Y>>
  IN Call("consolidation", [x |-> [message |-> m, signature |-> SignBy(by, root)]])
ConsolGood == Good
ConsolEffect == s.pending_consolidations = <<[source_index |-> X, target_index |-> Y]>> /\ V(s, X).exit_epoch >= ActExit(Ep) /\ V(s, Y).exit_epoch = FAR /\ s.balances = was.balances

\* ---- deposits: the branch in the tree of all deposits so far
DepData == LET key == CASE c.key = "new" -> Key(40) [] c.key = "known" -> Key(X) [] c.key = "invalid" -> Repeat("ff", 48)
               d == [public_key |-> key, withdrawal_credentials |-> Cred(c.cred, 60), amount |-> CASE c.amount = "full" -> FullBal [] c.amount = "odd" -> FullBal - 1 [] c.amount = "least" -> 1 [] c.amount = "huge" -> 4 * FullBal + 1]
               ver == IF c.sig = "version" THEN C.altair_fork_version ELSE C.genesis_fork_version
               root == SigningRoot(DepositMessageT, IF c.sig = "amount" THEN [d EXCEPT !.amount = @ + 1] ELSE d, ComputeDomain(D_DEPOSIT, ver, ZERO32))
           IN d @@ [signature |-> IdealSign(Sk(IF c.sig = "other" THEN 41 ELSE IF c.key = "known" THEN X ELSE 40), root)]
\* leaves: some others, ours at position `at`, others
DepAt == 5
DepRoot(k) == IF k = DepAt THEN HTR(DepositDataT, DepData) ELSE Tag(700 + k)
RECURSIVE Node(_, _)
\* the node of depth d (0: leaves) at position p, for 7 leaves
Node(d, p) == IF p * (2^d) >= 7 THEN ZeroHash[d] ELSE IF d = 0 THEN DepRoot(p) ELSE Sha256(Node(d - 1, 2 * p) \o Node(d - 1, 2 * p + 1))
Up(d) == FoldLeft(LAMBDA x, k : Sha256(x \o ZeroHash[k]), Node(3, 0), TLCEval([k \in 1..(d - 3) |-> 2 + k]))
DepTree == Sha256(Up(32) \o LE(7, 8) \o Zeros(24))
Sibling(d) == IF d < 3 THEN LET p == DepAt \div (2^d) IN Node(d, IF p % 2 = 0 THEN p + 1 ELSE p - 1) ELSE ZeroHash[d]
DepProof == TLCEval([k \in 1..33 |-> IF k = 33 THEN LE(7, 8) \o Zeros(24) ELSE IF c.proof = "other" /\ k = 2 THEN Tag(1) ELSE IF c.proof = "depth" /\ k = 32 THEN Tag(1) ELSE Sibling(k - 1)])
DepositPre(f) == [W0(f, Now) EXCEPT !.eth1_deposit_index = CASE c.at = "next" -> DepAt [] c.at = "last" -> DepAt - 1 [] c.at = "later" -> DepAt + 1, !.eth1_data = [deposit_root |-> DepTree, deposit_count |-> 7, block_hash |-> Tag(6)]]
DepositCall(t) == Call("deposit", [x |-> [proof |-> DepProof, data |-> DepData]])
DepositGood == ~Bad("proof", c.proof) /\ ~Bad("at", c.at)
DepositEffect ==
  LET a == DepData.amount
      known == c.key = "known"
      made == c.key = "new" /\ c.sig = "own"
      pend == IF IsE(s) THEN Sum(MapS(s.pending_balance_deposits, LAMBDA d : d.amount)) ELSE 0
  IN /\ s.eth1_deposit_index = was.eth1_deposit_index + 1
     /\ NumV(s) = NumV(was) + (IF made THEN 1 ELSE 0) /\ Len(s.balances) = NumV(s)
     /\ (s.fk # "phase0" => Len(s.inactivity_scores) = NumV(s) /\ Len(s.current_epoch_participation) = NumV(s))
     /\ Sum(s.balances) + pend = Sum(was.balances) + (IF made \/ known THEN a ELSE 0)
     /\ (made => LET v == V(s, N) IN v.public_key = Key(40) /\ ~v.slashed /\ v.activation_epoch = FAR /\ v.exit_epoch = FAR /\ v.effective_balance % EBI = 0 /\ v.effective_balance <= a)

\* ---- attestations: the flags follow from the delay and from what was voted for
Num(x) == CASE x = "0" -> 0 [] x = "1" -> 1 [] x = "2" -> 2 [] x = "3" -> 3 [] x = "4" -> 4 [] x = "5" -> 5 [] x = "8" -> 8
AtSlot == StartSlot(Ep) + (IF c.at = "mid" THEN 2 ELSE 0)
VoteSlot == AtSlot - Num(c.delay)
VoteEp == EpochOf(VoteSlot)
Had == CASE c.had = "nothing" -> 0 [] c.had = "source" -> 1 [] c.had = "all" -> 7
AttestPre(f) ==
  LET n == IF c.many = "two" THEN 20 ELSE 10
      t == [World(f, AtSlot, Plain(n, "eth1"), TLCEval([k \in 1..n |-> FullBal])) EXCEPT !.fork.epoch = Ep, !.fork.previous_version = Prev(f), !.previous_justified_checkpoint = Cp(Ep - 3), !.current_justified_checkpoint = Cp(Ep - 2)]
  IN IF f = "phase0" THEN t ELSE [t EXCEPT !.previous_epoch_participation = TLCEval([k \in 1..n |-> Had]), !.current_epoch_participation = TLCEval([k \in 1..n |-> Had])]
\* the committees meant (a committee beyond the last is written with a bit or index of its own)
Coms(f) == CASE c.com = "first" -> <<0>> [] c.com \in {"second", "index"} -> <<1>> [] c.com = "both" -> IF f = "electra" THEN <<0, 1>> ELSE <<1>> [] c.com = "beyond" -> IF f = "electra" THEN <<1>> ELSE <<2>>
Members(t) == LET ok == SelectSeq(Coms(t.fk), LAMBDA x : x < CommitteesPerSlot(t, VoteEp)) IN FoldLeft(LAMBDA acc, x : acc \o Committee(t, VoteSlot, x), <<>>, ok)
BitsOn(m) == CASE c.bits = "one" -> <<Len(m)>> [] c.bits = "none" -> <<>> [] c.bits = "short" -> Idx(Tail(m)) [] OTHER -> TLCEval([k \in 1..Len(m) |-> k])
AttestCall(t) ==
  LET m == LET x == Members(t) IN IF x = <<>> THEN <<0, 1>> ELSE x
      size == CASE c.bits = "long" -> Len(m) + 1 [] c.bits = "short" -> Len(m) - 1 [] OTHER -> Len(m)
      on == IF c.bits = "none" THEN {} ELSE IF c.bits = "one" THEN {Len(m)} ELSE IF c.bits = "short" THEN 1..(Len(m) - 1) ELSE 1..Len(m)
      due == IF VoteEp = Ep THEN t.current_justified_checkpoint ELSE t.previous_justified_checkpoint
      another == IF VoteEp = Ep THEN t.previous_justified_checkpoint ELSE t.current_justified_checkpoint
      d == [slot |-> VoteSlot, index |-> IF t.fk = "electra" THEN (IF c.com = "index" THEN 1 ELSE 0) ELSE Coms(t.fk)[1],
            beacon_block_root |-> IF c.head = "right" THEN RootOf(VoteSlot) ELSE Tag(9),
            source |-> CASE c.source = "due" -> due [] c.source = "epoch" -> [due EXCEPT !.epoch = @ + 1] [] c.source = "root" -> [due EXCEPT !.root = Tag(9)] [] c.source = "another" -> another,
            target |-> [epoch |-> IF c.target = "epoch" THEN (IF VoteEp = Ep THEN Ep - 1 ELSE Ep) ELSE VoteEp, root |-> IF c.target = "other" THEN Tag(9) ELSE RootOf(StartSlot(VoteEp))]]
      who == MapS(Ascending(on), LAMBDA k : m[k])
      by == CASE c.sig = "missing" -> (IF Len(who) < 2 THEN <<19>> ELSE Tail(who)) [] c.sig = "extra" -> Append(who, 19) [] OTHER -> who
      v1 == IF d.target.epoch < Ep THEN Prev(t.fk) ELSE Cur(t.fk)
      v2 == IF d.target.epoch < Ep THEN Cur(t.fk) ELSE Prev(t.fk)
      sig == SignBy(by, SigningRoot(AttDataT, d, Dom(t, D_ATTESTER, IF c.sig = "version" THEN v2 ELSE v1)))
      base == [aggregation_bits |-> TLCEval([k \in 1..size |-> IF k \in on THEN 1 ELSE 0]), data |-> d, signature |-> sig]
  IN Call("attestation", [x |-> IF t.fk = "electra" THEN base @@ [committee_bits |-> TLCEval([k \in 1..C.max_committees_per_slot |-> IF (k - 1) \in SeqSet(Coms(t.fk)) THEN 1 ELSE 0])] ELSE base])
AttestGood ==
  LET f == was.fk
      deneb == Ge(f, "deneb")
  IN /\ c.delay \in {"1", "2", "3", "4"} \/ (c.delay = "5" /\ deneb /\ c.at = "mid")
     /\ \A x \in {"source", "target", "bits"} : ~Bad(x, c[x])
     /\ c.sig = "own" \/ (c.sig = "version" /\ Prev(f) = Cur(f))
     /\ c.com = "first" \/ (c.many = "two" /\ c.com \in {"second", "both"}) \/ (c.many = "two" /\ f = "electra" /\ c.com = "beyond") \/ (c.many = "two" /\ f # "electra" /\ c.com = "index")
AttestEffect ==
  LET m == Members(was)
      who == IF c.bits = "one" THEN {m[Len(m)]} ELSE SeqSet(m)
      delay == Num(c.delay)
      cur == VoteEp = Ep
      earned == (IF delay <= 2 THEN {0} ELSE {}) \cup (IF c.target = "right" THEN {1} ELSE {}) \cup (IF c.target = "right" /\ c.head = "right" /\ delay = 1 THEN {2} ELSE {})
      hadSet == {k \in 0..2 : FlagBit(Had, k)}
      n == NumV(s)
      flags(i) == IF i \in who THEN FlagValue(earned \cup hadSet) ELSE Had
      new == earned \ hadSet
      p == Proposer(was)
      base == LET total == FullBal * n IN (FullBal \div EBI) * ((EBI * C.base_reward_factor) \div ISqrt(total))
      weight == (IF 0 \in new THEN 14 ELSE 0) + (IF 1 \in new THEN 26 ELSE 0) + (IF 2 \in new THEN 14 ELSE 0)
  IN IF was.fk = "phase0"
     THEN LET q(t) == IF cur THEN t.current_epoch_attestations ELSE t.previous_epoch_attestations
          IN /\ Len(q(s)) = Len(q(was)) + 1 /\ q(s)[Len(q(s))].inclusion_delay = delay /\ q(s)[Len(q(s))].proposer_index = p
             /\ s = (IF cur THEN [was EXCEPT !.current_epoch_attestations = q(s)] ELSE [was EXCEPT !.previous_epoch_attestations = q(s)])
     ELSE /\ (IF cur THEN s.current_epoch_participation ELSE s.previous_epoch_participation) = TLCEval([k \in 1..n |-> flags(k - 1)])
          /\ s = [(IF cur THEN [was EXCEPT !.current_epoch_participation = s.current_epoch_participation] ELSE [was EXCEPT !.previous_epoch_participation = s.previous_epoch_participation])
                   EXCEPT !.balances = s.balances]
          /\ s.balances = [was.balances EXCEPT ![p + 1] = @ + ((base * weight * Cardinality(who)) \div 448)]
\* including the same attestation again earns nothing
Idle == res = "again" => (s.fk = "phase0" \/ s = was)

Pre(f) == CASE Part = "attest" -> AttestPre(f) [] Part = "exit" -> ExitPre(f) [] Part = "bls" -> BlsPre(f) [] Part = "pslash" -> PSlashPre(f) [] Part = "aslash" -> ASlashPre(f) [] Part = "header" -> HeaderPre(f)
            [] Part = "randao" -> RandaoPre(f) [] Part = "sync" -> SyncPre(f) [] Part = "payload" -> PayloadPre(f) [] Part = "consol" -> ConsolPre(f) [] Part = "deposit" -> DepositPre(f)
Made(t) == CASE Part = "attest" -> AttestCall(t) [] Part = "exit" -> ExitCall(t) [] Part = "bls" -> BlsCall(t) [] Part = "pslash" -> PSlashCall(t) [] Part = "aslash" -> ASlashCall(t) [] Part = "header" -> HeaderCall(t)
            [] Part = "randao" -> RandaoCall(t) [] Part = "sync" -> SyncCall(t) [] Part = "payload" -> PayloadCall(t) [] Part = "consol" -> ConsolCall(t) [] Part = "deposit" -> DepositCall(t)
Right == CASE Part = "attest" -> AttestGood [] Part = "exit" -> ExitGood [] Part = "bls" -> BlsGood [] Part = "pslash" -> PSlashGood [] Part = "aslash" -> ASlashGood [] Part = "header" -> HeaderGood
            [] Part = "randao" -> RandaoGood [] Part = "sync" -> SyncGood [] Part = "payload" -> PayloadGood [] Part = "consol" -> ConsolGood [] Part = "deposit" -> DepositGood
Effect == CASE Part = "attest" -> AttestEffect [] Part = "exit" -> ExitEffect [] Part = "bls" -> BlsEffect [] Part = "pslash" -> PSlashEffect [] Part = "aslash" -> ASlashEffect [] Part = "header" -> HeaderEffect
            [] Part = "randao" -> RandaoEffect [] Part = "sync" -> SyncEffect [] Part = "payload" -> PayloadEffect [] Part = "consol" -> ConsolEffect [] Part = "deposit" -> DepositEffect
Init == c \in Cases /\ s = <<>> /\ res = "start" /\ was \in Fs
Next == \/ res = "start" /\ res' = "made" /\ s' = TLCEval(Pre(was)) /\ was' = s' /\ c' = c
        \/ res = "made" /\ LET m == TLCEval(Made(s))
                               r == Run(s, m.op, m.a)
                           IN res' = (IF r.ok THEN "ok" ELSE "err") /\ s' = (IF r.ok THEN r.s ELSE s) /\ UNCHANGED <<c, was>>
        \/ res = "ok" /\ Part = "attest" /\ LET r == Run(s, "attestation", TLCEval(Made(was)).a) IN res' = (IF r.ok THEN "again" ELSE "bad") /\ s' = (IF r.ok THEN r.s ELSE s) /\ was' = s /\ c' = c
Done == res \in {"ok", "err"}
Accepted == Done => (res = "ok") = Right
Repeats == res # "bad" /\ Idle
Effective == res = "ok" => Effect
=============================================================================
