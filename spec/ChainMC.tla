------------------------------ MODULE ChainMC ------------------------------
(* Whole signed blocks: right or wrong in up to `Wrongs` respects (Part "block"), and chains of blocks *)
(* applied by the executor, across forks, of the due kind or of another (Part "exec").                  *)
EXTENDS Scene
CONSTANTS Fs, Part, Wrongs, Depth, Gaps
VARIABLES s, was, c, res, n
vars == <<s, was, c, res, n>>
N == 8
SignWith(i, root) == IdealSum(<<IdealSign(Sk(i), root)>>, 96)
Pre(f) == ForkVersion(PrevFork(f))
Body(t) ==
  LET f == t.fk
      p == Proposer(t)
      b0 == [DefaultOf(BodyT[f]) EXCEPT !.randao_reveal = SignWith(p, SigningRoot(U64, CurEp(t), DomainAt(t, D_RANDAO, CurEp(t)))), !.eth1_data = t.eth1_data, !.graffiti = Tag(t.slot)]
      b1 == IF f = "phase0" THEN b0 ELSE [b0 EXCEPT !.sync_aggregate.sync_committee_signature = SigInfinity]
      merged == t.latest_execution_payload_header # DefaultOf(PayloadHeaderT[f])
      pay == [DefaultOf(PayloadT[f]) EXCEPT !.parent_hash = t.latest_execution_payload_header.block_hash, !.prev_randao = RandaoMix(t, CurEp(t)), !.block_hash = Tag(9000 + t.slot), !.gas_limit = 7,
                !.timestamp = t.genesis_time + t.slot * C.seconds_per_slot]
      pay2 == IF Ge(f, "capella") THEN [pay EXCEPT !.withdrawals = ExpectedWithdrawals(t)] ELSE pay
  IN IF ~Ge(f, "bellatrix") \/ (f = "bellatrix" /\ ~merged) THEN b1 ELSE [b1 EXCEPT !.execution_payload = pay2]
Unsealed(t) == [DefaultOf(BlockT[t.fk]) EXCEPT !.slot = t.slot, !.proposer_index = Proposer(t), !.parent_root = HTR(HeaderT, t.latest_block_header), !.body = Body(t)]
Sealed(t, b) == LET r == ProcessBlock(t, b, TRUE) IN IF r.ok THEN [b EXCEPT !.state_root = StateRoot(r.s)] ELSE b
Signed(t, b, i, ver) == [message |-> b, signature |-> SignWith(i, SigningRoot(BlockT[t.fk], b, ComputeDomain(D_PROPOSER, ver, t.genesis_validators_root)))]
Whole(t) == LET b == TLCEval(Sealed(t, TLCEval(Unsealed(t)))) IN Signed(t, b, b.proposer_index, t.fork.current_version)
Start(f, slot) ==
  LET t == World(f, slot, Plain(N, "eth1"), TLCEval([k \in 1..N |-> FullBal]))
      u == [t EXCEPT !.fork.epoch = ForkEpochOf(f)]
  IN IF f = "phase0" THEN u ELSE WithSync(u)

\* ---- Part "block"
Dims == <<<<"gap", <<"1", "2", "epoch">>, <<"0">> >>, <<"by", <<"proposer">>, <<"other">> >>, <<"parent", <<"head">>, <<"other">> >>, <<"root", <<"right">>, <<"old", "zero">> >>,
          <<"key", <<"proposer">>, <<"other">> >>, <<"ver", <<"current">>, <<"previous">> >>, <<"reveal", <<"right">>, <<"wrong">> >>, <<"due", <<"nothing">>, <<"deposit">> >>,
          <<"exit", <<"none", "one">>, <<"bad">> >>, <<"pay", <<"right">>, <<"early", "refused">> >>, <<"validate", <<"yes", "no">>, <<>> >>, <<"via", <<"transition", "in_slot">>, <<>> >>, <<"born", <<"before", "now">>, <<>> >>>>
Names == {Dims[k][1] : k \in 1..Len(Dims)}
DimOf(x) == Dims[CHOOSE k \in 1..Len(Dims) : Dims[k][1] = x]
Bad(x) == c[x] \in SeqSet(DimOf(x)[3])
RECURSIVE Vary(_, _, _)
Vary(b, X, k) == IF k = 0 \/ X = {} THEN {b} ELSE UNION {{b} \cup UNION {Vary([b EXCEPT ![x] = v], {y \in X : y # x}, k - 1) : v \in SeqSet(DimOf(x)[2]) \cup SeqSet(DimOf(x)[3])} : x \in X}
Cases == TLCEval(Vary([x \in Names |-> DimOf(x)[2][1]], Names, Wrongs))
Ep == 20
\* (born "now": the fork's first slot, with a block of the epoch before as the parent)
Parent(f) == LET t == IF c.born = "now" THEN [Start(f, StartSlot(Ep)) EXCEPT !.fork.epoch = Ep, !.fork.previous_version = IF f = "phase0" THEN "00000063" ELSE @] ELSE [Start(f, StartSlot(Ep) + 2) EXCEPT !.fork.epoch = Ep - 5] IN IF c.due = "deposit" THEN [t EXCEPT !.eth1_data.deposit_count = N + 1] ELSE t
Gap == CASE c.gap = "0" -> 0 [] c.gap = "1" -> 1 [] c.gap = "2" -> 2 [] c.gap = "epoch" -> SPE + 1
Exit(t, i) ==
  LET m == [epoch |-> Ep, validator_index |-> i]
  IN [message |-> m, signature |-> SignWith(IF c.exit = "bad" THEN i + 1 ELSE i, SigningRoot(VoluntaryExitT, m, ComputeDomain(D_EXIT, IF Ge(t.fk, "deneb") THEN C.capella_fork_version ELSE t.fork.current_version, t.genesis_validators_root)))]
Made(t0) ==
  LET t == IF Gap = 0 THEN t0 ELSE AdvanceTo(t0, t0.slot + Gap)
      p == Proposer(t)
      b0 == TLCEval(Unsealed(t))
      b1 == IF c.by = "other" THEN [b0 EXCEPT !.proposer_index = (p + 1) % N] ELSE b0
      b2 == IF c.parent = "other" THEN [b1 EXCEPT !.parent_root = Tag(99)] ELSE b1
      b3 == IF c.reveal = "wrong" THEN [b2 EXCEPT !.body.randao_reveal = SignWith((p + 1) % N, Tag(9))] ELSE b2
      b4 == IF c.exit = "none" THEN b3 ELSE [b3 EXCEPT !.body.voluntary_exits = <<Exit(t, 5)>>]
      b5 == IF c.pay = "early" /\ Ge(t.fk, "bellatrix") THEN [b4 EXCEPT !.body.execution_payload.timestamp = @ - 1] ELSE b4
      b6 == TLCEval(Sealed(t, b5))
      b7 == CASE c.root = "old" -> [b6 EXCEPT !.state_root = StateRoot(t)] [] c.root = "zero" -> [b6 EXCEPT !.state_root = ZERO32] [] OTHER -> b6
  IN Signed(t, b7, IF c.key = "proposer" THEN b7.proposer_index ELSE (b7.proposer_index + 1) % N, IF c.ver = "current" THEN t.fork.current_version ELSE t.fork.previous_version)
BlockCase ==
  \/ res = "start" /\ res' = "made" /\ was' = TLCEval(Parent(was)) /\ s' = was' /\ UNCHANGED <<c, n>>
  \/ /\ res = "made"
     /\ LET sb == TLCEval(Made(was))
            t == IF c.via = "in_slot" /\ Gap > 0 THEN TLCEval(AdvanceTo(was, was.slot + Gap)) ELSE was
            r == Run(t, c.via, [x |-> sb, validate |-> c.validate = "yes", engine |-> c.pay # "refused"])
        IN res' = (IF r.ok THEN "ok" ELSE "err") /\ s' = (IF r.ok THEN r.s ELSE s) /\ was' = [slot |-> was.slot, fk |-> was.fk, b |-> sb.message, same |-> was.fork.previous_version = was.fork.current_version]
     /\ UNCHANGED <<c, n>>
Right ==
  LET pays == Ge(was.fk, "bellatrix")
  IN /\ \A x \in Names \ {"gap", "root", "key", "ver", "pay"} : ~Bad(x)
     \* in its own slot a block may have the slot of the state
     /\ (c.gap # "0" \/ c.via = "in_slot") /\ (pays => ~Bad("pay"))
     /\ (c.validate = "yes" => ~Bad("root") /\ ~Bad("key") /\ (c.ver = "current" \/ was.same))
Accepted == Part = "block" /\ res \in {"ok", "err"} => (res = "ok") = Right
Effect == Part = "block" /\ res = "ok" =>
  /\ s.slot = was.slot + Gap /\ s.fk = was.fk
  /\ s.latest_block_header = [slot |-> was.b.slot, proposer_index |-> was.b.proposer_index, parent_root |-> was.b.parent_root, state_root |-> ZERO32, body_root |-> HTR(BodyT[s.fk], was.b.body)]
  /\ (c.root = "right") = (StateRoot(s) = was.b.state_root)
  /\ (V(s, 5).exit_epoch # FAR) = (c.exit = "one")

\* ---- Part "exec": n blocks so far; c is the last block's fork
Kinds == {"phase0", "altair", "bellatrix", "capella", "deneb"}
\* the first block may also be the first or second of any later fork, over all the forks between
Leaps == IF n > 0 THEN {} ELSE {StartSlot(ForkEpochOf(f)) + d - s.slot : f \in {h \in Kinds : FNum[h] > FNum[s.fk]}, d \in {0, 1}}
ExecStep ==
  /\ n < Depth /\ res # "err"
  /\ \E g \in Gaps \cup Leaps, k \in {"due", "earlier", "later"} :
       LET slot == s.slot + g
           due == ForkAt(slot)
           f == CASE k = "due" -> due [] k = "earlier" -> PrevFork(due) [] k = "later" -> IF FNum[due] < 5 THEN Forks[FNum[due] + 1] ELSE due
           t == IF f # due \/ FNum[s.fk] > FNum[f] THEN Err
                ELSE LET u == IF s.fk = f THEN Ok(s) ELSE Climb(s, f) IN IF u.ok /\ u.s.slot <= slot THEN Ok(TLCEval(AdvanceTo(u.s, slot))) ELSE Err
           sb == IF t.ok THEN TLCEval(Whole(t.s)) ELSE [message |-> [DefaultOf(BlockT[f]) EXCEPT !.slot = slot, !.parent_root = HTR(HeaderT, s.latest_block_header)], signature |-> Zeros(96)]
       IN /\ due \in Kinds /\ f \in Kinds /\ (k # "due" => f # due)
          /\ LET r == Run(s, "exec", [f |-> f, x |-> sb, validate |-> TRUE, engine |-> TRUE])
             IN res' = (IF r.ok THEN "ok" ELSE "err") /\ s' = (IF r.ok THEN r.s ELSE s)
          /\ was' = [slot |-> s.slot, to |-> slot, fk |-> s.fk, fork |-> s.fork] /\ c' = k
  /\ n' = n + 1
\* a block of the due fork is accepted, one of another is not
ExecAccepted == Part = "exec" /\ n > 0 => (res = "ok") = (c = "due" /\ (was.to > was.slot \/ was.fk # ForkAt(was.to)))
ExecFork == Part = "exec" /\ n > 0 /\ res = "ok" =>
  /\ s.slot = was.to /\ s.fk = ForkAt(s.slot) /\ s.latest_block_header.slot = s.slot
  /\ s.fork.current_version = ForkVersion(s.fk) /\ s.fork.previous_version = ForkVersion(PrevFork(s.fk))
  /\ (s.fk # was.fk => s.fork.epoch = ForkEpochOf(s.fk)) /\ (s.fk = was.fk => s.fork = was.fork)
Unmoved == Part = "exec" /\ n > 0 /\ res = "err" => s.slot = was.slot /\ s.fk = was.fk
\* start a slot or more before a boundary
StartSlots(f) == LET e == (IF f = "phase0" THEN 2 ELSE ForkEpochOf(f) + 2) IN {StartSlot(e) - 1, StartSlot(e) - 3}
Init == /\ n = 0 /\ res = "start"
        /\ IF Part = "block" THEN c \in Cases /\ s = <<>> /\ was \in Fs
           ELSE c = "none" /\ was = <<>> /\ \E f \in Fs : \E d \in StartSlots(f) : s = Start(f, d)
Next == IF Part = "block" THEN BlockCase ELSE ExecStep
=============================================================================
