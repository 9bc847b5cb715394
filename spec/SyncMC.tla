------------------------------- MODULE SyncMC -------------------------------
(* Sync aggregates over committees in which the proposer has seats of its own and members are almost out of money: *)
(* rewards and penalties are settled seat by seat, in order, and a balance that ran empty on the way stays cut off. *)
EXTENDS Scene
CONSTANTS Fs, Poor, Off
VARIABLES w, was, s
vars == <<w, was, s>>
N == 8
Ep == 5
SeatsN == C.sync_committee_size
SeatSets == {{}, {1}, {2}, {SeatsN}, {1, 2}, {1, SeatsN}, {2, SeatsN}, {3, 4, 5}, 1..SeatsN}
OffSets == {S \in SUBSET (1..SeatsN) : Cardinality(S) <= Off \/ Cardinality(S) >= SeatsN - 1}
World0(f) == World(f, StartSlot(Ep) + 2, Plain(N, "eth1"), TLCEval([k \in 1..N |-> FullBal]))
\* the member on each seat; the poor one with seats is the proposer, or its neighbour
Member(p, x, k) == LET m == IF x.who = "proposer" THEN p ELSE (p + 1) % N IN IF k \in x.seats THEN m ELSE (p + 2 + (k % (N - 2))) % N
Made(x) ==
  LET t == World0(x.f)
      p == Proposer(t)
      sc == [DefaultOf(SyncCommitteeT) EXCEPT !.public_keys = TLCEval([k \in 1..SeatsN |-> V(t, Member(p, x, k)).public_key]), !.aggregate_public_key = V(t, p).public_key]
  IN [t EXCEPT !.current_sync_committee = sc, !.next_sync_committee = sc, !.fork.epoch = Ep - 1, !.balances[(IF x.who = "proposer" THEN p ELSE (p + 1) % N) + 1] = x.bal]
CallOf(t, x) ==
  LET p == Proposer(t)
      on == SelectSeq([k \in 1..SeatsN |-> k], LAMBDA k : k \notin x.off)
      root == SigningRoot(B32, BlockRootAt(t, t.slot - 1), ComputeDomain(D_SYNC, t.fork.current_version, t.genesis_validators_root))
  IN Call("sync", [x |-> [sync_committee_bits |-> TLCEval([k \in 1..SeatsN |-> IF k \in x.off THEN 0 ELSE 1]),
                          sync_committee_signature |-> IF on = <<>> THEN SigInfinity ELSE IdealSum(MapS(on, LAMBDA k : IdealSign(Sk(Member(p, x, k)), root)), 96)]])
Init == w \in [f : Fs, who : {"proposer", "other"}, bal : Poor, seats : SeatSets, off : {{}}, done : {FALSE}] /\ was = <<>> /\ s = <<>>
Next == \/ ~w.done /\ was = <<>> /\ was' = TLCEval(Made(w)) /\ UNCHANGED <<w, s>>
        \/ /\ ~w.done /\ was # <<>>
           /\ \E off \in OffSets : w' = [w EXCEPT !.off = off, !.done = TRUE]
           /\ LET cl == TLCEval(CallOf(was, w'))
                  r == Run(was, cl.op, cl.a)
              IN s' = (IF r.ok THEN r.s ELSE Assert(FALSE, "refused")) /\ Behaviour(was, <<cl>>)
           /\ UNCHANGED was
\* what each seat means for validator i, in order; the sum with every cut at nothing left is the largest of the sums over tails
P == Proposer(was)
Part == (((2 * (BaseRewardPerInc(was) * (TotalActive(was) \div EBI))) \div 64) \div SPE) \div SeatsN
Tip == (Part * 8) \div 56
Delta(i, k) == LET mine == Member(P, w, k) = i IN
  IF k \in w.off THEN (IF mine THEN -Part ELSE 0) ELSE (IF mine THEN Part ELSE 0) + (IF i = P THEN Tip ELSE 0)
RECURSIVE Tail_(_, _)
Tail_(i, k) == IF k > SeatsN THEN 0 ELSE Delta(i, k) + Tail_(i, k + 1)
Largest(S) == CHOOSE x \in S : \A y \in S : x >= y
Settled == w.done => \A i \in 0..(N - 1) : At(s.balances, i) = Largest({At(was.balances, i) + Tail_(i, 1)} \cup {Tail_(i, k) : k \in 2..(SeatsN + 1)})
OnlyMoney == w.done => [s EXCEPT !.balances = was.balances] = was
Meant == w.done => Part > 1 /\ Tip > 0
=============================================================================
