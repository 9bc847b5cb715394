------------------------------ MODULE SlotsMC ------------------------------
(* Slots with and without blocks, one at a time or several, across the ends of epochs and of all periods: *)
(* what the rings hold and what is due at each boundary.                                                  *)
EXTENDS Scene
CONSTANTS Fs, Starts, Jumps, Depth
VARIABLES s, was, n, fresh
vars == <<s, was, n, fresh>>
N == 6
Block(t, tag) == [t EXCEPT !.latest_block_header = [slot |-> t.slot, proposer_index |-> 1, parent_root |-> Tag(tag), state_root |-> ZERO32, body_root |-> Tag(tag + 1)]]
Mixed(t, tag) == [t EXCEPT !.randao_mixes[(CurEp(t) % C.epochs_per_historical_vector) + 1] = Tag(tag)]
Begin(f, slot) ==
  LET t == World(f, slot, Plain(N, "eth1"), TLCEval([k \in 1..N |-> FullBal]))
      u == [t EXCEPT !.slashings = TLCEval([k \in 1..C.epochs_per_slashings_vector |-> 1000 + k]), !.eth1_data_votes = <<t.eth1_data>>,
                     !.finalized_checkpoint = Cp(MaxI(0, CurEp(t) - 2)), !.previous_justified_checkpoint = Cp(MaxI(0, CurEp(t) - 2)), !.current_justified_checkpoint = Cp(MaxI(0, CurEp(t) - 1))]
      all == TLCEval({0, 1, 2, 3, 4, 5})
  IN IF f = "phase0" THEN Voted(u, IF CurEp(t) = 0 THEN {} ELSE all, {})
     ELSE [WithSync(u) EXCEPT !.previous_epoch_participation = TLCEval([k \in 1..N |-> 7]), !.current_epoch_participation = TLCEval([k \in 1..N |-> 3]), !.next_sync_committee.aggregate_public_key = Key(9)]
Init == n = 0 /\ was = <<>> /\ fresh = FALSE /\ \E f \in Fs, d \in Starts : s = Begin(f, d)
Go == /\ n < Depth
      /\ \E k \in Jumps, b \in BOOLEAN :
           /\ fresh' = b
           /\ was' = TLCEval(IF b THEN Mixed(Block(s, 70 + n), 80 + n) ELSE s)
           /\ s' = Run(was', "slots", [to |-> s.slot + k]).s
      /\ n' = n + 1
Next == Go
Ran == n > 0
SPHR == C.slots_per_historical_root
\* multiples of m after `a`, up to b
Crossed(a, b, m) == (b \div m) - (a \div m)
Slot(r, t) == r[(t % SPHR) + 1]
Ahead == Ran => s.slot > was.slot /\ s.fk = was.fk /\ s.fork = was.fork /\ s.genesis_time = was.genesis_time /\ s.genesis_validators_root = was.genesis_validators_root
\* the header gets the root of the state it led to, once; every slot since has its root
Rings == Ran =>
  /\ s.latest_block_header.state_root = (IF was.latest_block_header.state_root = ZERO32 THEN StateRoot(was) ELSE was.latest_block_header.state_root)
  /\ s.latest_block_header = [was.latest_block_header EXCEPT !.state_root = s.latest_block_header.state_root]
  /\ \A t \in MaxI(0, s.slot - SPHR)..(s.slot - 1) :
       /\ Slot(s.block_roots, t) = (IF t < was.slot THEN Slot(was.block_roots, t) ELSE HTR(HeaderT, s.latest_block_header))
       /\ t < was.slot => Slot(s.state_roots, t) = Slot(was.state_roots, t)
       /\ t = was.slot => Slot(s.state_roots, t) = StateRoot(was)
E1 == CurEp(was)
E2 == CurEp(s)
Passed == (E1 + 1)..E2
Mixes == Ran => \A k \in 1..C.epochs_per_historical_vector :
  s.randao_mixes[k] = (IF \E e \in Passed : e % C.epochs_per_historical_vector = k - 1 THEN RandaoMix(was, E1) ELSE was.randao_mixes[k])
Slashed0 == Ran => \A k \in 1..C.epochs_per_slashings_vector :
  s.slashings[k] = (IF \E e \in Passed : e % C.epochs_per_slashings_vector = k - 1 THEN 0 ELSE was.slashings[k])
Votes == Ran => s.eth1_data_votes = (IF Crossed(E1, E2, C.epochs_per_eth1_voting_period) > 0 THEN <<>> ELSE was.eth1_data_votes) /\ s.eth1_data = was.eth1_data
History == Ran =>
  LET more == Crossed(was.slot, s.slot, SPHR)
  IN IF Ge(s.fk, "capella")
     THEN Len(s.historical_summaries) = Len(was.historical_summaries) + more /\ s.historical_roots = was.historical_roots
     ELSE Len(s.historical_roots) = Len(was.historical_roots) + more
\* the batch appended is that of the rings as they were when it was
Batch == Ran /\ s.slot % SPHR = 0 /\ E2 - E1 = 1 =>
  IF Ge(s.fk, "capella")
  THEN LET h == s.historical_summaries[Len(s.historical_summaries)]
       IN h.block_summary_root = HTR(Vec(B32, SPHR), s.block_roots) /\ h.state_summary_root = HTR(Vec(B32, SPHR), s.state_roots)
  ELSE s.historical_roots[Len(s.historical_roots)] = Sha256(HTR(Vec(B32, SPHR), s.block_roots) \o HTR(Vec(B32, SPHR), s.state_roots))
Rotation == Ran =>
  LET k == E2 - E1
      zero == Zeroes(NumV(s))
  IN IF s.fk = "phase0"
     THEN /\ s.previous_epoch_attestations = (CASE k = 0 -> was.previous_epoch_attestations [] k = 1 -> was.current_epoch_attestations [] OTHER -> <<>>)
          /\ s.current_epoch_attestations = (IF k = 0 THEN was.current_epoch_attestations ELSE <<>>)
     ELSE /\ s.previous_epoch_participation = (CASE k = 0 -> was.previous_epoch_participation [] k = 1 -> was.current_epoch_participation [] OTHER -> zero)
          /\ s.current_epoch_participation = (IF k = 0 THEN was.current_epoch_participation ELSE zero)
SyncTurns == Ran /\ s.fk # "phase0" =>
  LET k == Crossed(E1, E2, C.epochs_per_sync_committee_period)
  IN /\ k = 0 => s.current_sync_committee = was.current_sync_committee /\ s.next_sync_committee = was.next_sync_committee
     /\ k = 1 => s.current_sync_committee = was.next_sync_committee
     /\ k >= 1 => LET q == s.next_sync_committee IN \A j \in 1..Len(q.public_keys) : \E v \in SeqSet(s.validators) : v.public_key = q.public_keys[j]
     \* chosen as of the last turn, for all to compute ahead of time
     /\ (k = 1 /\ E2 % C.epochs_per_sync_committee_period = 0) => s.next_sync_committee = NextSyncCommittee([s EXCEPT !.slot = StartSlot(E2) - 1])
\* within an epoch nothing else moves
Quiet == Ran /\ E1 = E2 => s = [was EXCEPT !.slot = s.slot, !.latest_block_header = s.latest_block_header, !.block_roots = s.block_roots, !.state_roots = s.state_roots]
=============================================================================
