------------------------------- MODULE Eth1MC -------------------------------
(* Every sequence of votes of a voting period, over a few candidates. *)
EXTENDS Scene
CONSTANTS Fs, Cands
VARIABLES s, votes, was
vars == <<s, votes, was>>
Period == C.epochs_per_eth1_voting_period * SPE
Start == 4 * SPE
\* the others differ from the first in one part each
Data(c) == [deposit_root |-> Tag(IF c = 4 THEN 501 ELSE 500), deposit_count |-> IF c = 3 THEN 5 ELSE 4, block_hash |-> Tag(IF c = 2 THEN 601 ELSE 600)]
Init == /\ \E f \in Fs : s = World(f, Start, Plain(4, "eth1"), TLCEval([k \in 1..4 |-> FullBal]))
        /\ votes = <<>> /\ was = s.eth1_data
Vote == /\ Len(votes) < Period
        /\ \E c \in Cands : /\ c <= 1 + MaxI(0, IF votes = <<>> THEN 0 ELSE MaxOf(SeqSet(votes)))        \* new candidates come in order
                              /\ votes' = Append(votes, c)
                              /\ s' = [Run(s, "eth1", [x |-> [DefaultOf(BodyT[s.fk]) EXCEPT !.eth1_data = Data(c)]]).s EXCEPT !.slot = @ + 1]
        /\ UNCHANGED was
Close == /\ Len(votes) = Period \/ (Len(votes) = SPE /\ s.slot = Start + SPE)
         /\ s' = Run([s EXCEPT !.slot = @ - 1], "ep.eth1_reset", NoArg).s /\ votes' = <<-1>> /\ UNCHANGED was
Next == votes # <<-1>> /\ (Vote \/ Close)
Count(c) == Cardinality({k \in 1..Len(votes) : votes[k] = c})
Open == votes # <<-1>>
Majority == Open => s.eth1_data = (LET M == {c \in Cands : 2 * Count(c) > Period} IN IF M = {} THEN was ELSE Data(CHOOSE c \in M : TRUE))
Recorded == Open => s.eth1_data_votes = MapS(votes, Data)
Cleared == ~Open => ((s.eth1_data_votes = <<>>) = (s.slot % Period = Period - 1))
Stays == [][~Vote => s'.eth1_data = s.eth1_data]_vars
=============================================================================
