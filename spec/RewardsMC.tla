----------------------------- MODULE RewardsMC -----------------------------
(* Rewards, penalties and inactivity scores of validators that did any part of their duties, over a few *)
(* epochs, with and without finality.                                                                   *)
EXTENDS Scene
CONSTANTS Fs, Kinds, Depth, Gaps, Rare      \* Gaps: epochs since the last final one; Rare: how many validators may be of a kind other than "all"
VARIABLES s, was, mid, kinds, n
vars == <<s, was, mid, kinds, n>>
N == 5
Ep0 == 40
Scores == <<0, 3, 16, 5, 0>>
Does(k) == CASE k = "all" -> 7 [] k = "slashed" -> 7 [] k = "gone" -> 0 [] k = "out" -> 0 [] k = "none" -> 0 [] k = "source" -> 1 [] k = "headless" -> 3 [] k = "late" -> 6 [] k = "target" -> 2 [] k = "both" -> 3
Sets == {f \in [1..N -> Kinds] : Cardinality({k \in 1..N : f[k] # "all"}) <= Rare}
Shape(v, k, e) == CASE k = "slashed" -> Slashed(v, e - 1, e + 5) [] k = "gone" -> [Slashed(v, e - 3, e) EXCEPT !.withdrawable_epoch = e] [] k = "out" -> Leaving(v, e - 1) [] OTHER -> v
Dress(t, ks) ==
  LET e == CurEp(t)
      u == [t EXCEPT !.validators = TLCEval([k \in 1..N |-> Shape(Val0(k - 1, "eth1", IF k = 2 THEN FullBal \div 2 ELSE FullBal), ks[k], e)])]
  IN IF t.fk = "phase0" THEN [u EXCEPT !.previous_epoch_attestations = PendingBy(u, ks, N - 1)]
     ELSE [u EXCEPT !.previous_epoch_participation = TLCEval([k \in 1..N |-> Does(ks[k])])]
Start(f, gap) ==
  LET t == World(f, LastOf(Ep0), Plain(N, "eth1"), <<FullBal, FullBal \div 2, FullBal, 900, FullBal>>)
      u == [t EXCEPT !.finalized_checkpoint = Cp(Ep0 - 1 - gap), !.previous_justified_checkpoint = Cp(Ep0 - 1 - gap), !.current_justified_checkpoint = Cp(Ep0 - 1 - gap)]
  IN IF f = "phase0" THEN u ELSE [u EXCEPT !.inactivity_scores = Scores]
Init == /\ n = 0 /\ kinds = <<>> /\ was = <<>> /\ mid = <<>>
        /\ \E f \in Fs, g \in Gaps : s = Start(f, g)
Epoch == /\ n < Depth
         /\ \E ks \in Sets : /\ kinds' = ks
              /\ was' = TLCEval(Dress(IF n = 0 THEN s ELSE Tick(s), ks))
              /\ mid' = (IF was'.fk = "phase0" THEN was' ELSE Run(was', "ep.inactivity", NoArg).s)
              /\ s' = Run(mid', "ep.rewards", NoArg).s
         /\ n' = n + 1
Next == Epoch
Ids == 1..N
Gain(i) == s.balances[i] - was.balances[i]
P0 == s.fk = "phase0"
Active == {i \in Ids : kinds[i] \notin {"gone", "out", "slashed"}}    \* active in the epochs concerned
Owing == {i \in Ids : kinds[i] \notin {"gone", "out"}}
Leak == CurEp(s) - 1 - s.finalized_checkpoint.epoch > C.min_epochs_to_inactivity_penalty
Eff(i) == s.validators[i].effective_balance
Total == LET A == {i \in Ids : kinds[i] \notin {"gone", "out", "slashed"}} IN MaxI(EBI, Sum(MapS(Ascending(A), Eff)))
Base(i) == IF P0 THEN ((Eff(i) * C.base_reward_factor) \div ISqrt(Total)) \div 4 ELSE (Eff(i) \div EBI) * ((EBI * C.base_reward_factor) \div ISqrt(Total))
Ran == n > 0
\* only balances, and scores where there are any, change
Only == Ran => s = [was EXCEPT !.balances = s.balances] \/ (~P0 /\ s = [was EXCEPT !.balances = s.balances, !.inactivity_scores = s.inactivity_scores])
NoDebt == Ran => \A i \in Ids : s.balances[i] >= 0
Exempt == Ran => \A i \in Ids \ Owing : (P0 /\ i = N) \/ Gain(i) = 0
\* slashed validators, those that did nothing, never gain; the last validator is the proposer of phase 0's attestations
NeverGain == Ran => \A i \in Owing : kinds[i] \in {"slashed", "none"} /\ (P0 => i # N) => Gain(i) <= 0 /\ (Gain(i) < 0 \/ was.balances[i] = 0)
NoPunishment == Ran => \A i \in Active : kinds[i] = "all" /\ (P0 \/ mid.inactivity_scores[i] = 0 \/ TRUE) => Gain(i) >= 0
LeakRewardsNobody == Ran /\ Leak => \A i \in Owing : (P0 /\ i = N) \/ Gain(i) <= 0
\* doing more is never worse
Monotone == Ran => \A i, j \in Active : (Eff(i) = Eff(j) /\ (P0 => N \notin {i, j}) /\ was.balances[i] > 20000 /\ was.balances[j] > 20000
               /\ (P0 \/ mid.inactivity_scores[i] = mid.inactivity_scores[j])
               /\ <<kinds[i], kinds[j]>> \in {<<"none", "source">>, <<"source", "headless">>, <<"headless", "all">>, <<"late", "all">>, <<"none", "late">>, <<"none", "all">>, <<"source", "all">>})
               => Gain(i) <= Gain(j)
\* all that is paid out stays within the base rewards (of phase 0: four times them)
Budget == Ran => Sum(MapS(Ascending({i \in Ids : Gain(i) > 0}), Gain)) <= (IF P0 THEN 4 ELSE 1) * Sum(MapS(Ascending(Active), Base))
\* a validator that did nothing loses the source's and the target's weight, and more for its score
Bill == Ran /\ ~P0 => \A i \in Owing : kinds[i] \in {"none", "slashed"} =>
   Gain(i) = -MinI(was.balances[i], ((Base(i) * 14) \div 64) + ((Base(i) * 26) \div 64)
                    + MulDiv(Eff(i), mid.inactivity_scores[i], C.inactivity_score_bias * InactQuot(s.fk)))
Headless == Ran /\ ~P0 /\ ~Leak => \A i \in Active : kinds[i] = "headless" => Gain(i) >= 0
Good(i) == kinds[i] \in {"all", "headless", "late", "target", "both"}
ScoreRule == Ran /\ ~P0 => \A i \in Ids :
   LET b == was.inactivity_scores[i]
       a == mid.inactivity_scores[i]
       moved == IF Good(i) THEN MaxI(0, b - 1) ELSE b + C.inactivity_score_bias
   IN a = (IF i \notin Owing THEN b ELSE IF Leak THEN moved ELSE MaxI(0, moved - C.inactivity_score_recovery_rate)) /\ s.inactivity_scores[i] = a
=============================================================================
