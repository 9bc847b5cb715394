----------------------------- MODULE RegistryMC -----------------------------
(* Validators joining, being activated, leaving and being ejected over several epochs. *)
EXTENDS Scene
CONSTANTS Fs, Depth, Actives, Joins, Exits
VARIABLES s, e0, joined, exited
vars == <<s, e0, joined, exited>>
Start == 4
Init == \E f \in Fs, n \in Actives :
  /\ s = [World(f, LastOf(Start), Plain(n, "eth1"), TLCEval([k \in 1..n |-> FullBal])) EXCEPT !.finalized_checkpoint = Cp(1)]
  /\ e0 = Start /\ joined = 0 /\ exited = 0
Join == /\ joined < Joins /\ joined' = joined + 1
        /\ \E eff \in {FullBal, FullBal - EBI} :
             LET v == [Waiting(Val0(NumV(s), "eth1", FullBal)) EXCEPT !.effective_balance = eff]
                 t == [s EXCEPT !.validators = Append(@, v), !.balances = Append(@, FullBal)]
             IN s' = IF s.fk = "phase0" THEN t
                     ELSE [t EXCEPT !.previous_epoch_participation = Append(@, 0), !.current_epoch_participation = Append(@, 0), !.inactivity_scores = Append(@, 0)]
        /\ UNCHANGED <<e0, exited>>
Exit == /\ exited < Exits /\ exited' = exited + 1
        /\ \E i \in 0..1 : V(s, i).exit_epoch = FAR /\ s' = Run(s, "initiate_exit", [i |-> i]).s
        /\ UNCHANGED <<e0, joined>>
Weaken == /\ exited < Exits /\ exited' = exited + 1
          /\ \E i \in 1..2, eff \in {C.ejection_balance, C.ejection_balance + EBI} :
               V(s, i).effective_balance = FullBal /\ s' = [s EXCEPT !.validators[i + 1].effective_balance = eff, !.balances[i + 1] = eff]
          /\ UNCHANGED <<e0, joined>>
Epoch1 == /\ CurEp(s) < Start + Depth
          /\ \E lag \in {1, 2} :
               LET t == [s EXCEPT !.finalized_checkpoint = Cp(MaxI(s.finalized_checkpoint.epoch, CurEp(s) - lag))]
               IN s' = Tick(Run(t, "ep.registry", NoArg).s)
          /\ UNCHANGED <<e0, joined, exited>>
Next == Join \/ Exit \/ Weaken \/ Epoch1
All == 1..NumV(s)
W(k) == s.validators[k]
Electra == IsE(s)
ExitChurn == Electra \/ \A e \in {W(k).exit_epoch : k \in All} \ {FAR} : Cardinality({k \in All : W(k).exit_epoch = e}) <= Churn(s)
\* electra: a validator leaves when the churn up to its epoch has paid for its whole balance
BalanceBudget == ~Electra \/ \A e \in {W(k).exit_epoch : k \in All} \ {FAR} :
  LET out == {k \in All : W(k).exit_epoch <= e}
      first == MinOf({W(k).exit_epoch : k \in out})
  IN Sum(MapS(Ascending(out), LAMBDA k : W(k).effective_balance)) <= ActExitChurn(s) * (e - (Start + 1 + C.max_seed_lookahead) + 1)
ActivationChurnKept == Electra \/ \A e \in {W(k).activation_epoch : k \in All} \ {0, FAR} :
  Cardinality({k \in All : W(k).activation_epoch = e}) <= (IF Ge(s.fk, "deneb") THEN ActivationChurn(s) ELSE Churn(s))
Fifo == \A j, k \in All :
  (W(j).activation_eligibility_epoch < W(k).activation_eligibility_epoch \/ (W(j).activation_eligibility_epoch = W(k).activation_eligibility_epoch /\ j < k))
  => (W(k).activation_epoch = FAR \/ W(j).activation_epoch <= W(k).activation_epoch)
Matched == \A k \in All : (W(k).exit_epoch = FAR) = (W(k).withdrawable_epoch = FAR) /\ (W(k).exit_epoch # FAR => W(k).withdrawable_epoch = W(k).exit_epoch + C.min_validator_withdrawability_delay)
\* what one step may do to one validator
Allowed(v, w, e, fin) ==
  /\ v.activation_epoch # w.activation_epoch => v.activation_epoch = FAR /\ w.activation_epoch = e + 1 + C.max_seed_lookahead /\ w.activation_eligibility_epoch <= fin
  /\ v.activation_eligibility_epoch # w.activation_eligibility_epoch => v.activation_eligibility_epoch = FAR /\ w.activation_eligibility_epoch = e + 1
  /\ v.exit_epoch # w.exit_epoch => v.exit_epoch = FAR /\ w.exit_epoch >= e + 1 + C.max_seed_lookahead
Steps1 == [][\A k \in All : Allowed(s.validators[k], s'.validators[k], CurEp(s), s'.finalized_checkpoint.epoch)]_vars
\* nobody whose eligibility is final waits while the epoch's activations are fewer than allowed
NoIdle == [][(Epoch1 /\ ~Electra) =>
   LET now == {k \in All : s.validators[k].activation_epoch = FAR /\ s'.validators[k].activation_epoch # FAR}
       left == {k \in All : s'.validators[k].activation_epoch = FAR /\ s'.validators[k].activation_eligibility_epoch <= s'.finalized_checkpoint.epoch}
   IN left = {} \/ Cardinality(now) = (IF Ge(s.fk, "deneb") THEN ActivationChurn(s) ELSE Churn(s))]_vars
Ejected == [][Epoch1 => \A k \in All : s.validators[k].effective_balance <= C.ejection_balance /\ IsActive(s.validators[k], CurEp(s)) => s'.validators[k].exit_epoch # FAR]_vars
=============================================================================
