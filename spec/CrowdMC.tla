------------------------------- MODULE CrowdMC -------------------------------
(* Many validators at once: crowds that wait for activation in mixed order, that leave in one epoch, or that are *)
(* slashed together; far more than one epoch admits.                                                              *)
EXTENDS Scene
CONSTANTS Fs, Sizes, Strides, Part
VARIABLES s, done, left, w0
vars == <<s, done, left, w0>>
Ep == 6
Old == 5                                \* validators that are there already
\* how the eligibility epochs, or the order of leaving, are mixed
Mix(step, n, k) == (k * step) % n
Elig(step, k) == 1 + (((k * step) \div 7) % 3)
Joining(f, n, step) ==
  LET vs == TLCEval([k \in 1..(Old + n) |-> IF k <= Old THEN Val0(k - 1, "eth1", FullBal)
                ELSE [Waiting(Val0(k - 1, "eth1", FullBal)) EXCEPT !.activation_eligibility_epoch = Elig(step, k)]])
  IN [World(f, LastOf(Ep), vs, Effs(vs)) EXCEPT !.finalized_checkpoint = Cp(3)]
Ejecting(f, n, step) ==
  LET vs == TLCEval([k \in 1..(Old + n) |-> IF k <= Old THEN Val0(k - 1, "eth1", FullBal)
                ELSE [Val0(k - 1, "eth1", FullBal) EXCEPT !.effective_balance = IF Mix(step, 5, k) < 3 THEN C.ejection_balance ELSE FullBal - EBI * Mix(step, 3, k)]])
  IN [World(f, LastOf(Ep), vs, Effs(vs)) EXCEPT !.finalized_checkpoint = Cp(3)]
Leavers(f, n) == LET vs == TLCEval([k \in 1..(Old + n) |-> Val0(k - 1, "eth1", FullBal)]) IN [World(f, LastOf(Ep), vs, Effs(vs)) EXCEPT !.finalized_checkpoint = Cp(3)]
Begin(f, n, step) == CASE Part = "join" -> Joining(f, n, step) [] Part = "eject" -> Ejecting(f, n, step) [] Part = "leave" -> Leavers(f, n)
Init == /\ \E f \in Fs, n \in Sizes, step \in Strides : w0 = [f |-> f, n |-> n, step |-> step] /\ s = [slot |-> 0]
        /\ done = -1 /\ left = <<>>
Make == /\ done = -1 /\ done' = 0 /\ s' = Begin(w0.f, w0.n, w0.step) /\ UNCHANGED w0
        /\ left' = IF Part = "leave" THEN TLCEval([k \in 1..w0.n |-> Old + Mix(w0.step, w0.n, k)]) ELSE <<>>
\* epochs until all are in, or out
Epochs == /\ done \in 0..7 /\ Part # "leave" /\ done' = done + 1 /\ s' = Tick(Run(s, "ep.registry", NoArg).s) /\ UNCHANGED <<left, w0>>
\* some of those who left are slashed before the next leaves
Caught(t, i) == IF w0.step = 1 \/ i % 3 # 0 THEN t
                ELSE [t EXCEPT !.validators[i + 1].slashed = TRUE, !.validators[i + 1].withdrawable_epoch = MaxI(@, Ep + C.epochs_per_slashings_vector) + 9]
Leave == /\ done >= 0 /\ left # <<>> /\ s' = Caught(Run(s, "initiate_exit", [i |-> Head(left)]).s, Head(left)) /\ left' = Tail(left) /\ UNCHANGED <<done, w0>>
Next == Make \/ Epochs \/ Leave
Up == done >= 0
All == 1..NumV(s)
V1(k) == s.validators[k]
Electra == IsE(s)
ChurnKept == (Up /\ ~Electra) =>
  /\ \A e \in {V1(k).exit_epoch : k \in All} \ {FAR} : Cardinality({k \in All : V1(k).exit_epoch = e}) <= Churn(Begin(w0.f, w0.n, w0.step))
  /\ \A e \in {V1(k).activation_epoch : k \in All} \ {0, FAR} : Cardinality({k \in All : V1(k).activation_epoch = e}) <= Churn(s)
Fifo == Up => \A j, k \in All :
  (V1(j).activation_eligibility_epoch < V1(k).activation_eligibility_epoch \/ (V1(j).activation_eligibility_epoch = V1(k).activation_eligibility_epoch /\ j < k))
  => (V1(k).activation_epoch = FAR \/ V1(j).activation_epoch <= V1(k).activation_epoch)
\* those ejected together leave in the order of the registry; those who ask, in the order of asking
InTurn == Up => IF Part = "leave"
  THEN LET gone == TLCEval([k \in 1..(w0.n - Len(left)) |-> Old + Mix(w0.step, w0.n, k)]) IN \A j, k \in DOMAIN gone : (j < k /\ \A i \in 1..(k - 1) : gone[i] # gone[k]) => V(s, gone[j]).exit_epoch <= V(s, gone[k]).exit_epoch
  ELSE \A j, k \in All : (j < k /\ V1(j).exit_epoch # FAR /\ V1(k).exit_epoch # FAR) => V1(j).exit_epoch <= V1(k).exit_epoch
Everyone == (Up /\ done > 0 /\ Part = "eject") => \A k \in All : V1(k).effective_balance <= C.ejection_balance => V1(k).exit_epoch # FAR
=============================================================================
