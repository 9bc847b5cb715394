------------------------------ MODULE Overlay ------------------------------
(* How the fork specifications are laid over each other by `spec-gen forks`.                            *)
(*                                                                                                      *)
(* A fork is a list of items, each [k kind, n name, m module, v public, g const parameters, lt          *)
(* lifetimes, tp type parameters <<[n, b bound, a arguments of the bound]>>, ts the named types its     *)
(* signature and body mention <<[w where, c name, h has arguments, a arguments]>>, u const parameters   *)
(* the body mentions, b the body]. The view a fork offers is its own public items over everything the   *)
(* fork before it offers under another name. A function that is inherited but speaks of a container     *)
(* the fork redefines is written out again, for the new container; everything else is re-exported       *)
(* from where it lives.                                                                                 *)
EXTENDS Bytes, SequencesExt, FiniteSets, Json
Forks == <<"phase0", "altair", "bellatrix", "capella", "deneb", "electra">>
\* what each fork is read from
Modules == [
  phase0 |-> {"beacon_block", "beacon_state", "block_processing", "constants", "epoch_processing", "genesis", "helpers", "operations",
              "slot_processing", "state_transition", "validator"},
  altair |-> {"beacon_block", "beacon_state", "block_processing", "constants", "epoch_processing", "genesis", "helpers", "light_client",
              "sync", "validator"},
  bellatrix |-> {"beacon_block", "beacon_state", "blinded_beacon_block", "block_processing", "epoch_processing", "execution_payload",
                 "fork_choice", "genesis", "helpers", "state_transition"},
  capella |-> {"beacon_block", "beacon_state", "blinded_beacon_block", "block_processing", "bls_to_execution_change",
               "epoch_processing", "execution_payload", "genesis", "helpers", "light_client", "withdrawal"},
  deneb |-> {"beacon_block", "beacon_state", "blinded_beacon_block", "blob_sidecar", "block_processing", "epoch_processing",
             "execution_engine", "execution_payload", "genesis", "helpers", "light_client"},
  electra |-> {"beacon_block", "beacon_state", "block_processing", "constants", "epoch_processing", "execution_engine",
               "execution_payload", "genesis", "helpers", "operations"}]
\* phase 0 functions over pending attestations, which Altair does away with
Dropped == {"get_unslashed_attesting_indices", "get_matching_source_attestations", "get_matching_target_attestations",
            "get_matching_head_attestations", "get_source_deltas", "get_target_deltas", "get_head_deltas", "get_inclusion_delay_deltas",
            "get_inactivity_penalty_deltas", "get_attestation_deltas", "get_attestation_component_deltas", "get_attesting_balance",
            "process_participation_record_updates"}

Names(s) == {s[j].n : j \in DOMAIN s}
Own(items, fork) == SelectSeq(items, LAMBDA x : x.v /\ x.m \in Modules[fork])
Dedup(s) == FoldSeq(LAMBDA x, acc : IF x \in Range(acc) THEN acc ELSE Append(acc, x), <<>>, s)
OfKind(s, k) == TLCEval([n \in {x.n : x \in {y \in Range(s) : y.k = k}} |-> (CHOOSE x \in Range(s) : x.k = k /\ x.n = n).g])
Signed(t) == t.w \notin {"expr", "tuple"}          \* appears as a path or reference of the signature, or a typed `let`

\* item x of an earlier fork, written for the containers st (name -> const parameters) this fork redefines
Touched(x, st) == SelectSeq(x.ts, LAMBDA t : Signed(t) /\ t.c \in DOMAIN st)
Adapt(x, st, tr, fork) ==
  LET hit == Touched(x, st)
      redefined == {t.c : t \in Range(hit)}
      ts == [j \in DOMAIN x.ts |-> IF x.ts[j].c \in redefined /\ x.ts[j].h THEN [x.ts[j] EXCEPT !.a = st[x.ts[j].c]] ELSE x.ts[j]]
      tp == [j \in DOMAIN x.tp |-> IF x.tp[j].b \in DOMAIN tr /\ x.tp[j].h THEN [x.tp[j] EXCEPT !.a = tr[x.tp[j].b]] ELSE x.tp[j]]
      used == UNION {Range(ts[j].a) : j \in DOMAIN ts} \cup UNION {Range(tp[j].a) : j \in DOMAIN tp} \cup Range(x.u)
      from == Dedup(FlattenSeq([j \in DOMAIN hit |-> st[hit[j].c]]))
  IN [x EXCEPT !.g = from \o SelectSeq(x.g, LAMBDA p : p \in used /\ p \notin Range(from)),
               !.ts = ts, !.tp = tp, !.o = fork, !.m = "spec", !.gen = TRUE]

View(prev, items, fork) ==
  LET own == TLCEval(Own(items, fork))
      names == TLCEval(Names(own))
      st == OfKind(own, "struct")
      tr == OfKind(own, "trait")
      kept == SelectSeq(prev, LAMBDA x : x.n \notin names /\ ~(fork = "altair" /\ x.k = "fn" /\ x.n \in Dropped))
  IN TLCEval([j \in 1..Len(own) |-> own[j] @@ [o |-> fork, gen |-> FALSE]]
       \o [j \in 1..Len(kept) |-> IF kept[j].k = "fn" /\ Touched(kept[j], st) # <<>> THEN Adapt(kept[j], st, tr, fork)
                                  ELSE [kept[j] EXCEPT !.gen = FALSE]])
RECURSIVE Views(_, _)
Views(forks, i) == IF i = 0 THEN <<>>
                   ELSE LET before == TLCEval(Views(forks, i - 1))
                        IN Append(before, View(IF i = 1 THEN <<>> ELSE before[i - 1], forks[i], Forks[i]))

\* what the generated module must hold: what it re-exports, and the functions it defines
Path(x) == "crate::" \o x.o \o "::" \o x.m \o "::" \o x.n
Always(fork) == {"crate::primitives::*", "crate::signing::*", "crate::error::*", "crate::state_transition::Result",
                 "crate::state_transition::Context", "crate::state_transition::Validation"}
                \cup IF fork = "phase0" THEN {} ELSE {"crate::" \o fork \o "::fork::upgrade_to_" \o fork}
OrEmpty(f) == IF DOMAIN f = {} THEN "empty" ELSE f
Shape(x) == [g |-> x.g, lt |-> OrEmpty([l \in Range(x.lt) |-> 1]), tp |-> [j \in DOMAIN x.tp |-> [n |-> x.tp[j].n, b |-> x.tp[j].b, a |-> x.tp[j].a]],
             ts |-> [j \in DOMAIN x.ts |-> [c |-> x.ts[j].c, a |-> x.ts[j].a]], b |-> x.b]
Generated(v, fork) ==
  LET gen == {x \in Range(v) : x.gen}
  IN [uses |-> [p \in Always(fork) \cup {Path(x) : x \in {y \in Range(v) : ~y.gen}} |-> 1],
      fns |-> OrEmpty([n \in {x.n : x \in gen} |-> Shape(CHOOSE x \in gen : x.n = n)])]
Answer(op, a) ==
  LET v == Views(a.forks, 6)
  IN [f \in Range(Forks) |-> Generated(v[CHOOSE i \in 1..6 : Forks[i] = f], f)] @@ [same |-> TRUE]

\* ---- what a fork's view is for (checked on every bounded tree by OverlayMC)
\* every name is offered once
OnceEach(v) == \A i \in DOMAIN v : Cardinality(Names(v[i])) = Len(v[i])
\* nothing is lost: a fork offers what it defines and whatever the fork before it offered, but for what Altair drops
Complete(forks, v) ==
  \A i \in DOMAIN v : Names(v[i]) = Names(Own(forks[i], Forks[i]))
     \cup (IF i = 1 THEN {} ELSE {x.n : x \in {y \in Range(v[i - 1]) : ~(i = 2 /\ y.k = "fn" /\ y.n \in Dropped)}})
\* the newest definition wins: an item's origin is the last fork that defines the name, or that redefines a container it speaks of
Newest(forks, v) ==
  \A i \in DOMAIN v : \A x \in Range(v[i]) :
    \A j \in 1..i : LET own == Own(forks[j], Forks[j]) IN
       x.n \in Names(own) => (CHOOSE k \in 1..6 : Forks[k] = x.o) >= j
\* every container a function speaks of, it speaks of as this fork defines it
Consistent(forks, v) ==
  \A i \in DOMAIN v : LET st == OfKind(v[i], "struct") IN
    \A x \in Range(v[i]) : x.k = "fn" => \A j \in DOMAIN x.ts :
      Signed(x.ts[j]) /\ x.ts[j].h /\ x.ts[j].c \in DOMAIN st => x.ts[j].a = st[x.ts[j].c]
\* whatever is written out again declares every parameter it mentions
Declared(v) ==
  \A i \in DOMAIN v : \A x \in Range(v[i]) :
    x.gen => UNION {Range(x.ts[j].a) : j \in DOMAIN x.ts} \cup UNION {Range(x.tp[j].a) : j \in DOMAIN x.tp} \cup Range(x.u) \subseteq Range(x.g)
=============================================================================
