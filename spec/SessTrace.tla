----------------------------- MODULE SessTrace -----------------------------
(* Checks recorded sessions: a beacon state of the implementation driven through operations. Every      *)
(* recorded outcome must be the one the specification gives for the recorded state before it. The        *)
(* recorded state, not the specified one, is the next step's starting point, so that every step is       *)
(* judged on its own. Mismatches are emitted; every line must be consumed (distinct states = lines).     *)
EXTENDS Calls
VARIABLES k, s
View == k
Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)

After(t, c) == IF c.full THEN c.d ELSE Merge(t, c.d)
\* Known findings (known_findings.json): the outcome the listed deviation gives, when it is the recorded one.
Matches(e, c, post) == IF ~e.ok THEN c.r = "err"
                       ELSE c.r = "ok" /\ ("s" \in DOMAIN e => Same(e.s, post)) /\ ("v" \in DOMAIN e => Same(e.v, c.v))
Deviations(f) == CASE f \in {"altair", "bellatrix"} -> <<{"exit-maturity"}>>
                   [] f = "capella" -> <<{"exit-maturity"}, {"slash-share"}, {"exit-maturity", "slash-share"}>>
                   [] f = "deneb" -> <<{"slash-share"}>>
                   [] OTHER -> <<>>
Under(d, t, c) == LET a == IF "exit-maturity" \in d THEN "exit-maturity" ELSE "none"
                      b == IF "slash-share" \in d THEN "slash-share" ELSE "none"
                  IN Assuming(a, Assuming(b, Guard(TLCEval(Exp(t, c)), Err)))
BodyOf(c) == IF c.op = "operations" THEN c.a.x ELSE c.a.x.message.body
BlockOps == {"operations", "block", "transition", "in_slot", "exec"}

DevOf(t, c, post) ==
  IF c.r = "panic" THEN
    CASE c.op = "genesis" -> "no-active-sync"
      [] c.op # "genesis" /\ t.slot = 0 -> "root-at-genesis"
      [] c.op \in BlockOps /\ t.slot > 0 /\ t.eth1_deposit_index > MinI(t.eth1_data.deposit_count, BodyOf(c).eth1_data.deposit_count) -> "deposit-count"
      [] OTHER -> IF ActiveIdx(t, CurEp(t) + 1) = <<>> THEN "no-active-sync" ELSE "none"
  ELSE LET ds == Deviations(IF c.op = "exec" THEN c.a.f ELSE t.fk)
           hit == {j \in 1..Len(ds) : Matches(Under(ds[j], t, c), c, post)}
       IN IF hit = {} THEN "none" ELSE IF ds[MinOf(hit)] = {"exit-maturity"} THEN "exit-maturity" ELSE "slash-share"
Verdict(t, c, post) ==
  LET e == Guard(TLCEval(Exp(t, c)), Err) IN
  IF ~e.ok THEN (IF c.r = "err" THEN TRUE ELSE Emit(ToJson([k |-> k + 1, want |-> "err", diff |-> <<>>, dev |-> DevOf(t, c, post)])))
  ELSE IF c.r # "ok" THEN Emit(ToJson([k |-> k + 1, want |-> "ok", diff |-> <<>>, dev |-> DevOf(t, c, post)]))
  ELSE LET sOk == ("s" \notin DOMAIN e) \/ Same(e.s, post)
           vOk == ("v" \notin DOMAIN e) \/ Same(e.v, c.v)
           qOk == ("q" \notin DOMAIN e) \/ Same(e.q, c.q)
           fields == IF sOk THEN {} ELSE {f \in DOMAIN e.s : f \notin DOMAIN post \/ ~Same(e.s[f], post[f])}
       IN IF sOk /\ vOk /\ qOk THEN TRUE
          ELSE Emit(ToJson([k |-> k + 1, want |-> "ok", dev |-> DevOf(t, c, post),
                 diff |-> IF ~vOk THEN [value |-> e.v] ELSE IF ~qOk /\ fields = {} THEN [value |-> e.q] ELSE TLCEval([f \in fields |-> e.s[f]])]))
Start(c) == c.op \in {"init", "genesis"}
Init == \E j \in {j \in 1..N : Start(Trace[j])} :
          /\ k = j
          /\ s = Trace[j].d
Next == \/ /\ k > 0 /\ k < N /\ ~Start(Trace[k + 1])
           /\ LET c == Trace[k + 1]
                  post == TLCEval(After(s, c))
              IN /\ s' = post /\ k' = k + 1
                 /\ IF c.op = "poke" THEN TRUE ELSE Verdict(s, c, post)
        \* the first line of a session begun with genesis
        \/ /\ k > 0 /\ Trace[k].op = "genesis" /\ s' = [s EXCEPT !.fk = @] /\ k' = -k
           /\ LET c == Trace[k]
                  e == Guard(TLCEval(ExpGenesis(c.a)), Err)
              IN IF (e.ok /\ c.r = "ok" /\ Same(e.s, s)) \/ (~e.ok /\ c.r = "err") THEN TRUE
                 ELSE Emit(ToJson([k |-> k, want |-> IF e.ok THEN "ok" ELSE "err", dev |-> IF c.r = "panic" /\ ~e.ok THEN "no-active-sync" ELSE "none",
                        diff |-> IF e.ok /\ c.r = "ok" THEN TLCEval([f \in {f \in DOMAIN e.s : ~Same(e.s[f], s[f])} |-> e.s[f]]) ELSE <<>>]))
=============================================================================
