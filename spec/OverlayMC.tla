----------------------------- MODULE OverlayMC -----------------------------
(* Design: forks laid over each other one at a time, each redefining any of a container, a trait over   *)
(* it, two functions that speak of them, and a constant. Every tree is also a case for the generator.   *)
EXTENDS Overlay
CONSTANTS Depth
VARIABLE forks
Item == [k |-> "const", n |-> "", m |-> "helpers", v |-> TRUE, g |-> <<>>, lt |-> <<>>, tp |-> <<>>, ts |-> <<>>, u |-> <<>>, b |-> ""]
Struct(n, g) == [Item EXCEPT !.k = "struct", !.n = n, !.m = "beacon_state", !.g = g]
Trait(g) == [Item EXCEPT !.k = "trait", !.n = "Engine", !.m = "block_processing", !.g = g]
Const(v) == [Item EXCEPT !.n = "LIMIT", !.v = v, !.m = "genesis"]
View0 == IF forks = <<>> THEN <<>> ELSE Views(forks \o [j \in 1..6 - Len(forks) |-> <<>>], Len(forks))[Len(forks)]
ParamsOf(n, own) == LET all == OfKind(own \o SelectSeq(View0, LAMBDA x : x.n \notin Names(own)), "struct") IN all[n]
\* a function over the container as the fork being written defines it
Fn(n, own, shape) ==
  LET s == ParamsOf("State", own)
      t == [w |-> shape.w, c |-> "State", h |-> TRUE, a |-> s]
      e == [w |-> "expr", c |-> "State", h |-> TRUE, a |-> s]
      p == IF shape.two THEN <<[w |-> "ref", c |-> "Block", h |-> TRUE, a |-> ParamsOf("Block", own)]>> ELSE <<>>
      g == Dedup((IF shape.two THEN ParamsOf("Block", own) ELSE <<>>) \o s)
      ext == IF shape.u THEN <<"Z">> ELSE <<>>
  IN [Item EXCEPT !.k = "fn", !.n = n, !.m = "helpers", !.g = g \o ext, !.u = ext,
        !.lt = IF shape.u THEN <<"a">> ELSE <<>>,
        !.tp = IF shape.tp THEN <<[n |-> "T", b |-> "Engine", h |-> TRUE, a |-> <<s[1]>>]>> ELSE <<>>,
        !.ts = p \o <<t>> \o (IF shape.e THEN <<e>> ELSE <<>>), !.b = Forks[Len(forks) + 1] \o "::helpers::" \o n]
Shapes == [w : {"ref", "vec"}, two : {FALSE}, u : BOOLEAN, tp : BOOLEAN, e : {TRUE}]
          \cup [w : {"ret", "let"}, two : BOOLEAN, u : {FALSE}, tp : {FALSE}, e : BOOLEAN]
          \cup [w : {"letref", "expr"}, two : {TRUE}, u : {FALSE}, tp : {FALSE}, e : {FALSE}]
Plain == [w |-> "ref", two |-> FALSE, u |-> FALSE, tp |-> FALSE, e |-> FALSE]
Init == forks = <<>>
First == \E s \in {<<"A">>, <<"A", "B">>}, shape \in Shapes :
  LET own == <<Struct("State", s), Struct("Block", <<"C", "A">>), Trait(<<s[1]>>), Const(TRUE)>>
  IN forks' = << own \o <<Fn("walk", own, shape), Fn("get_source_deltas", own, Plain)>> >>
Later == \E s \in {<<>>, <<"B">>, <<"B", "A", "D">>}, b \in BOOLEAN, r \in {"none", "pub", "priv"}, t \in BOOLEAN :
  LET st == (IF s = <<>> THEN <<>> ELSE <<Struct("State", s)>>) \o (IF b THEN <<Struct("Block", <<"E">>)>> ELSE <<>>)
      own == st \o (IF t THEN <<Trait(<<ParamsOf("State", st)[1]>>)>> ELSE <<>>) \o (IF b THEN <<Const(r # "priv")>> ELSE <<>>)
  IN forks' = Append(forks, own \o (IF r = "none" THEN <<>> ELSE <<[Fn("walk", own, Plain) EXCEPT !.v = r = "pub"]>>))
Next == IF forks = <<>> THEN First ELSE Len(forks) < Depth /\ Later
Whole(fs) == fs \o [j \in 1..6 - Len(fs) |-> <<>>]
V == Views(Whole(forks), 6)
Overlaid == LET w == Whole(forks) v == TLCEval(V) IN forks # <<>> => OnceEach(v) /\ Complete(w, v) /\ Newest(w, v) /\ Consistent(w, v) /\ Declared(v)
CasesOut == Len(forks) = Depth =>
  LET a == [forks |-> Whole(forks)] IN Emit(ToJson([op |-> "overlay.forks", a |-> a, e |-> Answer("overlay.forks", a)]))
=============================================================================
