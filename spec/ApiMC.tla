-------------------------------- MODULE ApiMC --------------------------------
(* All calls with the types of what they carry (for the generator of cases), and what holds of any two of them: requests  *)
(* tell calls and their arguments apart.                                                                                  *)
EXTENDS Api, Json
VARIABLE x
Kinds == [state |-> <<"head", "7">>, block |-> <<"head", "7">>, validators |-> <<<<>>, <<"1">>, <<"1", "2">>, <<"12">>>>, validator |-> <<"1", "2">>,
          statuses |-> <<<<>>, <<"active">>, <<"active", "exited">>>>, indices |-> <<<<>>, <<"1">>, <<"1", "2">>, <<"12">>>>,
          peerstates |-> <<<<>>, <<"connected">>>>, directions |-> <<<<>>, <<"inbound">>>>, u64 |-> <<"1", "2">>, root |-> <<"0x01", "0x02">>,
          signature |-> <<"0x01", "0x02">>, peer |-> <<"a", "b">>, fork |-> <<"capella", "deneb">>,
          maybe |-> <<"absent", "1", "2">>, mayberoot |-> <<"absent", "0x01">>, validation |-> <<"absent", "gossip">>]
Names == DOMAIN Endpoints
ArgSet(op) == LET as == Endpoints[op].args IN [1..Len(as) -> 1..4]
Choice(op, ch) == LET as == Endpoints[op].args
                      ok(k) == ch[k] <= Len(Kinds[as[k][2]])
                      present == {k \in 1..Len(as) : ok(k) /\ ~Same(Kinds[as[k][2]][ch[k]], "absent")}
                  IN [base |-> "b/"] @@ TLCEval([n \in {as[k][1] : k \in present} |-> LET k == CHOOSE k \in present : as[k][1] = n IN Kinds[as[k][2]][ch[k]]])
Valid(op, ch) == \A k \in 1..Len(Endpoints[op].args) : ch[k] <= Len(Kinds[Endpoints[op].args[k][2]])
Calls == UNION {{<<op, ch>> : ch \in {c \in ArgSet(op) : Valid(op, c)}} : op \in Names}
ReqOf(c) == Request(c[1], Choice(c[1], c[2]))
\* two calls that ask for the same thing by design
Alias(a, b) == {a, b} \subseteq {"get_committees", "get_all_committees"} \/ {a, b} \subseteq {"get_beacon_header_at_head", "get_beacon_header_for_slot", "get_beacon_header_for_parent_root"}
Init == x = [op |-> "", d |-> {}, c |-> <<>>, r |-> <<>>]
Next == \/ x.op = "" /\ \E op \in Names : x' = [x EXCEPT !.op = op]
        \/ x.op # "" /\ x.c = <<>> /\ \E ch \in ArgSet(x.op) : Valid(x.op, ch) /\ LET c == <<x.op, ch>> IN x' = [x EXCEPT !.c = c, !.r = ReqOf(c)]
Emitted == (x.op # "" /\ x.c = <<>>) =>
  LET e == Endpoints[x.op] IN
  Emit(ToJson([op |-> x.op, args |-> e.args, body |-> IF e.body.t = "none" THEN e.body ELSE Schema(e.body),
               reply |-> [kind |-> e.reply.kind, at |-> e.reply.at, tys |-> [f \in DOMAIN e.reply.tys |-> Schema(e.reply.tys[f])]]]))
\* a request made by no other call (of the same method), nor by the same call with other arguments
Telling == x.c = <<>> \/ \A o \in Names : \A ch \in {c \in ArgSet(o) : Valid(o, c)} :
  LET c == <<o, ch>> IN c = x.c \/ Alias(o, x.op) \/ ~Same(ReqOf(c), x.r)
=============================================================================
