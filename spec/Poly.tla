-------------------------------- MODULE Poly --------------------------------
(* The fork-polymorphic types: which fork a JSON object denotes, and what every accessor of the wrapped value returns. *)
EXTENDS Layout
PolyNames == {"BeaconState", "BeaconBlockBody", "BeaconBlock", "SignedBeaconBlock", "BlindedBeaconBlockBody", "BlindedBeaconBlock",
              "SignedBlindedBeaconBlock", "ExecutionPayload", "ExecutionPayloadHeader"}
PolyForks(n) == {f \in ForkSet \ {"electra"} : n \in DOMAIN Containers[f]}
Newest(fs) == CHOOSE f \in fs : \A g \in fs : Ge(f, g)
FieldsOf(f, n) == {Containers[f][n].fs[k][1] : k \in 1..Len(Containers[f][n].fs)}
AllFields(n) == UNION {FieldsOf(f, n) : f \in PolyForks(n)}
\* no member of the object is left over once the fields of ty are read
RECURSIVE Exact(_, _)
Exact(ty, j) ==
  CASE ty.t = "cont" -> /\ DOMAIN j = {JKey(ty.fs[k][1]) : k \in 1..Len(ty.fs)}
                        /\ \A k \in 1..Len(ty.fs) : Exact(ty.fs[k][2], j[JKey(ty.fs[k][1])])
    [] ty.t \in {"list", "vec"} /\ ty.e.t \in {"cont", "list", "vec"} -> LET v == Dense(j) IN \A k \in 1..Len(v) : Exact(ty.e, v[k])
    [] OTHER -> TRUE
TypeOfField(ty, n) == Plain(FT(ty.fs[CHOOSE k \in 1..Len(ty.fs) : ty.fs[k][1] = n]))
\* the root of each field the fork has, "none" for those of other forks
FieldRoots(f, n, v) == LET ty == Containers[f][n] IN
  TLCEval([x \in AllFields(n) |-> IF x \in FieldsOf(f, n) THEN HTR(TypeOfField(ty, x), v[x]) ELSE "none"])
PolyValue(n, j) ==
  LET fs == {f \in PolyForks(n) : Fits(Containers[f][n], j)} IN
  IF fs = {} THEN "rejected"
  ELSE LET f == Newest(fs)
           ty == Containers[f][n]
           v == FromJ(ty, j)
           p == Plain(ty)
           root == HTR(p, v)
           roots == FieldRoots(f, n, v)
           as == [g \in PolyForks(n) |-> IF g = f THEN root ELSE "none"]
           view == [version |-> f, as |-> as, fields |-> roots]
       IN [version |-> f, ssz |-> Short(Ser(p, v)), root |-> root, ssz_back |-> TRUE, json_back |-> Exact(ty, j),
           owned |-> view, owned_mut |-> view]
          @@ (IF n \in {"SignedBeaconBlock", "SignedBlindedBeaconBlock"} THEN <<>> ELSE [ref |-> view, refmut |-> view, refmut_mut |-> view])
PolyExp(c) == PolyValue(c.a.name, c.a.v)
=============================================================================
