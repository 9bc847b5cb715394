------------------------------- MODULE DrawMC -------------------------------
(* Proposers and sync committees are drawn with a chance in proportion to the effective balance: a validator is taken when *)
(* its balance, scaled to a byte, is at least the random byte. This searches mixes for draws at exactly that threshold,     *)
(* which other inputs meet once in 256 draws, and emits only those.                                                          *)
EXTENDS Scene
CONSTANTS Fs, Most, N
VARIABLES w, out
Modes == {"full", "none"}
Ep == 5
Eff(mode, i) == IF mode = "none" /\ i % 2 = 1 THEN 0 ELSE FullBal
Made(f, mode, m) ==
  LET vs == TLCEval([k \in 1..N |-> [Val0(k - 1, "eth1", FullBal) EXCEPT !.effective_balance = Eff(mode, k - 1)]])
  IN [World(f, LastOf(Ep), vs, Effs(vs)) EXCEPT !.randao_mixes = TLCEval([k \in 1..C.epochs_per_historical_vector |-> Tag(m)])]
Small(m) == [randao_mixes |-> TLCEval([k \in 1..C.epochs_per_historical_vector |-> Tag(m)])]
Byte1(seed, i) == ByteAt(Sha256(seed \o LE(i \div 32, 8)), i % 32)
\* draw i takes a validator at exactly the threshold
Edge(mode, seed, i) == Eff(mode, ShuffledIndex(i % N, N, seed)) * 255 = C.max_effective_balance * Byte1(seed, i)
PSeed(m, slot) == Sha256(Seed(Small(m), Ep, D_PROPOSER) \o LE(slot, 8))
\* the slots of the epoch where a proposer is drawn so, at the first or second try
EdgeSlots(x) == {slot \in StartSlot(Ep)..LastOf(Ep) : \E i \in 0..1 : Edge(x.mode, PSeed(x.m, slot), i)}
EdgeSync(x) == LET sd == Seed(Small(x.m), Ep + 1, D_SYNC) IN x.f # "phase0" /\ \E i \in 0..(C.sync_committee_size - 1) : Edge(x.mode, sd, i)
Init == w \in [f : Fs, mode : Modes, m : {0}] /\ out = <<>>
Next == /\ w.m = 0
        /\ \E m \in 1..Most :
             /\ w' = [w EXCEPT !.m = m]
             /\ LET es == TLCEval(EdgeSlots(w'))
                    sy == TLCEval(EdgeSync(w'))
                IN IF es = {} /\ ~sy THEN out' = <<>>
                   ELSE LET t == TLCEval(Made(w.f, w.mode, m))
                            asks == FlattenSeq(MapS(Ascending(es), LAMBDA slot : <<Call("poke", [slot |-> slot]), Call("q.proposer", NoArg)>>))
                                    \o (IF sy THEN <<Call("poke", [slot |-> LastOf(Ep)]), Call("q.next_sync_indices", NoArg)>> ELSE <<>>)
                        IN /\ Behaviour(t, TLCEval(asks))
                           /\ out' = MapS(Ascending(es), LAMBDA slot : [slot |-> slot, i |-> Proposer([t EXCEPT !.slot = slot])])
\* at the threshold means taken: when the first draw is there, the first candidate is the proposer
AtThreshold == w.m = 0 \/ \A k \in DOMAIN out : LET sd == PSeed(w.m, out[k].slot) IN
                 Edge(w.mode, sd, 0) => out[k].i = ShuffledIndex(0, N, sd)
=============================================================================
