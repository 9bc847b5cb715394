---------------------------- MODULE PublishedMC ----------------------------
(* Design checks over the published tables and schedules, and one case per network, preset, boundary   *)
(* slot, domain type and name for the implementation.                                                   *)
EXTENDS Published, FiniteSets, Json
CONSTANT Part            \* "const", "fork", "net" or "domain"
VARIABLE q               \* the question asked
Case(op, a, e) == [op |-> op, a |-> a, e |-> e]

(* ---- P03 *)
ConfigConsts(n) == LET c == Config(n) IN
  [f \in DOMAIN c \ {"name", "preset_base", "terminal_total_difficulty", "terminal_block_hash", "deposit_contract_address"} |-> c[f]]
ConstCases ==
  {Case("const.net", [net |-> n],
        [context |-> ContextOf(n), config |-> Config(n),
         consts |-> ConfigConsts(n), via |-> ContextOf(n), network |-> n, genesis |-> GenesisTime(n), clock |-> ClockOf(n),
         at |-> [g |-> "12345", sps |-> Config(n).seconds_per_slot, spe |-> ContextOf(n).slots_per_epoch],
         typical |-> TypicalGenesis(Config(n))]) : n \in Networks}
  \cup {Case("const.preset", [preset |-> p], [consts |-> Preset(p) @@ Derived(p), preset |-> Preset(p)]) : p \in {"mainnet", "minimal"}}
  \cup {Case("const.global", [z |-> 0], Global)}
  \cup {LET c == [Config(n) EXCEPT !.preset_base = b] IN
        Case("const.file", [config |-> c], [direct |-> ContextFile(c), via |-> ContextFile(c)]) :
          n \in Networks, b \in {"mainnet", "minimal", "Mainnet", "", "gnosis"}}

(* ---- P04: small schedules, and the published ones at every boundary *)
SmallEpochs == <<"0", "1", "2", UNSET>>
Scheds == {s \in [1..5 -> 1..4] : \A k \in 1..4 : s[k] <= s[k + 1]}
Sched(s, spe) == [k \in {"altair_fork_epoch", "bellatrix_fork_epoch", "capella_fork_epoch", "deneb_fork_epoch", "electra_fork_epoch"} |->
                   SmallEpochs[s[CASE k = "altair_fork_epoch" -> 1 [] k = "bellatrix_fork_epoch" -> 2 [] k = "capella_fork_epoch" -> 3
                                   [] k = "deneb_fork_epoch" -> 4 [] OTHER -> 5]]]
                 @@ Versions("a0", "a1", "a2", "a3", "a4", "a5")
                 @@ [slots_per_epoch |-> spe]
Long(c) == [k \in DOMAIN c |-> IF k \in {"genesis_fork_version"} \cup {ForkNames[j] \o "_fork_version" : j \in 2..6} THEN c[k] \o "000000" ELSE c[k]]
NetSched(n) == [k \in {"altair_fork_epoch", "bellatrix_fork_epoch", "capella_fork_epoch", "deneb_fork_epoch", "electra_fork_epoch",
                       "genesis_fork_version", "altair_fork_version", "bellatrix_fork_version", "capella_fork_version",
                       "deneb_fork_version", "electra_fork_version", "slots_per_epoch"} |-> ContextOf(n)[k]]
Slots(c) == {"0", "1"} \cup {BSub(UNSET, 1), UNSET}
            \cup UNION {LET b == BMul(ForkEpoch(c, ForkNames[k]), c.slots_per_epoch) IN
                        IF BLeq(b, UNSET) THEN {b, BAdd(b, 1), BAdd(b, BSub(c.slots_per_epoch, 1))} \cup (IF b = "0" THEN {} ELSE {BSub(b, 1)})
                        ELSE {} : k \in 2..6}
AllScheds == {Long(Sched(s, spe)) : s \in Scheds, spe \in {"1", "3"}} \cup {NetSched(n) : n \in Networks}
ForkCases ==
  UNION {{Case("fork.at", [c |-> c, slot |-> t], [fork |-> ForkAtSlot(c, t), version |-> ForkVersion(c, ForkAtSlot(c, t))]) :
            t \in {x \in Slots(c) : BLeq(x, UNSET)}} : c \in AllScheds}
  \cup {Case("fork.version", [c |-> NetSched(n), fork |-> ForkNames[k]], ForkVersion(NetSched(n), ForkNames[k])) : n \in Networks, k \in 1..6}
  \cup {Case("fork.names", [z |-> 0], [k \in 1..6 |-> <<ForkNames[k], ForkNames[k]>>])}
  \cup {Case("fork.parse", [text |-> ForkNames[k]], k) : k \in 1..6}
  \cup {Case("fork.parse", [text |-> t], "err") : t \in {"", "Phase0", "PHASE0", "fulu", "phase", "altair ", "0", "eip7594"}}
  \cup {Case("fork.same", [x |-> i, y |-> j], i = j) : i \in 1..6, j \in 1..6}

(* ---- P06 *)
Known == {"mainnet", "sepolia", "goerli", "holesky", "hoodi"}
Parsed(t) == [kind |-> IF t \in Known THEN t ELSE "custom", text |-> t, json |-> t, same |-> TRUE, shown |-> IF t \in Known THEN t ELSE "-"]
Names == Networks \cup {"", "Mainnet", "MAINNET", " mainnet", "mainnet ", "mainne", "/tmp/x", "custom (/tmp/x/config.yaml)", "custom (mainnet/config.yaml)",
                        "gnosis", "ephemery", "hoodie", "custom", "Goerli", "prater"}
NetCases ==
  {Case("net.parse", [text |-> t], Parsed(t)) : t \in Names}
  \cup {Case("net.genesis", [text |-> t],
             [genesis |-> GenesisTime(t),
              clock |-> IF t \in DOMAIN KnownGenesis THEN ClockOf(t) ELSE [none |-> TRUE]]) : t \in Names}
  \cup {Case("net.missing", [z |-> 0], "err")}
  \cup {Case("net.typical", [min_genesis_time |-> a, genesis_delay |-> b], BAdd(a, b)) : a \in {"0", "1", "1655647200"}, b \in {"0", "1", "86400"}}

(* ---- P05 *)
TypeNames == DOMAIN DomainCode
Vers == {"00000000", "01000000", "00000001", "ffffffff"}
Roots == {Zeros(32), Repeat("ab", 32), Zeros(31) \o "01"}
Forks6 == {ForkNames[k] : k \in 1..6}
DomainCases ==
  {Case("domain.code", [type |-> t], DomainCode[t]) : t \in TypeNames}
  \cup {Case("domain.compute", [type |-> t, ver |-> v, gvr |-> r, genesis_fork_version |-> "00001020"],
             ComputeDomain([genesis_fork_version |-> "00001020"], t, v, r)) : t \in TypeNames, v \in Vers \cup {"none"}, r \in Roots \cup {"none"}}
  \cup {Case("domain.builder", [genesis_fork_version |-> v], ComputeDomain([genesis_fork_version |-> v], "ApplicationBuilder", "none", "none")) : v \in Vers}
  \cup {Case("domain.root", [ver |-> v, gvr |-> r], ForkDataRoot(v, r)) : v \in Vers, r \in Roots}
  \cup {Case("domain.digest", [ver |-> v, gvr |-> r], ForkDigest(v, r)) : v \in Vers, r \in Roots}
  \cup {LET fork == [previous_version |-> "0a000000", current_version |-> "0b000000", epoch |-> fe]
            gvr == Repeat("5c", 32)
        IN Case("domain.get", [impl |-> f, type |-> t, e |-> e, slot |-> slot, spe |-> "4", gvr |-> gvr, fork |-> fork],
                GetDomain(fork, gvr, slot, "4", t, e)) :
          f \in Forks6, t \in {"BeaconProposer", "BeaconAttester", "VoluntaryExit", "SyncCommittee", "ApplicationMask"},
          fe \in {"0", "2"}, e \in {"none", "0", "1", "2", "3"}, slot \in {"0", "7", "8", "11", "12"}}
  \cup {Case("domain.signing", [object |-> a, domain |-> b], SigningRoot(a, b)) : a \in Roots, b \in Roots}

Cases == CASE Part = "const" -> ConstCases [] Part = "fork" -> ForkCases [] Part = "net" -> NetCases [] Part = "domain" -> DomainCases
Init == q \in TLCEval(Cases)
Next == UNCHANGED q
CasesOut == Emit(ToJson(q))

(* ---- design invariants *)
\* tables: every context field is given exactly once
Disjoint == Part = "const" => \A n \in Networks : DOMAIN Preset(PresetBase(n)) \cap DOMAIN Config(n) = {}
Monotonic == Part = "const" => \A n \in Networks : NonDecreasing(ContextOf(n))
VersionsDiffer == Part = "const" =>
  LET vs == {ForkVersion(ContextOf(n), f) : n \in Networks, f \in Forks6} IN Cardinality(vs) = 36
\* the active fork has begun, and no later fork has
Latest == (Part = "fork" /\ q.op = "fork.at") =>
  LET e == BDiv(q.a.slot, q.a.c.slots_per_epoch) IN
  \A k \in 1..6 : IF \E j \in k..6 : ForkNames[j] = q.e.fork THEN BLeq(ForkEpoch(q.a.c, ForkNames[k]), e)
                  ELSE BLt(e, ForkEpoch(q.a.c, ForkNames[k]))
\* distinct types (but for the shared application code), versions and chains never share a domain
Codes == {DomainCode[t] : t \in TypeNames}
Separate == (Part = "domain" /\ q.op = "domain.code") =>
  /\ Cardinality(Codes) = Cardinality(TypeNames) - 1
  /\ \A t \in TypeNames, v \in Vers, r \in Roots :
       \A v2 \in Vers, r2 \in Roots :
         Domain(q.a.type, v, r) = Domain(t, v2, r2) => (DomainCode[t] = DomainCode[q.a.type] /\ v = v2 /\ r = r2)
\* the version switches exactly at the fork's epoch
Switches == (Part = "domain" /\ q.op = "domain.get") =>
  LET e == IF q.a.e = "none" THEN BDiv(q.a.slot, q.a.spe) ELSE q.a.e IN
  q.e = Domain(q.a.type, IF BLeq(q.a.fork.epoch, e) THEN "0b000000" ELSE "0a000000", q.a.gvr)
=============================================================================
