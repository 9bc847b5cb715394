"""What each check runs. Every function takes a vlib.Check."""
import json, os
import apigen, layoutgen
from vlib import SPEC, ToolError, build

CHECKS = {}
# commits in /repo that add the guarded hook (execution_engine::observe)
HOOKS = ["8369de39041421b8f83d38a3852beb556bd8521f"]
DEFAULT_NOTE = ("The TLA+ specification satisfies the property on every state of the bounded model; the real code agrees with the "
                "specification on every replayed behaviour and every recorded call. Beyond those bounds it is sampling. Trusts TLC, "
                "the stand-ins for unavailable crates (SSZ, ideal BLS/KZG) and the harness's projection.")
NOTES = {}
NOT_APPLICABLE = {}
def check(pid):
    def reg(f):
        CHECKS[pid] = f
        return f
    return reg


@check("P01")
def clock(c):
    big = dict(Gs='{"0", "1", "7"}', Spss='{"1", "5", "12"}', Spes='{"1", "4", "32"}', MaxSlot="5")
    cases = c.model("ClockMC", big, invs=["SlotExact", "WaitExact", "RoundTrip", "CasesOut"], props=["Monotone"],
                    what="all readings at, before and inside the first slots of small clocks")
    c.replay(cases, what="every explored reading on the real clock")
    c.validate("ClockTrace", c.gen("clock", c.scale(6000, 60000)), what="random clocks, readings and slots over the full range")


@check("P02")
def stream(c):
    for drift in ("FALSE", "TRUE"):
        d = c.scale(5, 7) if drift == "FALSE" else c.scale(5, 6)
        cases = c.model("StreamMC", dict(Gs='{"0", "4"}', Spss='{"1", "3"}', Depth=str(d), Drift=drift,
                                         Starts='{0, 2, 3, 4, 5, 7, 9}', Advances="{1, 2, 5}"),
                        invs=["NeverEarly", "Increasing", "Alive", "StartsRight", "CasesOut"],
                        what="every interleaving of polls and clock advances, drift=" + drift)
        for x in cases:
            x["e"] = x["a"]
        c.replay(cases, what="every behaviour of the model on the real stream")


def published(pid, part, invs, n, what):
    @check(pid)
    def run(c):
        cases = c.model("PublishedMC", dict(Part='"%s"' % part), invs=invs + ["CasesOut"], what=what)
        c.replay(cases, what="every case of the tables and boundaries on the real code")
        c.validate("PublishedTrace", c.gen(part, c.scale(n, 20 * n)), what="random inputs over the full range")
published("P03", "const", ["Disjoint", "Monotonic", "VersionsDiffer"], 150, "the published tables are consistent")
published("P04", "fork", ["Latest"], 3000, "all small schedules and the published ones, at every boundary")
published("P05", "domain", ["Separate", "Switches"], 1500, "all domain types, versions, chains and epochs around a fork")
published("P06", "net", [], 3000, "well-known names and near misses")


@check("P07")
def text(c):
    for part, d in (("hex", c.scale(4, 5)), ("int", c.scale(4, 5))):
        cases = c.model("TextMC", dict(Depth=str(d), Part='"%s"' % part), invs=["HexExact", "IntExact", "Onto", "CasesOut"],
                        what="all texts of up to %d characters" % d)
        c.replay(cases, what="every text on the real decoders, each read four ways")
    c.validate("TextTrace", c.gen("text", c.scale(4000, 60000)), what="random values and damaged texts of every type")


REAL = dict(ElemBits="256", SkipBits="2", Elems="4096")


@check("P41")
def blobs(c):
    for small, alpha, d in ((dict(ElemBits="8", SkipBits="2", Elems="8"), '{"00", "01", "80", "ff"}', c.scale(5, 7)),
                            (dict(ElemBits="16", SkipBits="2", Elems="3"), '{"00", "5a", "ff"}', c.scale(7, 9)),
                            (dict(ElemBits="24", SkipBits="3", Elems="2"), '{"00", "01", "ff"}', c.scale(7, 9))):
        c.model("BlobsMC", dict(small, Depth=str(d), Alphabet=alpha, Lengths="{}"),
                invs=["Faithful", "Lossless", "FullCanonical", "Malformed"], what="all byte strings up to %d bytes over %s, blobs of %s elements of %s bits" % (
                    d, alpha, small["Elems"], small["ElemBits"]))
    lens = [0, 1, 2, 4, 5, 26, 27, 30, 31, 32, 33, 58, 59, 62, 63, 64, 65, 94, 95, 96, 121, 122, 123, 126, 127, 128, 129, 254, 1000, 131072] + \
           [k * 130048 + j for k in (1, 2) for j in (-32, -6, -5, -4, -1, 0, 1, 32)] + c.scale([], [k * 130048 + j for k in (3, 6, 7) for j in (-5, -1, 0, 1)])
    cases = c.model("BlobsMC", dict(REAL, Depth="0", Alphabet="{}", Lengths="{%s}" % ", ".join(map(str, lens))), invs=["CasesOut"],
                    what="boundary lengths and malformed headers at the real sizes")
    c.replay(cases, "ecbin", what="the cases through the command line tool")
    c.validate("BlobsTrace", c.gen("blobs", c.scale(300, 4000), "ecbin"), consts=REAL, what="random data, framings, blobs and bundles")


@check("P42")
def keys(c):
    for part, invs in (("phrase", ["OneToOne"]), ("seed", []), ("derive", ["Separate"]), ("seal", ["OpensOnly"]), ("cost", [])):
        cases = c.model("KeysMC", dict(Part='"%s"' % part), invs=invs + ["CasesOut"], what=part)
        c.replay(cases, "ecbin", what=part + ": the same calls of the real key tools")
    c.validate("KeysTrace", c.gen("keys", c.scale(400, 6000), "ecbin"), what="random phrases, passphrases, seeds, account ranges and keystore parts")
    c.validate("KeysTrace", c.gen("keystores", c.scale(8, 60), "ecbin"), what="mnemonics, key pairs and keystores drawn by the command line tool")


@check("P43")
def overlay(c):
    cases = c.model("OverlayMC", dict(Depth=str(c.scale(3, 4))), invs=["Overlaid", "CasesOut"],
                    what="every tree of up to %d forks redefining a container, a trait, functions over them and a constant" % c.scale(3, 4))
    step = max(1, len(cases) // c.scale(1200, 20000))
    c.replay(cases[c.seed % step::step], "genbin", what="every %d-th tree through the real generator, twice" % step)
    c.validate("OverlayTrace", c.gen("overlay", c.scale(300, 3000), "genbin"), what="random trees over all forks and modules")
    c.validate("OverlayTrace", c.gen("real", 1, "genbin"), what="the specification sources of the repository")


@check("P45")
def crypto(c):
    for part, keys in (("one", 1), ("many", c.scale(2, 3)), ("same", c.scale(2, 3)), ("sums", 3), ("check", 1), ("blob", 1), ("blobs", 1)):
        c.replay(c.model("CryptoMC", dict(Part='"%s"' % part, MaxKeys=str(keys)), invs=["CasesOut", "Right"], what="small world: " + part), what=part + ": the same calls of the real wrappers")
    c.replay(c.model("CryptoMC", dict(Part='"secret"', MaxKeys="1"), invs=["CasesOut"], what="small world: secret"), "clientbin", what="secret: keys printed by a program that did not ask to see them")
    c.validate("CryptoTrace", c.gen("crypto", c.scale(3000, 60000)), what="random keys, messages, aggregates, encodings, blobs and proofs")


@check("P46")
def peers(c):
    for part in ("bytes", "text", "multi"):
        c.replay(c.model("PeerMC", dict(Part='"%s"' % part, Chars='{"1", "2", "z", "0"}', MaxText=str(c.scale(5, 7))), invs=["CasesOut", "OneToOne", "Only"], what=part),
                 what=part + ": the same calls of the real peer identities")
    c.validate("PeerTrace", c.gen("peer", c.scale(2000, 40000)), what="random identities, damaged and not, and pairs of them")


def cfg(name):
    return os.path.join(SPEC, "cfg", name + ".json")


def schemas(c, preset):
    rows = c.model("LayoutMC", invs=["Emitted", "Distinct", "Extends", "SameShape"], env=dict(CFG=cfg(preset)), workers=1,
                   what="the layouts of all containers, %s preset" % preset)
    return sorted({(r["fork"], r["name"]): r for r in rows}.values(), key=lambda r: (r["fork"], r["name"]))


@check("P44")
def client(c):
    for preset, n in (("minimal", c.scale(24, 300)), ("mainnet", c.scale(6, 60))):
        rows = c.model("ApiMC", invs=["Emitted"] + (["Telling"] if preset == "minimal" else []), env=dict(CFG=cfg(preset)), what="all calls, %s preset" % preset)
        c.validate("ApiTrace", c.record(apigen.cases(preset, sorted(rows, key=lambda r: r["op"]), c.seed, n), "clientbin"), env=dict(CFG=cfg(preset)),
                   what="calls of the client with replies right, refused, damaged and missing, %s preset" % preset)


@check("P08")
def layouts(c):
    for preset, heavy, light in (("minimal", 6, c.scale(20, 200)), ("mainnet", c.scale(3, 16), c.scale(12, 120))):
        cases = layoutgen.cases(preset, schemas(c, preset), c.seed, heavy, light)
        c.validate("LayoutTrace", c.record(cases, "layoutbin"), env=dict(CFG=cfg(preset)),
                   what="every container of the %s preset: empty, full, random, damaged and at its limits" % preset)


@check("P09")
def polymorphic(c):
    for preset, n in (("minimal", c.scale(8, 80)), ("mainnet", c.scale(3, 20))):
        rows = schemas(c, preset)
        c.model("PolyMC", invs=["Distinguished", "SerDistinguished"], env=dict(CFG=cfg(preset)),
                what="the shapes of any two forks of a polymorphic type, %s preset" % preset)
        c.validate("PolyTrace", c.record(layoutgen.poly(preset, rows, c.seed, n), "layoutbin"), env=dict(CFG=cfg(preset)),
                   what="polymorphic types of the %s preset: values of every fork, mixed, damaged, and all their views" % preset)


@check("P10")
def proofs(c):
    for preset, n in (("minimal", c.scale(6, 24)), ("mainnet", c.scale(3, 12))):
        rows = schemas(c, preset)
        path = c.path("bodies-%s.json" % preset)
        with open(path, "w") as f:
            json.dump(layoutgen.bodies(preset, rows, c.seed, n), f)
        c.replay(c.model("ProofMC", dict(Preset='"%s"' % preset), invs=["Emitted", "Sound", "Deep"], env=dict(CFG=cfg(preset), CASES=path),
                         what="bodies, positions and one change to the sidecar, %s preset" % preset), "layoutbin",
                 what="every sidecar of the %s model" % preset)
        c.replay(c.model("GIndexMC", invs=["Emitted", "Stable", "Lengths"], env=dict(CFG=cfg(preset)), what="positions light clients prove against, by layout"),
                 "layoutbin", what="the published positions")
    c.sessions("deneb|deposit|5", 4 * c.scale(40, 600), owns=own("deposit"), what="deposits whose branch, index or count is right or wrong")


# ---- the state transition: sessions of the real code on the tiny preset, every step judged by the specification
def sess(pid, plans, owns=None, more=None):
    """plans: (spec "forks|ops|len", quick sessions, thorough sessions, what)."""
    @check(pid)
    def run(c):
        for spec, q, t, what in plans:
            if c.quick:
                c.sessions(spec, 4 * q, owns=owns, what=what)
            else:
                for b in range(max(1, t // 100)):
                    c.sessions(spec, 600, owns=owns, what=what, seed=1000 * c.seed + b)
        for one in SCENES.get(pid, ()):
            one(c)
        if more:
            more(c)
ops = lambda s: set(s.split(","))
own = lambda s: (lambda r: r["op"] in ops(s))

ALL = '{"phase0","altair","bellatrix","capella","deneb","electra"}'
ALTAIR = '{"altair","bellatrix","capella","deneb","electra"}'
PRE = '{"phase0","altair","bellatrix","capella","deneb"}'
SCENES = {}
def scene(pid, module, what, invs, quick, deep, props="", owns=None, limit=900, every=1, deep_every=None, Fs=ALL, **common):
    """A model in a small world (spec/<module>.tla), replayed into the code; `deep` are the constants of the thorough check."""
    def run(c):
        consts = dict(common, **(quick if c.quick else dict(quick, **deep)))
        if Fs:
            consts.setdefault("Fs", Fs)
        c.scenes(module, consts, invs.split(","), limit=limit if c.quick else 15 * limit, props=[x for x in props.split(",") if x],
                 every=every if c.quick else (deep_every or every), owns=own(owns) if owns else None, what=what, **({} if c.quick else dict(timeout=6000)))
    SCENES.setdefault(pid, []).append(run)
OP_PARTS = dict(exit=("P21", ALL, "exit"), bls=("P27", '{"capella","deneb","electra"}', "bls_change"), pslash=("P22", ALL, "proposer_slashing"), aslash=("P22", ALL, "attester_slashing"),
                header=("P12", ALL, "header"), randao=("P13", ALL, "randao"), sync=("P28", ALTAIR, "sync"), payload=("P31", '{"bellatrix","capella","deneb","electra"}', "payload"),
                consol=("P37", '{"electra"}', None), deposit=("P25", ALL, "deposit"))
for part, (pid, fs, owned) in OP_PARTS.items():
    scene(pid, "OpsMC", "operations wrong in up to two respects (%s): accepted exactly when right in all, with exactly the due effect" % part, "Accepted,Effective",
          dict(Wrongs="2"), dict(Wrongs="3"), owns=owned, limit=1200, deep_every=2, Fs=fs, Part='"%s"' % part)
scene("P32", "OpsMC", "payloads wrong in up to two respects, engine verdicts and blob counts among them", "Accepted,Effective", dict(Wrongs="2"), dict(Wrongs="3"), owns="payload", Fs='{"deneb","electra"}', Part='"payload"')
scene("P14", "Eth1MC", "every sequence of votes of a period over three candidates", "Majority,Recorded,Cleared", dict(Cands="{1,2,3,4}"), {}, props="Stays", owns="eth1,ep.eth1_reset", every=4, deep_every=1, limit=1500, Fs='{"phase0","capella","electra"}')
scene("P15", "FinalityMC", "every history of votes over some epochs, votes at, below and above two thirds", "FinalExact,JustExact,OnlyJustified,Ordered", dict(Depth="5", N="6", Levels="{3,4,5}"), dict(Depth="7"), props="NeverBack", owns="ep.justification", every=4, deep_every=40)
scene("P24", "HysteresisMC", "every balance around each threshold of the hysteresis, twice over", "Exact,Settles,NothingElse", {}, {}, owns="ep.effective")
for pid, owned in (("P20", "ep.registry"), ("P37", None)):
    scene(pid, "RegistryMC", "validators joining and leaving, epochs passing, in every order: churn kept, first come first served", "ExitChurn,BalanceBudget,ActivationChurnKept,Fifo,Matched", dict(Depth="2"), dict(Depth="4"),
          props="Steps1,NoIdle,Ejected", owns="ep.registry,initiate_exit" if owned else None, every=7, deep_every=40, Fs=ALL if owned else '{"electra"}', Actives="{5}", Joins="2", Exits="2")
scene("P21", "RegistryMC", "exits initiated in every order with epochs passing", "ExitChurn,BalanceBudget,ActivationChurnKept,Fifo,Matched", dict(Depth="2"), dict(Depth="4"), props="Steps1,NoIdle,Ejected", owns="initiate_exit", every=7, deep_every=40, Actives="{5}", Joins="1", Exits="3")
for pid, part in (("P20", "join"), ("P20", "eject"), ("P21", "leave"), ("P37", "leave"), ("P37", "eject")):
    scene(pid, "CrowdMC", "many validators at once (%s), in mixed order: admitted and let go in turn, no faster than allowed" % part, "ChurnKept,Fifo,InTurn,Everyone", dict(Sizes="{9,22,37}", Strides="{1,5,11}"),
          dict(Sizes="{9,14,22,30,37,45}", Strides="{1,3,5,7,11,13,17}"), owns=None if pid == "P37" else "ep.registry,initiate_exit", limit=400, deep_every=2, Fs='{"electra"}' if pid == "P37" else '{"phase0","deneb","electra"}', Part='"%s"' % part)
DRAW = "draws at exactly the threshold, which other inputs meet once in 256"
scene("P30", "DrawMC", DRAW, "AtThreshold", dict(Most="300"), dict(Most="4000"), owns="q.proposer", N="5", Fs='{"phase0","electra"}')
scene("P28", "SyncMC", "rewards and penalties seat by seat, with the proposer on some of the seats and balances that run empty on the way", "Settled,OnlyMoney,Meant",
      dict(Poor="{0,30,40}", Off="1"), dict(Poor="{0,1,30,31,40,65}", Off="3", Fs=ALTAIR), owns="sync", every=5, deep_every=11, limit=400, Fs='{"altair","deneb"}')
scene("P28", "DrawMC", DRAW, "AtThreshold", dict(Most="300"), dict(Most="4000"), owns="q.next_sync_indices", N="5", Fs='{"altair","electra"}')
for pid, owned in (("P22", "slash"), ("P23", "ep.slashings,ep.slashings_reset")):
    scene(pid, "SlashMC", "slashings over the whole window: once each, charged once, in the middle of the window, in proportion", "Once,Due,Window,Marked", dict(Depth="6", Most="2"), dict(Depth="9", Most="3"), props="Effect,Bounded", owns=owned, Effects="{32000,17000}")
for pid, owned in (("P29", "q.committee,q.committee_count,q.shuffled,q.shuffle_list,q.active"), ("P30", "q.proposer")):
    scene(pid, "ShuffleMC", "registries of every size: committees partition the active validators evenly, shuffles permute", "Partition,Even,Permutation,ActiveProposer,Counts", dict(Sizes="{1,2,3,4,5,6,7,8,9,10,11,12}", Draws="2"),
          dict(Sizes="{1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,23,24,25,31,32,33}", Draws="6"), owns=owned, Epochs="{4}", Fs='{"phase0","deneb","electra"}')
scene("P26", "WithdrawMC", "sweeps over registries of every kind of validator, several rounds", "Numbered,SweepExact,Paid,Reached,StakeKept,QueueOrder", dict(N="7", Kinds='{"full","rich"}', Starts="{0,4}", Rounds="3", Queues="{0}"),
      dict(Kinds='{"full","rich","left","one"}', N="6"), every=5, deep_every=15, Fs='{"capella","deneb"}', owns="withdrawals,q.withdrawals")
scene("P39", "WithdrawMC", "sweeps and queues of partial withdrawals over registries of every kind", "Numbered,SweepExact,Paid,Reached,StakeKept,QueueOrder", dict(N="4", Kinds='{"full","rich","heavy"}', Starts="{0,3}", Rounds="3", Queues="{0,1,2,3,4,5}"),
      dict(Kinds='{"full","rich","heavy","left","bls"}'), every=5, deep_every=15, Fs='{"electra"}')
for pid, part in (("P38", "deposits"), ("P38", "merges"), ("P37", "churn")):
    scene(pid, "QueuesMC", "queues of electra over several epochs (%s): conserved, in order, within the churn" % part, "Conserved,InOrder,WithinChurn,Carry,MergesInOrder,SlashedKeep,ChurnKept",
          dict(Amounts="{1000,40000,44000,45000,100000}", MaxLen="3", Depth="4"), dict(MaxLen="4", Depth="5"), every=5, deep_every=60, Fs=None, Part='"%s"' % part)
scene("P37", "QueuesMC", "amounts around whole epochs of churn", "ChurnKept", dict(Amounts="{1000,40000}", MaxLen="3"), {}, Fs=None, Part='"churn"', Depth="1")
ATT = "attestations wrong in up to two respects, and repeated: accepted exactly when right in all; the flags, shares and rewards due"
scene("P16", "OpsMC", ATT, "Accepted,Effective,Repeats", dict(Wrongs="2"), dict(Wrongs="3"), owns="attestation", every=3, deep_every=9, Fs=PRE, Part='"attest"')
scene("P17", "OpsMC", ATT, "Accepted,Effective,Repeats", dict(Wrongs="2"), dict(Wrongs="3"), owns="attestation", every=3, deep_every=9, Fs='{"altair","capella","deneb"}', Part='"attest"')
scene("P40", "OpsMC", ATT, "Accepted,Effective,Repeats", dict(Wrongs="2"), dict(Wrongs="3"), owns="attestation", every=2, deep_every=5, Fs='{"electra"}', Part='"attest"')
REWARDS = "Only,NoDebt,Exempt,NeverGain,NoPunishment,LeakRewardsNobody,Monotone,Budget,Bill,Headless,ScoreRule"
DID = '{"all","none","source","headless","late","slashed","gone","out"}'
scene("P18", "RewardsMC", "validators that did any part of their duties, leaking and not: who gains, who loses, and how much in all", REWARDS, dict(Kinds=DID, Depth="1", Gaps="{1,4,5,9}", Rare="2"), dict(Rare="5"), owns="ep.rewards", every=9, deep_every=300)
scene("P19", "RewardsMC", "scores and penalties over epochs of duties done and not done, leaking and not", REWARDS, dict(Kinds='{"all","none","late"}', Depth="2", Gaps="{3,4}", Rare="1"), dict(Kinds=DID, Depth="3"), owns="ep.inactivity,ep.rewards", every=3, deep_every=150, Fs=ALTAIR)
SLOTS = "Ahead,Rings,Mixes,Slashed0,Votes,History,Batch,Rotation,SyncTurns,Quiet"
for pid in ("P11", "P13", "P28", "P47"):
    scene(pid, "SlotsMC", "slots one at a time and several, with and without blocks, over the ends of epochs and of all periods", SLOTS, dict(Starts="{9,12,15}", Jumps="{1,3,9}", Depth="2"), dict(Starts="{8,9,10,11,12,13,14,15}", Jumps="{1,2,3,4,5,9,17}", Depth="3"),
          every=2, deep_every=40, limit=500, Fs=ALL if pid in ("P11", "P47") else ALTAIR)
scene("P33", "ChainMC", "whole blocks wrong in up to two respects: accepted exactly when right in all that is checked", "Accepted,Effect", dict(Wrongs="2"), dict(Wrongs="3"), every=2, deep_every=3, Part='"block"', Depth="0", Gaps="{}")
scene("P35", "ChainMC", "chains of blocks over the forks' boundaries, of the due kind and of others", "ExecAccepted,ExecFork,Unmoved", dict(Depth="3", Gaps="{0,1,3,9}"), dict(Depth="4", Gaps="{0,1,2,3,4,5,9,13}"), every=2, deep_every=60, Fs=PRE, Part='"exec"', Wrongs="0")
scene("P34", "UpgradeMC", "upgrades of states of validators of every kind: what is carried over, what is new", "Carried,Version,Header,Fresh,Translated,Conserved,Held,InOrder,Exits",
      dict(Votes='{"all","headless","source","late","none"}', Kinds='{"plain","early","late","new","heavy","newheavy","leaving","left"}', Slots="{40}"), dict(Slots="{40,41,43}"), every=4, deep_every=4, Fs=PRE)
scene("P36", "GenesisMC", "genesis from every sequence of deposits of some kinds", "Accepted,Made,Beginning,ValidIff", dict(Kinds='{"a","a+","abad","ahalf","bover","c","nokey","aproof"}', MaxLen="3", Depth="0", Times="{940}"), dict(MaxLen="4"), every=5, deep_every=40, limit=400, Fs='{"phase0","altair","deneb","electra"}')
scene("P36", "GenesisMC", "genesis with and without enough validators, and in time and too early", "Accepted,Made,Beginning,ValidIff", dict(Kinds='{"a","b","d","e","a+"}', MaxLen="4", Depth="4", Times="{939,940}"), dict(MaxLen="5"), every=12, deep_every=60, limit=200, Fs='{"phase0","bellatrix","capella"}')

pre_electra = "phase0,altair,bellatrix,capella,deneb"

sess("P11", [("all|slot,slots,q.block_root,q.epoch_root|6", 90, 2500, "slots and epochs of every fork, root queries in and out of the window")], own("slot,slots,q.block_root,q.epoch_root"))
sess("P12", [("all|header,slot|5", 180, 4000, "headers right and wrong in each respect")], own("header"))
sess("P13", [("all|randao,q.seed,q.mix,ep.randao_reset,slots|6", 120, 3000, "reveals right and wrong, mixes and seeds")], own("randao,q.seed,q.mix,ep.randao_reset"))
sess("P14", [("all|eth1,eth1,eth1,eth1,ep.eth1_reset,slot|10", 120, 3000, "votes towards and past a majority, period ends")], own("eth1,ep.eth1_reset"))
sess("P15", [("all|ep.justification,poke,slots|5", 180, 4000, "participation around two thirds, all bit histories")], own("ep.justification"))
sess("P16", [(pre_electra + "|attestation,q.attesting,slot|6", 120, 3000, "attestations right and wrong in each respect")], own("attestation,q.attesting"))
sess("P17", [("all|attestation,q.flags,q.base_reward,q.unslashed,ep.participation|6", 120, 3000, "flags, rewards and rotation of participation")], own("attestation,q.flags,q.base_reward,q.unslashed,ep.participation"))
sess("P18", [("all|ep.rewards,q.source_deltas,q.target_deltas,q.head_deltas,q.inclusion_deltas,q.flag_deltas,q.inactivity_deltas,q.eligible|5", 120, 3000, "deltas and balances, leaking and not")], own("ep.rewards,q.source_deltas,q.target_deltas,q.head_deltas,q.inclusion_deltas,q.flag_deltas,q.inactivity_deltas,q.eligible"))
sess("P19", [("altair,bellatrix,capella,deneb,electra|ep.inactivity,q.inactivity_deltas,slots,poke|5", 150, 3000, "scores and penalties, leaking and not")], own("ep.inactivity,q.inactivity_deltas"))
sess("P20", [("all|ep.registry,q.churn,q.activation_churn,initiate_exit|5", 200, 4000, "registries with queues at and around the churn limits")], own("ep.registry,q.churn,q.activation_churn,initiate_exit"))
sess("P21", [("all|exit,initiate_exit|5", 200, 4000, "exits right and wrong in each respect")], own("exit,initiate_exit"))
sess("P22", [("all|proposer_slashing,attester_slashing,slash|5", 150, 3000, "evidence right and wrong in each respect, effects")], own("proposer_slashing,attester_slashing,slash"))
sess("P23", [("all|ep.slashings,ep.slashings_reset,poke|5", 200, 4000, "slashed validators at and around the window's midpoint")], own("ep.slashings,ep.slashings_reset"))
sess("P24", [("all|ep.effective,poke,ep.rewards|5", 200, 4000, "balances at the hysteresis thresholds")], own("ep.effective"))
sess("P25", [(pre_electra + "|deposit,operations|5", 120, 3000, "deposits with right and wrong proofs, keys, signatures and counts")], own("deposit,operations"))
sess("P26", [("capella,deneb|withdrawals,q.withdrawals,poke,slots|6", 150, 3000, "sweeps from every position, exact and wrong payloads")], own("withdrawals,q.withdrawals"))
sess("P27", [("capella,deneb,electra|bls_change|4", 200, 3000, "credential changes right and wrong in each respect")], own("bls_change"))
sess("P28", [("altair,bellatrix,capella,deneb,electra|sync,ep.sync,q.next_sync,q.next_sync_indices,slots|6", 100, 2500, "aggregates, rewards, rotation and sampling")], own("sync,ep.sync,q.next_sync,q.next_sync_indices"))
def optimized(spec, owns):
    """The same questions put to the library built with its optimized shuffling."""
    return lambda c: c.sessions(spec, c.scale(300, 2500), owns=owns, what="the library built with optimized shuffling", crate="harness+shuffling")
sess("P29", [("all|q.committee,q.committee_count,q.shuffled,q.shuffle_list,q.active|8", 150, 3000, "committees and shuffles")], own("q.committee,q.committee_count,q.shuffled,q.shuffle_list,q.active"),
     optimized("all|q.committee,q.committee_count,q.active|6", own("q.committee,q.committee_count,q.active")))
sess("P30", [("all|q.proposer,slot,poke|8", 150, 3000, "proposers of consecutive slots")], own("q.proposer"),
     optimized("all|q.proposer,slot,poke|6", own("q.proposer")))
sess("P31", [("bellatrix,capella,deneb,electra|payload,q.execution_enabled|5", 150, 3000, "payloads right and wrong in each respect, before and after the merge")], own("payload,q.execution_enabled"))
sess("P32", [("deneb,electra|payload|5", 150, 3000, "blob commitments around the limit, engine verdicts")], own("payload"))
sess("P33", [("all|block,transition,in_slot,verify_block,slot|5", 100, 2500, "signed blocks with and without validation, whole and damaged")], own("block,transition,in_slot,verify_block"))
sess("P34", [(pre_electra + "|upgrade,slot|3", 120, 3000, "upgrades of varied states")], own("upgrade"))
sess("P35", [(pre_electra + "|exec,slot|5", 400, 4000, "blocks of each fork across up to two boundaries")], own("exec"))
sess("P36", [("all|genesis,q.valid_genesis,q.genesis_block|2", 150, 3000, "genesis from varied deposits")], own("genesis,q.valid_genesis,q.genesis_block"))
sess("P37", [("electra|exit,consolidation,initiate_exit,take_exit,take_consolidation,ep.pending_consolidations,q.balance_churn,q.exit_churn,q.consolidation_churn,q.active_balance,q.pending_to_withdraw|6", 150, 3000, "exits and consolidations against the balance churn")], None)
sess("P38", [("electra|deposit,deposit_receipt,ep.pending_deposits,switch,queue_excess,operations|6", 120, 3000, "deposits, receipts and their queue")], None)
sess("P39", [("electra|withdrawals,withdrawal_request,q.withdrawals,poke|6", 150, 3000, "pending partial withdrawals, sweeps and requests")], None)
sess("P40", [("electra|attestation,q.attesting,slot|6", 150, 3000, "aggregates over one or more committees")], own("attestation,q.attesting"))
sess("P47", [("all|ep.history,ep.eth1_reset,ep.slashings_reset,ep.randao_reset,epoch,slots|6", 100, 2500, "period ends and others")], own("ep.history,ep.eth1_reset,ep.slashings_reset,ep.randao_reset,epoch"))
HOSTILE_PARTS = dict(exit=ALL, bls='{"capella","deneb","electra"}', pslash=ALL, aslash=ALL, header=ALL, randao=ALL, sync=ALTAIR, payload='{"bellatrix","capella","deneb","electra"}', consol='{"electra"}', deposit=ALL,
                     attest=ALL, request='{"electra"}', receipt='{"electra"}', sweep='{"capella","deneb","electra"}', body=ALL, block=ALL)
def hostile(c):
    # by default two forks stand for all
    few = lambda fs: '{"phase0","electra"}' if fs == ALL else '{"altair","electra"}' if fs == ALTAIR else '{"bellatrix","deneb"}' if "bellatrix" in fs else '{"capella","electra"}' if "capella" in fs else fs
    c.scenes("HostileMC", [dict(Part='"%s"' % p, Fs=few(fs) if c.quick else fs, Wrongs="1") for p, fs in HOSTILE_PARTS.items()], ["Sound"], limit=c.scale(2000, 20000), init="HostileInit", next="HostileNext",
             owns=lambda r: r["r"] == "panic", what="right operations and blocks with one value replaced by each hostile one, signed again or not")
    if not c.quick:
        c.scenes("HostileMC", [dict(Part='"%s"' % p, Fs=few(fs), Wrongs="2") for p, fs in HOSTILE_PARTS.items()], ["Sound"], limit=20000, every=20, init="HostileInit", next="HostileNext", timeout=6000,
                 owns=lambda r: r["r"] == "panic", what="right operations and blocks with two values replaced by hostile ones")
HOSTILE = "attestation,proposer_slashing,attester_slashing,deposit,exit,sync,payload,withdrawals,bls_change,withdrawal_request,deposit_receipt,consolidation,header,randao,operations,block,transition,in_slot,verify_block,exec"
sess("P48", [("all|" + HOSTILE + "|6", 150, 4000, "damaged blocks and operations"),
             ("all|genesis,q.block_root,q.epoch_root,q.flags,attestation,block|4", 40, 800, "the same at genesis")], lambda r: r["r"] == "panic", hostile)


@check("P49")
def regenerated(c):
    c.findings = []                # the findings are about the committed spec modules; these are new
    kind, note = "all", None
    try:
        build("all:harness")
    except ToolError:
        kind, note = "types", "the regenerated spec modules of this tree do not compile; not covered"
    try:
        build(kind + ":layoutbin")
    except ToolError as e:
        build("layoutbin")         # the tree itself is well
        c.violation(dict(direction="code -> specification", case=dict(op="spec-gen " + kind), got="does not compile", expected="compiles", log=str(e)[-2500:]))
        return
    for preset, n in (("minimal", c.scale(8, 80)), ("mainnet", c.scale(2, 12))):
        rows = schemas(c, preset)
        c.validate("PolyTrace", c.record(layoutgen.poly(preset, rows, c.seed + 7, n), kind + ":layoutbin"), env=dict(CFG=cfg(preset)),
                   what="the polymorphic types as regenerated, %s preset" % preset)
        if kind == "all":
            c.validate("LayoutTrace", c.record(layoutgen.cases(preset, rows, c.seed + 7, c.scale(1, 6), c.scale(3, 40)), "all:layoutbin"), env=dict(CFG=cfg(preset)),
                       what="every container of the regenerated spec modules, %s preset" % preset)
    if note:
        c.parts.append(dict(part="sessions", sessions=0, what=note))
        return
    for spec, q, t, what in (("all|slots,epoch,exit,proposer_slashing,attester_slashing,deposit,operations|5", 40, 800, "the regenerated spec modules: the known findings' places"),
                             ("all|block,transition,slots|5", 30, 600, "the regenerated spec modules: blocks and slots"),
                             ("all|genesis,q.valid_genesis|2", 20, 200, "the regenerated spec modules: genesis")):
        c.sessions(spec, 4 * c.scale(q, t), what=what, crate="all:harness")
