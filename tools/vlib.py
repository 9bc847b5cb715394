"""Shared machinery of the checks: building, running TLC and the harnesses, reporting."""
import hashlib, json, os, random, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPEC = os.path.join(VERIF, "spec")
WORK = os.path.join(VERIF, "work")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="1.85.0-x86_64-unknown-linux-gnu",
           CARGO_RESOLVER_INCOMPATIBLE_RUST_VERSIONS="fallback", CARGO_NET_OFFLINE="true",
           CARGO_TERM_COLOR="never")
ENV.pop("JAVA_TOOL_OPTIONS", None)
CPUS = os.cpu_count() or 4


class ToolError(Exception):
    pass


def sh(cmd, timeout=None, env=None, cwd=None, ok=(0,), out=None):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env or ENV, timeout=timeout, stdout=out or subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, errors="replace")
    except subprocess.TimeoutExpired:
        raise ToolError("timed out: " + " ".join(map(str, cmd)))
    if p.returncode not in ok:
        raise ToolError("exit %d: %s\n%s" % (p.returncode, " ".join(map(str, cmd)), (p.stdout or "")[-6000:]))
    return p.stdout or ""


def tree_hash(*roots):
    h = hashlib.sha256()
    for root in roots:
        if os.path.isfile(root):
            files = [root]
        else:
            files = []
            for d, ds, fs in os.walk(root):
                ds[:] = sorted(x for x in ds if x not in ("target", ".git", "work"))
                files += [os.path.join(d, f) for f in sorted(fs)]
        for f in files:
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def build_classes():
    src = os.path.join(SPEC, "java")
    out = os.path.join(WORK, "classes")
    stamp = os.path.join(WORK, "classes.stamp")
    h = tree_hash(src)
    if os.path.exists(stamp) and open(stamp).read() == h:
        return
    os.makedirs(out, exist_ok=True)
    d = os.path.join(src, "tlc2/overrides")
    sh(["javac", "-nowarn", "-d", out, "-cp", JARS] + [os.path.join(d, f) for f in sorted(os.listdir(d))])
    open(stamp, "w").write(h)


# harness crate -> the parts of /repo its build depends on
CRATES = {
    "harness": dict(dir="harness", clean=["ethereum-consensus"], deps=["ethereum-consensus/src"]),
    # the same, with the library's optimized shuffling switched on
    "harness+shuffling": dict(dir="harness", clean=["ethereum-consensus"], deps=["ethereum-consensus/src"], features="shuffling", target="shuffling"),
    # the `ec` tool; `private` also calls private constructors, and is left out if those are gone
    "ecbin": dict(dir="ecbin", clean=["ethereum-consensus", "ecbin"], deps=["ethereum-consensus/src"], features="private"),
    # containers, polymorphic types, proofs
    "layoutbin": dict(dir="layoutbin", clean=["ethereum-consensus"], deps=["ethereum-consensus/src"]),
    # the Beacon API client over a recording transport
    "clientbin": dict(dir="clientbin", clean=["ethereum-consensus", "beacon-api-client"], deps=["ethereum-consensus/src", "beacon-api-client/src"]),
    # the spec-gen tool, and the harness that runs it
    "spec-gen": dict(dir="crates/spec-gen", clean=["spec-gen"], deps=["spec-gen/src"]),
    "genbin": dict(dir="genbin", clean=[], deps=[], needs=["spec-gen"]),
}


def mirror(src, dst):
    """Makes dst a copy of src, touching only what differs."""
    os.makedirs(dst, exist_ok=True)
    for n in set(os.listdir(dst)) - set(os.listdir(src)) - {"target"}:
        p = os.path.join(dst, n)
        shutil.rmtree(p) if os.path.isdir(p) else os.remove(p)
    for n in os.listdir(src):
        a, b = os.path.join(src, n), os.path.join(dst, n)
        if n == "target":
            continue
        if os.path.isdir(a):
            mirror(a, b)
        else:
            put(b, open(a, "rb").read())


def put(path, data):
    if not os.path.exists(path) or open(path, "rb").read() != data:
        with open(path, "wb") as f:
            f.write(data)


def regenerate(kind):
    """The library of /repo with what its spec-gen writes for it: kind "types" or "all" (the spec modules too)."""
    gen = build("spec-gen")
    new = os.path.join(WORK, "regen", "new")
    shutil.rmtree(new, ignore_errors=True)
    shutil.copytree(os.path.join(REPO, "ethereum-consensus", "src"), os.path.join(new, "ethereum-consensus", "src"))
    for part in ["types"] + (["forks"] if kind == "all" else []):
        sh([gen, part], cwd=new, timeout=120)
    root = os.path.join(WORK, "regen", kind)
    mirror(os.path.join(new, "ethereum-consensus", "src"), os.path.join(root, "ethereum-consensus", "src"))
    shutil.rmtree(new)
    for d in ("crates/ethereum-consensus", "layoutbin", "harness"):
        mirror(os.path.join(VERIF, d), os.path.join(root, d))
    t = os.path.join(root, "crates/ethereum-consensus/Cargo.toml")
    put(t, open(os.path.join(VERIF, "crates/ethereum-consensus/Cargo.toml"), "rb").read().replace(b"/repo/", root.encode() + b"/"))
    if not os.path.islink(os.path.join(root, "shims")):
        os.symlink(os.path.join(VERIF, "shims"), os.path.join(root, "shims"))
    return root


def build_regenerated(crate):
    """"types:layoutbin" is layoutbin over the library with regenerated types."""
    kind, name = crate.split(":")
    root = regenerate(kind)
    d = os.path.join(root, CRATES[name]["dir"])
    sh(["cargo", "build", "--offline", "--quiet"], cwd=d, timeout=1500)
    return os.path.join(d, "target", "debug", os.path.basename(d))


def build(crate="harness"):
    """Rebuilds the harness from /repo's working tree; sources are compared by content, not by mtime."""
    if ":" in crate:
        return build_regenerated(crate)
    c = CRATES[crate]
    for n in c.get("needs", []):
        build(n)
    d = os.path.join(VERIF, c["dir"])
    out = os.path.join(WORK, c["target"]) if "target" in c else os.path.join(d, "target")
    where = ["--target-dir", out]
    os.makedirs(WORK, exist_ok=True)
    stamp = os.path.join(WORK, crate + ".stamp")
    h = tree_hash(*[os.path.join(REPO, x) for x in c["deps"]])
    old = open(stamp).read() if os.path.exists(stamp) else ""
    if old != h:
        if os.path.exists(stamp):
            os.remove(stamp)
        for p in c["clean"]:
            sh(["cargo", "clean", "--offline", "-p", p] + where, cwd=d, timeout=120)
    cmd = ["cargo", "build", "--offline", "--quiet"] + where
    try:
        sh(cmd + (["--features", c["features"]] if "features" in c else []), cwd=d, timeout=1500)
    except ToolError:
        if "features" not in c:
            raise
        sh(cmd, cwd=d, timeout=1500)
    open(stamp, "w").write(h)
    return os.path.join(out, "debug", c.get("bin", os.path.basename(c["dir"])))


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier != "thorough"
        self.t0 = time.time()
        self.dir = os.path.join(WORK, "run", pid)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.states = self.transitions = self.traces = 0
        self.samples, self.notes, self.violations, self.known = [], [], [], []
        self.parts = []
        kf = os.path.join(VERIF, "known_findings.json")
        self.findings = json.load(open(kf))["findings"] if os.path.exists(kf) else []
        self.n = 0

    def scale(self, q, t):
        return q if self.quick else t

    def path(self, name):
        return os.path.join(self.dir, name)

    # ---- TLC
    def tlc(self, module, consts=(), init="Init", next="Next", invs=(), props=(), env=None, workers=None,
            timeout=600, extra=(), check=True, view=None, constraint=None, spec=None, deadlock=False, heap="6g"):
        """Runs TLC on spec/<module>.tla with a generated config; returns (output, generated, distinct, emitted lines)."""
        self.n += 1
        tag = "%s-%d" % (module, self.n)
        cfg = self.path(tag + ".cfg")
        with open(cfg, "w") as f:
            f.write(("SPECIFICATION %s\n" % spec) if spec else "INIT %s\nNEXT %s\n" % (init, next))
            for k, v in dict(consts).items():
                f.write("CONSTANT %s %s\n" % (k, v if v.startswith("<-") else "= " + v))
            for i in invs:
                f.write("INVARIANT %s\n" % i)
            for i in props:
                f.write("PROPERTY %s\n" % i)
            if view:
                f.write("VIEW %s\n" % view)
            if constraint:
                f.write("CONSTRAINT %s\n" % constraint)
            f.write("CHECK_DEADLOCK %s\n" % ("TRUE" if deadlock else "FALSE"))
        out = self.path(tag + ".out")
        e = dict(ENV, TLC_OUT=out)
        e.update(env or {})
        cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC",
               "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:tlc2.overrides.VerifOverrides",
               "-DTLA-Library=" + SPEC, "-cp", os.path.join(WORK, "classes") + ":" + JARS, "tlc2.TLC",
               "-workers", str(workers or CPUS), "-metadir", self.path(tag + ".meta"), "-noGenerateSpecTE",
               "-seed", str(self.seed), "-config", cfg] + list(extra) + [os.path.join(SPEC, module + ".tla")]
        log = sh(cmd, timeout=timeout, env=e, cwd=SPEC, ok=range(256))
        open(self.path(tag + ".log"), "w").write(log)
        shutil.rmtree(self.path(tag + ".meta"), ignore_errors=True)
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", log.replace(",", "").replace("generated ", "generated, ", 0)) \
            or re.findall(r"(\d+) states generated (\d+) distinct states found", log.replace(",", ""))
        gen, dis = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        if check and ("Model checking completed. No error has been found." not in log) and "-simulate" not in extra:
            raise ToolError("TLC failed on %s:\n%s" % (module, "\n".join(l[:300] for l in log.splitlines())[-5000:]))
        lines = [json.loads(l) for l in open(out)] if os.path.exists(out) else []
        return log, gen, dis, lines

    def model(self, module, consts=(), invs=(), props=(), what="", **kw):
        """Design check: the specification itself satisfies the property within the given bounds."""
        log, gen, dis, lines = self.tlc(module, consts, invs=invs, props=props, **kw)
        if dis == 0:
            raise ToolError("no states explored in " + module)
        self.states += dis
        self.transitions += gen
        self.parts.append(dict(part="model", module=module, states=dis, transitions=gen, invariants=list(invs) + list(props),
                               what=what))
        return lines

    # ---- direction specification -> code
    def replay(self, cases, crate="harness", what="", cmp=None):
        """Runs specification-made cases {op, a, e} in the real code and compares with e."""
        if not cases:
            raise ToolError("no cases to replay: " + what)
        binary = build(crate)
        i, o = self.path("cases-%d.ndjson" % self.n), self.path("cases-%d.out" % self.n)
        with open(i, "w") as f:
            for n, c in enumerate(cases):
                f.write(json.dumps(dict(c, id=n)) + "\n")
        sh([binary, "exec", i, o], timeout=800)
        bad = 0
        got = [json.loads(l) for l in open(o)]
        if len(got) != len(cases):
            raise ToolError("harness lost cases")
        for c, g in zip(cases, got):
            if g["r"] == "skipped":
                continue
            if not (cmp(c, g["r"]) if cmp else c["e"] == g["r"]):
                bad += 1
                self.violation(dict(direction="specification -> code", case=dict(op=c["op"], a=c["a"]), expected=c["e"], got=g["r"]))
        self.traces += len(cases)
        self.parts.append(dict(part="replay", cases=len(cases), mismatches=bad, what=what))
        self.sample(dict(op=cases[len(cases) // 2]["op"], a=cases[len(cases) // 2]["a"]))
        return got

    # ---- direction code -> specification
    def record(self, cases, crate, timeout=800):
        """Runs cases {op, a} in the real code; returns the recorded trace."""
        binary = build(crate)
        self.n += 1
        i, o = self.path("in-%d.ndjson" % self.n), self.path("trace-%d.ndjson" % self.n)
        with open(i, "w") as f:
            for n, c in enumerate(cases):
                f.write(json.dumps(dict(c, id=n)) + "\n")
        sh([binary, "exec", i, o], timeout=timeout)
        os.remove(i)
        return o

    def gen(self, family, n, crate="harness", extra=()):
        binary = build(crate)
        o = self.path("trace-%s-%d.ndjson" % (family, self.n))
        sh([binary, "gen", family, str(self.seed), str(n), o] + list(extra), timeout=800)
        return o

    def validate(self, module, trace, what="", **kw):
        """TLC checks each recorded call of `trace` against the specification."""
        rows = [json.loads(l) for l in open(trace)]
        log, gen, dis, lines = self.tlc(module, env=dict(TRACE=trace, **kw.pop("env", {})), **kw)
        if dis != len(rows) + 16:
            raise ToolError("trace not consumed: %d states for %d lines\n%s" % (dis, len(rows), log[-3000:]))
        byid = {r["id"]: r for r in rows}
        for m in lines:
            r = byid[m["id"]]
            if r["r"] == "skipped":
                continue
            self.violation(dict(direction="code -> specification", case=dict(op=r["op"], a=r["a"]), got=r["r"], expected=m["expected"]))
        self.states += dis
        self.transitions += gen
        self.traces += len(rows)
        self.parts.append(dict(part="trace", module=module, calls=len(rows), mismatches=len(lines), what=what))
        if rows:
            r = rows[len(rows) // 3]
            self.sample(dict(op=r["op"], a=r["a"], r=r["r"]))
        return rows

    # ---- sessions: beacon states of the tiny preset driven through operations
    def sessions(self, spec, n, owns=None, what="", cfg="tiny", seed=None, crate="harness", **kw):
        """Records n sessions ("forks|ops|length") of the real code; TLC judges every step. `owns`: the
        operations whose verdict is this property's (default: all)."""
        binary = build(crate)
        o = self.path("sess-%d.ndjson" % self.n)
        sh([binary, "sessions", spec, str(self.seed if seed is None else seed), str(n), o], timeout=800)
        return self.judge(o, owns, what, cfg, dict(part="sessions", spec=spec, sessions=n), **kw)

    def scenes(self, module, consts=(), invs=(), limit=1500, owns=None, what="", cfg="tiny", props=(), every=1, crate="harness", **kw):
        """A model of the state transition: TLC checks its invariants and emits every transition as a behaviour
        {init, steps}; the real code runs (at most `limit` of) them and TLC judges what it did."""
        cases = []
        for more in consts if isinstance(consts, list) else [consts]:
            cases += self.model(module, more, invs=invs, props=props, what=what, env=dict(CFG=os.path.join(SPEC, "cfg", cfg + ".json"), TLC_EVERY=str(every)), **kw)
        cases = sorted({json.dumps(x, sort_keys=True) for x in cases})
        total = len(cases)
        if total == 0:
            raise ToolError("no behaviours from " + module)
        random.Random(self.seed).shuffle(cases)
        binary = build(crate)
        self.n += 1
        i, o = self.path("scenes-%d.ndjson" % self.n), self.path("scenes-%d.out" % self.n)
        with open(i, "w") as f:
            f.write("\n".join(cases[:limit]) + "\n")
        sh([binary, "scenes", i, o], timeout=800)
        return self.judge(o, owns, "replayed on the real code: " + what, cfg, dict(part="scenes", module=module, behaviours=min(limit, total), emitted=total))

    def judge(self, o, owns, what, cfg, part, **kw):
        rows = [json.loads(l) for l in open(o)]
        log, gen, dis, lines = self.tlc("SessTrace", env=dict(TRACE=o, CFG=os.path.join(SPEC, "cfg", cfg + ".json")), view="View", **kw)
        want = len(rows) + sum(r["op"] == "genesis" for r in rows)
        if dis != want:
            raise ToolError("trace not consumed: %d states for %d lines\n%s" % (dis, want, log[-3000:]))
        bad = 0
        for m in lines:
            r = rows[m["k"] - 1]
            if owns and not owns(r):
                continue
            bad += 1
            fork = r["d"]["fk"]
            got = {f: r["d"].get(f, "unchanged") for f in m["diff"]} if m["diff"] and "value" not in m["diff"] else r.get("v")
            self.violation(dict(direction="code -> specification", case=dict(op=r["op"], a=r["a"], fork=fork, session=r["s"], line=m["k"], trace=o),
                                got=dict(r=r["r"], v=got, m=r.get("m")), expected=dict(r=m["want"], diff=m["diff"]), dev=m["dev"]))
        per = {}
        for r in rows:
            if r["op"] not in ("init", "poke"):
                q = per.setdefault(r["op"], [0, 0])
                q[r["r"] == "ok"] += 1
        self.states += dis
        self.transitions += gen
        self.traces += sum(sum(v) for v in per.values())
        self.parts.append(dict(part, steps=len(rows), mismatches=bad,
                               outcomes={k: dict(ok=v[1], rejected=v[0]) for k, v in sorted(per.items())}, what=what))
        for r in rows:
            if owns is None or owns(r):
                if r["op"] not in ("init", "poke"):
                    self.sample(dict(op=r["op"], a=r["a"], r=r["r"]))
                    if len(self.samples) >= 4:
                        break
        return rows, lines

    def sample(self, s):
        t = json.dumps(s)
        if len(self.samples) < 6:
            self.samples.append(s if len(t) < 2500 else t[:2500] + "...")

    # ---- verdict
    def violation(self, v):
        for f in self.findings:
            if matches(f["match"], v):
                self.known.append(f)
                return
        self.violations.append(v)

    def finish(self):
        rd = os.path.join(WORK, "replay")
        os.makedirs(rd, exist_ok=True)
        seen = set()
        for f in self.known:
            if f["id"] not in seen and self.pid in f["properties"]:
                seen.add(f["id"])
                print("KNOWN-FINDING: property=%s %s" % (self.pid, f["what"]))
        for k, v in enumerate(self.violations[:20]):
            p = os.path.join(rd, "%s-%d.json" % (self.pid, k))
            json.dump(v, open(p, "w"), indent=1)
            if k == 0:
                t = json.dumps(v)
                print("VIOLATION property=%s replay=%s" % (self.pid, p))
                print("  " + t[:1500])
        if len(self.violations) > 1:
            print("  (%d violating cases in all)" % len(self.violations))
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level="model_checking",
                  coverage=dict(states=self.states, transitions=self.transitions,
                                traces_validated_against_impl=self.traces, samples=self.samples, parts=self.parts),
                  assumptions=self.notes, wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w"), indent=1)
        print("%s %s: %d states, %d calls/behaviours compared with the code, %d violations, %.1f s" % (
            self.pid, self.tier, self.states, self.traces, len(self.violations), time.time() - self.t0))
        return 1 if self.violations else 0


def matches(pat, v):
    """A pattern matches a value when every key it names matches (strings starting with ~ are regexes)."""
    if isinstance(pat, dict):
        return isinstance(v, dict) and all(k in v and matches(p, v[k]) for k, p in pat.items())
    if isinstance(pat, str) and pat.startswith("~"):
        return re.search(pat[1:], v if isinstance(v, str) else json.dumps(v)) is not None
    return pat == v
