"""Values of SSZ containers in their JSON form, from the schemas the specification emits."""
import random


def hexs(r, n):
    c = r.random()
    if c < 0.2:
        return "0x" + "00" * n
    if c < 0.3:
        return "0x" + "ff" * n
    return "0x" + bytes(r.getrandbits(8) for _ in range(n)).hex()


def uint(r, bits):
    c = r.random()
    top = 2 ** bits - 1
    if c < 0.15:
        return 0
    if c < 0.3:
        return top
    if c < 0.4:
        return top - r.randrange(3)
    if c < 0.6:
        return r.randrange(min(top, 2 ** 20))
    return r.getrandbits(bits)


def base58(b):
    n, out = int.from_bytes(b, "big"), ""
    while n:
        n, d = divmod(n, 58)
        out = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"[d] + out
    return "1" * (len(b) - len(b.lstrip(b"\0"))) + out


def size(ty):
    """about how many bytes of JSON one value takes"""
    t = ty["t"]
    if t in ("u", "u256", "bool", "bl", "text", "texts", "flag", "enum"):
        return 20
    if t == "peer":
        return 60
    if t == "bv":
        return 2 * ty["n"]
    if t in ("bitv", "bitl"):
        return 4 + ty["n"] // 32
    if t == "vec":
        return 20 + min(ty["n"], 40) * size(ty["e"])
    if t == "list":
        return 40
    return sum(20 + size(f[1]) for f in ty["fs"])


def bits(r, n, bitlist):
    c = r.random()
    v = [0] * n if c < 0.2 else [1] * n if c < 0.4 else [r.getrandbits(1) for _ in range(n)]
    if bitlist:
        v = v + [1]
    b = bytearray((len(v) + 7) // 8)
    for k, x in enumerate(v):
        b[k // 8] |= x << (k % 8)
    return "0x" + b.hex()


def num(n):
    return int(n)


def gen(ty, r, mode, depth=0):
    """mode: zero | rnd | full"""
    t = ty["t"]
    if t == "u":
        return str(0 if mode == "zero" else uint(r, 8 * ty["n"]))
    if t == "u256":
        return str(0 if mode == "zero" else uint(r, 256))
    if t in ("bool", "flag"):
        return mode != "zero" and r.random() < 0.5
    if t == "text":
        return r.choice(["", "x", "enr:-abc", "/ip4/127.0.0.1/tcp/9000", "Lighthouse/v1", "12", "0x00"])
    if t == "texts":
        names = ["SECONDS_PER_SLOT", "CONFIG_NAME", "DEPOSIT_CONTRACT_ADDRESS", "TERMINAL_TOTAL_DIFFICULTY", "x", "ELECTRA_FORK_EPOCH"]
        return {n: r.choice(["", "12", "mainnet", "0x00", "18446744073709551615"]) for n in r.sample(names, r.randrange(1, 6))}
    if t == "enum":
        return r.choice(ty["vs"])
    if t == "peer":
        return base58(bytes([18, 32]) + bytes(r.getrandbits(8) for _ in range(32)))
    if t == "bv":
        return "0x" + "00" * ty["n"] if mode == "zero" else hexs(r, ty["n"])
    if t == "bl":
        m = min(num(ty["n"]), 600)
        return "0x" if mode == "zero" else hexs(r, m if mode == "full" else r.choice([0, 1, 31, 32, 33, r.randrange(m + 1), m]) % (m + 1))
    if t == "bitv":
        return "0x" + "00" * ((ty["n"] + 7) // 8) if mode == "zero" else bits(r, ty["n"], False)
    if t == "bitl":
        n = num(ty["n"])
        return "0x01" if mode == "zero" else bits(r, n if mode == "full" or r.random() < 0.1 else r.choice([0, 1, 7, 8, 9, 255, 256, 257, r.randrange(300)]) % (n + 1), True)
    if t == "vec":
        n = ty["n"]
        if n > 64:
            return {"len": n, "fill": gen(ty["e"], r, mode, depth + 1),
                    "at": [[i, gen(ty["e"], r, "rnd", depth + 1)] for i in sorted({0, n - 1, r.randrange(n), r.randrange(n)})] if mode != "zero" else []}
        return [gen(ty["e"], r, mode, depth + 1) for _ in range(n)]
    if t == "list":
        n, s = num(ty["n"]), size(ty["e"])
        if mode == "zero":
            k = 0
        elif mode == "full" and n * s <= 60000:
            k = n
        else:
            k = min(n, r.choice([0, 1, 2, 3, 4, 5]), 2 + 6000 // s)
        if mode == "full" and k < n <= 9000 and s < 2000:
            return {"len": n, "fill": gen(ty["e"], r, "rnd", depth + 1), "at": [[n - 1, gen(ty["e"], r, "rnd", depth + 1)]]}
        return [gen(ty["e"], r, "rnd" if depth > 1 and mode == "full" and s > 300 else mode, depth + 1) for _ in range(k)]
    return {f[0]: gen(f[1], r, mode, depth + 1) for f in ty["fs"]}


def places(ty, v, path=()):
    """(path, type) of everything below that can be spoiled"""
    t = ty["t"]
    out = [(path, ty)] if path else []
    if t == "cont":
        for n, e in ty["fs"]:
            out += places(e, v[n], path + (n,))
    elif t in ("list", "vec") and isinstance(v, list):
        for k in range(min(len(v), 2)):
            out += places(ty["e"], v[k], path + (k,))
    return out


def spoil(ty, v, r):
    """Breaks one thing about v, or stretches it exactly to a limit; None if that would be too large."""
    path, t = r.choice(places(ty, v))
    at = v
    for k in path[:-1]:
        at = at[k]
    k, old = path[-1], at[path[-1]]
    n = num(t.get("n", 0))
    if isinstance(k, str) and r.random() < 0.1:
        del at[k]
        return v
    kind = t["t"]
    if kind == "u":
        at[k] = str(2 ** (8 * n) + r.choice([-1, 0, 0, 1]))
    elif kind == "u256":
        at[k] = str(2 ** 256 + r.choice([-1, 0, 1]))
    elif kind == "enum":
        at[k] = r.choice([old.upper(), old + "x", ""])
    elif kind == "bv":
        at[k] = hexs(r, max(0, n + r.choice([-1, 1])))
    elif kind == "bl":
        if n > 4000:
            return None
        at[k] = hexs(r, n + r.choice([0, 1]))
    elif kind == "bitv":
        if n % 8 and r.random() < 0.5:
            b = bytearray.fromhex(old[2:])
            b[-1] |= 1 << r.randrange(n % 8, 8)
            at[k] = "0x" + b.hex()
        else:
            at[k] = "0x" + "00" * ((n + 7) // 8 + r.choice([-1, 1]))
    elif kind == "bitl":
        at[k] = r.choice(["0x", "0x00", "0x0100", bits(r, n, True), bits(r, n + 1, True)])
    elif kind == "vec":
        m = n + r.choice([-1, 1])
        at[k] = {"len": m, "fill": gen(t["e"], r, "zero"), "at": []}
    elif kind == "list":
        m = n + r.choice([0, 1, 1])
        if m > 9000 or m * size(t["e"]) > 2000000:
            return None
        at[k] = {"len": m, "fill": gen(t["e"], r, "zero"), "at": []}
    else:
        return None
    return v


def cases(preset, schemas, seed, heavy, light):
    """Cases for every container: `light` random values each of the small ones, `heavy` of the states."""
    out = []
    for s in schemas:
        r = random.Random("%s.%s.%s.%d" % (preset, s["fork"], s["name"], seed))
        big = s["name"] == "BeaconState" and preset == "mainnet" or s["name"] in ("HistoricalBatch", "BlobsBundle", "BlobSidecar")
        n = heavy if big else light
        vals = [gen(s["ty"], r, "zero")] + ([] if big and s["name"] == "BlobsBundle" else [gen(s["ty"], r, "full")])
        vals += [gen(s["ty"], r, "rnd") for _ in range(n)]
        for _ in range(2 * n):
            v = spoil(s["ty"], gen(s["ty"], r, r.choice(["zero", "rnd"])), r)
            if v is not None:
                vals.append(v)
        out += [dict(op="layout." + preset, a=dict(fork=s["fork"], name=s["name"], v=v)) for v in vals]
    return out


POLY = ["BeaconState", "BeaconBlockBody", "BeaconBlock", "SignedBeaconBlock", "BlindedBeaconBlockBody", "BlindedBeaconBlock",
        "SignedBlindedBeaconBlock", "ExecutionPayload", "ExecutionPayloadHeader"]


def sub(o, path):
    for k in path:
        o = o[k]
    return o


def poly(preset, schemas, seed, n):
    """Values of the polymorphic types: each fork's own, damaged, with members of other forks added, and with one taken away."""
    out = []
    for name in POLY:
        ts = [s for s in schemas if s["name"] == name and s["fork"] in ("phase0", "altair", "bellatrix", "capella", "deneb")]
        for s in ts:
            r = random.Random("poly.%s.%s.%s.%d" % (preset, s["fork"], name, seed))
            vals = [gen(s["ty"], r, "zero")] + [gen(s["ty"], r, "rnd") for _ in range(n)]
            if not (name == "BeaconState" and preset == "mainnet"):
                vals.append(gen(s["ty"], r, "full"))
            for _ in range(n):
                v = spoil(s["ty"], gen(s["ty"], r, r.choice(["zero", "rnd"])), r)
                vals += [] if v is None else [v]
            for _ in range(n):
                # the members of another fork's value, at any depth, on top of this one's or under it
                o = gen(r.choice(ts)["ty"], r, "zero")
                v = gen(s["ty"], r, "rnd" if r.random() < 0.5 else "zero")

                def merge(a, b):
                    m = dict(a)
                    for k in b:
                        if k not in a:
                            m[k] = b[k]
                        elif isinstance(a[k], dict) and isinstance(b[k], dict) and "len" not in a[k] and "len" not in b[k]:
                            m[k] = merge(a[k], b[k])
                    return m
                v = merge(v, o)
                if r.random() < 0.6:
                    fields = [p for p, t in places(s["ty"], v) if isinstance(p[-1], str)]
                    top = [p for p in fields if len(p) <= 4]
                    p = r.choice(top)
                    del sub(v, p[:-1])[p[-1]]
                if r.random() < 0.3:
                    v["extra_member"] = "0"
                vals.append(v)
            out += [dict(op="poly." + preset, a=dict(name=name, v=v)) for v in vals]
    return out


def bodies(preset, schemas, seed, n):
    """Block bodies with none to many commitments, for the proofs of where each one is."""
    out = []
    for fork in ("deneb", "electra"):
        ty = next(s["ty"] for s in schemas if s["fork"] == fork and s["name"] == "BeaconBlockBody")
        r = random.Random("proof.%s.%s.%d" % (preset, fork, seed))
        for k in range(n):
            v = gen(ty, r, r.choice(["zero", "rnd"]))
            m = [0, 1, 6, 2, 5, 3][k] if k < 6 else r.randrange(33)
            v["blob_kzg_commitments"] = ["0x" + bytes(r.getrandbits(8) for _ in range(48)).hex() for _ in range(m)]
            out.append(dict(fork=fork, body=v))
    return out
