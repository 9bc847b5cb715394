"""Calls of the Beacon API client with scripted replies, from the calls the specification emits."""
import json, random
from layoutgen import base58, gen, hexs, size, spoil, uint

STATUSES = ["pending_initialized", "pending_queued", "active_ongoing", "active_exiting", "active_slashed", "exited_unslashed",
            "exited_slashed", "withdrawal_possible", "withdrawal_done", "active", "pending", "exited", "withdrawal"]


def some(r, f, n=4):
    return [f() for _ in range(r.choice([0, 1, 1, 2, 3, n]))]


def arg(kind, r):
    """the argument, or None where it is left out"""
    u = lambda: str(uint(r, 64))
    validator = lambda: u() if r.random() < 0.6 else hexs(r, 48)
    if kind == "state":
        return r.choice(["head", "genesis", "finalized", "justified", u(), hexs(r, 32)])
    if kind == "block":
        return r.choice(["head", "genesis", "finalized", u(), hexs(r, 32)])
    if kind == "validators":
        return some(r, validator)
    if kind == "validator":
        return validator()
    if kind == "statuses":
        return some(r, lambda: r.choice(STATUSES))
    if kind == "indices":
        return some(r, lambda: str(r.randrange(6)), 6)
    if kind == "peerstates":
        return some(r, lambda: r.choice(["disconnected", "connecting", "connected", "disconnecting"]))
    if kind == "directions":
        return some(r, lambda: r.choice(["inbound", "outbound"]), 2)
    if kind == "u64":
        return u()
    if kind == "root":
        return hexs(r, 32)
    if kind == "signature":
        return hexs(r, 96)
    if kind == "peer":
        return base58(bytes([18, 32]) + bytes(r.getrandbits(8) for _ in range(32)))
    if kind == "fork":
        return r.choice(["phase0", "altair", "bellatrix", "capella", "deneb", "electra"])
    if kind == "maybe":
        return r.choice([None, u(), u()])
    if kind == "mayberoot":
        return r.choice([None, hexs(r, 32)])
    if kind == "validation":
        return r.choice([None, "gossip", "consensus", "consensus_and_equivocation"])
    raise Exception(kind)


def refusal(r):
    b = dict(code=r.choice([400, 404, 500, 503, 100, 999, 99, 1000]), message=r.choice(["", "no such state", "too busy"]))
    if r.random() < 0.4:
        b["failures"] = [dict(index=r.randrange(5), message=r.choice(["", "bad"])) for _ in range(r.randrange(3))]
    if r.random() < 0.3:
        b["stacktraces"] = ["a", "b"]
    return b


def extras(r, b):
    if r.random() < 0.7:
        b.update(execution_optimistic=r.random() < 0.5, finalized=r.random() < 0.5)
    return b


def value(ty, r, mode, damaged):
    v = gen(ty, r, mode)
    if damaged:
        w = spoil(dict(t="cont", fs=[["x", ty]]), dict(x=v), r)
        v = w["x"] if w and "x" in w else gen(ty, r, mode)
    return v


def reply(e, r, heavy):
    rep, k = e["reply"], r.random()
    if k < 0.04:
        return dict(kind="broken", status=200, body="", of="all")
    if rep["kind"] == "health":
        return dict(kind="junk", status=r.choice([200, 206, 503, 400, 500, 404, 204]), body="", of="all")
    if rep["kind"] == "none":
        if k < 0.5:
            return dict(kind=r.choice(["junk", "error"]) if r.random() < 0.2 else "junk", status=r.choice([200, 202]), body=refusal(r), of="all")
        return dict(kind=r.choice(["error", "error", "junk"]), status=r.choice([400, 404, 500, 503, 415]), body=refusal(r), of="all")
    if rep["kind"] == "events":
        return dict(kind="value", status=200, of=(f := r.choice(sorted(rep["tys"]))), body=[
            dict(version=f if r.random() < 0.9 else "nofork", data=gen(rep["tys"][f], r, "rnd")) for _ in range(r.randrange(4))])
    if k < 0.2:
        return dict(kind="error", status=r.choice([400, 404, 500, 503]), body=refusal(r), of="all")
    if k < 0.25:
        return dict(kind="junk", status=r.choice([200, 400, 500]), body=refusal(r), of="all")
    f = r.choice(sorted(rep["tys"]))
    ty = rep["tys"][f]
    damaged = r.random() < 0.25 and not (rep["kind"] == "versioned")
    mode = "zero" if heavy or r.random() < 0.2 else "rnd"
    if rep["kind"] == "updates":
        body = [extras(r, dict(version=f, data=value(ty, r, mode, False))) for _ in range(r.randrange(3))]
        if body and damaged:
            body[0]["data"] = value(ty, r, mode, True)
        if body and r.random() < 0.1:
            body[-1]["version"] = "nofork"
        return dict(kind="value", status=200, of=f, body=body)
    body = extras(r, dict(data=value(ty, r, mode, damaged)))
    if rep["kind"] == "versioned":
        body["version"] = f if r.random() < 0.92 else "nofork"
        if r.random() < 0.05:
            del body["version"]
        if f == "bellatrix" or f == "capella" or f == "deneb":
            body["execution_payload_blinded"] = False
    if rep["kind"] == "duties":
        body["dependent_root"] = hexs(r, 32 if r.random() < 0.9 else 31)
        if r.random() < 0.1:
            del body["dependent_root"]
    if r.random() < 0.06:
        del body["data"]
    return dict(kind="value", status=200, of=f, body=body)


def cases(preset, endpoints, seed, n):
    out = []
    for e in endpoints:
        r = random.Random("api.%s.%s.%d" % (preset, e["op"], seed))
        heavy = preset == "mainnet" and e["reply"]["kind"] == "versioned"
        for _ in range(n if not heavy else max(4, n // 6)):
            a = dict(base=r.choice(["http://127.0.0.1:5052/", "https://node.example/", "http://10.0.0.1:3500/some/prefix/"]))
            for name, kind in e["args"]:
                v = arg(kind, r)
                if v is not None:
                    a[name] = v
            if e["body"]["t"] != "none":
                a["body"] = gen(e["body"], r, r.choice(["zero", "rnd", "rnd"]))
            a["reply"] = reply(e, r, heavy)
            out.append(dict(op="api." + e["op"], a=dict(a, preset=preset)))
    r = random.Random("names.%d" % seed)
    for _ in range(10 * n):
        t = r.choice([arg("state", r), arg("state", r), "Head", "head ", "", "0x", hexs(r, 31), hexs(r, 33), str(2 ** 64 + r.randrange(2)), "-1", "1.5", "0xzz" + "0" * 62, "1e3"])
        out.append(dict(op="api.state_name", a=dict(text=t)))
    return out
