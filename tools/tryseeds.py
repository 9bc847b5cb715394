"""Runs, for each planted bug (or those named), the quick check of its property with the bug applied to /repo, and
undoes it: python3 tools/tryseeds.py [ID…]"""
import json, os, subprocess, sys, time
R = "/verif/seeded"
checks = {}
for c in json.load(open("/verif/MANIFEST.json"))["checks"]:
    for p in (c["properties"] if "properties" in c else [c.get("property") or c.get("property_id")]):
        checks[p] = c
def cmd(c):
    q = c.get("quick") or c.get("quick_cmd")
    return q["cmd"] if isinstance(q, dict) else q
for i in sys.argv[1:] or sorted(os.listdir(R)):
    d = f"{R}/{i}"
    p = json.load(open(d + "/meta.json"))["property"]
    if subprocess.run(["git", "-C", "/repo", "apply", d + "/patch.diff"]).returncode:
        print(i, "does not apply"); continue
    t = time.time()
    try:
        env = dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick")
        r = subprocess.run(cmd(checks[p]), shell=True, cwd="/verif", env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
    v = [l for l in r.stdout.split("\n") if l.startswith("VIOLATION property=" + p)]
    print(f"{'CAUGHT' if r.returncode == 1 and v else 'MISSED'} {p} {i} rc={r.returncode} {time.time()-t:.0f}s", flush=True)
    if not (r.returncode == 1 and v):
        print("   ", r.stdout[-400:])
