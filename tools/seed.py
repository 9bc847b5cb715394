"""Assembles a planted bug: python3 tools/seed.py DEFS.py [ID…].
DEFS.py defines `seeds`, a list of dicts: id, property, file, edits [(old, new)…], needs, breaks and either `main` (a
Rust program run against the crate, compiled with the stand-in dependencies packed beside it) or `demo` (demo.sh's
text) with `files`.  Each bug is tried in a scratch copy of /repo before it is kept."""
import json, os, runpy, shutil, subprocess, sys, tempfile

ROOT = "/verif/seeded"
DEMO = '''#!/bin/bash
# Runs main.rs against the crate in the current directory, built with the stand-in dependencies packed beside it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
dir=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$dir"' EXIT
tar xzf "$here/kit.tgz" -C "$dir" || exit 2
prog=$(bash "$dir/build.sh" "$dir" "$repo" "$here/main.rs") || { echo "does not build"; exit 2; }
cd "$dir" && timeout 120 "$prog"
'''

def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def main():
    seeds = runpy.run_path(sys.argv[1])["seeds"]
    only = sys.argv[2:]
    for s in seeds:
        if only and s["id"] not in only:
            continue
        d = f"{ROOT}/{s['id']}"
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        if "main" in s:
            open(f"{d}/main.rs", "w").write(s["main"])
            shutil.copy(s.get("kit", "/tmp/kit.tgz"), f"{d}/kit.tgz")
            open(f"{d}/demo.sh", "w").write(DEMO)
        else:
            open(f"{d}/demo.sh", "w").write(s["demo"])
            for n, t in s.get("files", {}).items():
                open(f"{d}/{n}", "w").write(t)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                  open(f"{d}/meta.json", "w"), indent=1)
        work = tempfile.mkdtemp(prefix="seed.", dir="/tmp")
        try:
            r = sh(["git", "clone", "-q", "/repo", f"{work}/repo"])
            for e in s["edits"]:
                f, old, new = e if len(e) == 3 else (s["file"],) + tuple(e)
                p = f"{work}/repo/{f}"
                t = open(p).read()
                n = t.count(old)
                if n != 1:
                    print(s["id"], "edit matches", n, "times in", f); raise SystemExit(2)
                open(p, "w").write(t.replace(old, new))
            diff = subprocess.run(["git", "-C", f"{work}/repo", "diff"], stdout=subprocess.PIPE, text=True).stdout
            open(f"{d}/patch.diff", "w").write(diff)
            a = sh(["bash", f"{d}/demo.sh"], cwd="/repo")
            b = sh(["bash", f"{d}/demo.sh"], cwd=f"{work}/repo")
            ok = a.returncode == 0 and b.returncode not in (0, 2)
            print(s["id"], s["property"], "OK" if ok else "BAD", a.returncode, b.returncode)
            if not ok:
                print("--- clean\n", a.stdout[-3000:], "\n--- patched\n", b.stdout[-3000:])
            else:
                print("    ", b.stdout.strip().split("\n")[-1][:200])
        finally:
            shutil.rmtree(work)

main()
