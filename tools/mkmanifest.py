#!/usr/bin/env python3
"""Writes MANIFEST.json from the registered checks."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import checks
props = [json.loads(l) for l in open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"))]
NA = dict(getattr(checks, "NOT_APPLICABLE", {}))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=[], not_applicable=[],
         notes="Specification in spec/ (TLA+, TLC). tools/check.py runs one property; see DESIGN.md.")
m["hooks"] = dict(guard="cargo feature verif-hooks of crates/ethereum-consensus (cfg(feature = \"verif-hooks\"))",
                  enable="harness/Cargo.toml turns the feature on; /repo's own manifests do not know it", source_commits=checks.HOOKS)
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        m["checks"].append(dict(
            property=i, quick_cmd="python3 tools/check.py " + i, thorough_cmd="python3 tools/check.py " + i + " thorough",
            evidence_file="evidence/%s.json" % i,
            technique="TLA+ specification checked with TLC, bound to the code by replay of specification behaviours and TLC validation of recorded calls",
            level="model_checking",
            level_note=checks.NOTES.get(i, checks.DEFAULT_NOTE)))
    else:
        m["not_applicable"].append(dict(property=i, reason=NA.get(i, "Check not built yet.")))
json.dump(m, open(os.path.join(os.path.dirname(__file__), "..", "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks")
