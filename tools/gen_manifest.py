#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py, properties.jsonl and the notes below."""
import json, os, subprocess, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, V)
import checks
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = {}
def commits():
    try:
        out = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout
        return [l.split()[0] for l in out.splitlines() if l.split(" ", 1)[1].startswith("hook:")]
    except Exception:
        return []
out = dict(version=1, setup_cmd="./build.sh",
  hooks=dict(guard="rustc cfg coerce_verif (#[cfg(coerce_verif)])", enable="build.sh passes --cfg coerce_verif in build.rustflags when it builds the harness crate against /repo", source_commits=commits()),
  checks=[], not_applicable=[],
  notes="One command per property: run.py model-checks the TLA+ specification with TLC, exports behaviours from it, replays them into the code built from /repo, and validates recorded executions against trace specifications.")
for p in props:
    if p["id"] in checks.CHECKS:
        doc = checks.NOTES.get(p["id"], {})
        out["checks"].append(dict(property=p["id"], quick_cmd="python3 run.py %s --tier quick" % p["id"], thorough_cmd="python3 run.py %s --tier thorough" % p["id"],
            evidence_file="evidence/%s.json" % p["id"],
            technique=doc.get("technique", "TLA+ specification checked with TLC; its behaviours replayed into the implementation"),
            level="model_checking",
            level_note=doc.get("note", "Exhaustive over the specification's bounded state space; the implementation is compared with it on one behaviour per abstract transition plus seeded random long behaviours. Trusts the harness projection and tokio's paused clock for quiescence.")))
    else:
        out["not_applicable"].append(dict(property=p["id"], reason=NA.get(p["id"], "check not built yet")))
json.dump(out, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(out["checks"]), "claimed;", len(out["not_applicable"]), "not")
