#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and lib/registry.py."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import registry
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%h", "--grep=^hook:"], capture_output=True, text=True).stdout.split()
checks = []
for p in props:
    if p not in registry.CHECKS:
        continue
    t, n = registry.ABOUT[p]
    checks.append(dict(property=p, quick_cmd="bin/check %s quick" % p, thorough_cmd="bin/check %s thorough" % p,
                       evidence_file="evidence/%s.json" % p, technique=t, level="model_checking", level_note=n))
doc = dict(version=1, setup_cmd="bin/setup",
           hooks=dict(guard="verif (Go build tag)", enable="go test -tags verif (the harness module in /verif/harness replaces github.com/awcullen/opcua with /repo)", source_commits=hook),
           checks=checks, not_applicable=[dict(property=p, reason=registry.NA[p]) for p in props if p not in registry.CHECKS],
           notes="Specifications in TLA+ (spec/), checked with TLC; drivers in Go (harness/), run in virtual time (testing/synctest) over an in-memory transport.")
json.dump(doc, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(doc["not_applicable"]), "not applicable")
