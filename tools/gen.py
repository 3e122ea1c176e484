#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props/*.py entries (run from /verif)."""
import json, glob, os, sys
sys.path.insert(0, os.path.dirname(__file__))
from props import PROPS, NOT_APPLICABLE
LEVEL = "exploration"
def main():
    with open("properties.jsonl", "w") as o:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["id"]
            o.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
    checks = []
    na = [dict(property=i, reason=r) for i, r in NOT_APPLICABLE]
    nai = {i for i, _ in NOT_APPLICABLE}
    for p in PROPS:
        if p["id"] in nai: continue
        checks.append(dict(property=p["id"], quick_cmd="./check.sh %s quick" % p["id"], thorough_cmd="./check.sh %s thorough" % p["id"],
                           technique="deterministic simulation with fault injection: " + p["tech"], level=LEVEL, level_note=p["note"]))
    m = dict(version=1, setup_cmd="./setup.sh", 
             hooks=dict(guard="GUNNS_DST", enable="No hook was needed in /repo: the simulator uses existing interfaces, link-time wrapping (--wrap) and compiler instrumentation, so nothing in /repo is guarded.", source_commits=[]),
             checks=checks, not_applicable=na,
             notes="Every check rebuilds the library from /repo's working tree (about 25 s on 8 cores) and runs seeded simulations; replay a violation with: build/dst --replay FILE (add --verbose for the event log).")
    json.dump(m, open("MANIFEST.json", "w"), indent=1)
    open("MANIFEST.json", "a").write("\n")
main()
