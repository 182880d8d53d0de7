#!/usr/bin/env python3
"""Regenerates MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from checks import CHECKS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
m = {
    "version": 1,
    "setup_cmd": "python3 check.py --self-test",
    "checks": [],
    "not_applicable": [],
    "notes": "Every check rebuilds its harnesses from /repo's working tree (content-hashed objects in /verif/build, which git ignores). Replay a violation with: python3 check.py --replay replays/<id>/<file>.",
}
for i in ids:
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append({
            "property": i,
            "quick_cmd": "VERIF_TIER=quick python3 check.py " + i,
            "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": c.get("technique", "property-based testing against a reference oracle (random choice sequences with shrinking, and coverage-guided libFuzzer on the same generators) under ASan/UBSan"),
            "level": "exploration",
            "level_note": c.get("note", "Holds on every generated case; no exhaustiveness claim. Trusts the oracle in the harness, the compiler and sanitizers, and the camp/RAJA stand-ins in shim/."),
        })
    else:
        m["not_applicable"].append({"property": i, "reason": NOT_APPLICABLE.get(i, "check not built yet")})
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
