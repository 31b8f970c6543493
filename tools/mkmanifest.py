"""Writes MANIFEST.json from the registry: python3 tools/mkmanifest.py"""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vp.registry import CHECKS, TECH, NOTES, NA

props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {
    "version": 1,
    "setup_cmd": "cd driver && cargo +nightly build --offline --release",
    "checks": [{
        "property": p,
        "quick_cmd": "python3 -m vp.check %s quick" % p,
        "thorough_cmd": "python3 -m vp.check %s thorough" % p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": TECH.get(p, TECH["*"]),
        "level": "other",
        "level_note": NOTES.get(p, NOTES["*"]),
    } for p in props if p in CHECKS],
    "not_applicable": [{"property": p, "reason": NA[p]} for p in props if p not in CHECKS],
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print([p for p in props if p in CHECKS])
