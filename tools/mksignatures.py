"""Writes vp/signatures.json from the facts of the tree the contracts were written against: mksignatures.py FACTS"""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vp.engine import Prog, signature

P = Prog(sys.argv[1])
d = {}
for b in P.bodies.values():
    if b.d["kind"] != "Closure":
        d.setdefault(b.np, []).append(signature(b))
json.dump({k: v[0] for k, v in sorted(d.items()) if len(v) == 1}, open(os.path.join(V, "vp", "signatures.json"), "w"), indent=0)
