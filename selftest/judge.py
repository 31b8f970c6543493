"""Judges the parts named on the given facts: judge.py FACTS all|everything|part,part [message length]
"everything" also runs the checks that are no tree parts."""
import importlib
import os
import sys
if os.environ.get("PYTHONHASHSEED") != "0":
    os.execve(sys.executable, [sys.executable] + sys.argv, dict(os.environ, PYTHONHASHSEED="0"))
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from collections import Counter
from vp import p_tree
from vp.check import Report
from vp.engine import Prog
from vp.registry import CHECKS
from vp.util import guarded

rep = Report("*", "quick")
P = Prog(sys.argv[1])
p_tree.run(P, rep, None if sys.argv[2] in ("all", "everything") else set(sys.argv[2].split(",")))
if sys.argv[2] == "everything":
    for mod, fn in sorted({x for l in CHECKS.values() for x in l if x[0] != "p_tree"}):
        with guarded(rep, mod + fn, 700):
            getattr(importlib.import_module("vp." + mod), fn)(P, rep)
lim = int(sys.argv[3]) if len(sys.argv) > 3 else 160
print(Counter(x[1] for x in rep.obl))
kinds = {}
for k, s, m in rep.obl:
    if s != "ok":
        d = kinds.setdefault((s, k), [0, m])
        d[0] += 1
for (s, k), (n, m) in sorted(kinds.items()):
    print(" ", s, n, k, "|", m[:lim])
