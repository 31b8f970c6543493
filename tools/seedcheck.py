"""Runs each planted bug's own check on a patched scratch copy: python3 tools/seedcheck.py [id...]"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")


def one(i):
    meta = json.load(open(os.path.join(S, i, "meta.json")))
    d = tempfile.mkdtemp(prefix="vpseed")
    try:
        w = os.path.join(d, "r")
        shutil.copytree("/repo", w, ignore=shutil.ignore_patterns("target", ".git"))
        subprocess.run(["patch", "-p1", "-s", "-i", os.path.join(S, i, "patch.diff")], cwd=w, check=True)
        env = dict(os.environ, VP_REPO=w, VP_OUT=os.path.join(d, "out"))
        pids = [meta["property"]]
        if ALL:
            pids = [c["property"] for c in json.load(open(os.path.join(V, "MANIFEST.json")))["checks"]]
        res = []
        for p in pids:
            r = subprocess.run([sys.executable, "-m", "vp.check", p], cwd=V, env=env, capture_output=True, text=True)
            res.append((p, r.returncode, [l.strip()[:150] for l in r.stdout.splitlines() if l.startswith("  ")][:2]))
        return i, meta["property"], res
    finally:
        shutil.rmtree(d, ignore_errors=True)


ALL = "--all" in sys.argv
ids = [a for a in sys.argv[1:] if a != "--all"] or sorted(os.listdir(S))
n = c = 0
with ThreadPoolExecutor(6) as ex:
    for i, p, res in ex.map(one, ids):
        n += 1
        hit = any(q == p and rc == 1 for q, rc, _ in res)
        c += hit
        print("%-10s %s %s %s" % (i, p, "CAUGHT" if hit else "missed", [(q, l) for q, rc, l in res if rc == 1] if ALL else res[0][1:]), flush=True)
print("%d/%d" % (c, n))
