"""Regression of the checkers: python3 selftest/run.py [filter...]
Each case edits a scratch copy of /repo and runs the named check on it.
kind 'bug' must alarm, kind 'same' (behaviour-preserving) must stay quiet."""
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "selftest"))


def run(case):
    pids, kind, name, edits = case
    d = tempfile.mkdtemp(prefix="vpself")
    out = []
    try:
        w = os.path.join(d, "r")
        shutil.copytree("/repo", w, ignore=shutil.ignore_patterns("target", ".git"))
        for f, old, new in edits:
            p = os.path.join(w, f)
            s = open(p).read()
            if old not in s:
                return [(name, "EDIT-DOES-NOT-APPLY", old[:50])]
            open(p, "w").write(s.replace(old, new, 1))
        first = True
        for pid in pids:
            env = dict(os.environ, VP_REPO=w, VP_OUT=os.path.join(d, "out"))
            r = subprocess.run([sys.executable, "-m", "vp.check", pid], cwd=V, env=env, capture_output=True, text=True)
            got = "bug" if r.returncode == 1 and "VIOLATION property=%s" % pid in r.stdout else "same" if r.returncode == 0 else "ERR"
            ok = got == kind
            lines = [l for l in r.stdout.splitlines() if l.startswith("  ")][:2]
            if got == "ERR":
                lines = r.stderr.splitlines()[-8:]
            out.append((name, "ok" if ok else "WRONG", "%s %s got %s  %s" % (pid, kind, got, " | ".join(l[:170] for l in lines))))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return out


def main():
    from cases import CASES
    sel = [c for c in CASES if not sys.argv[1:] or any(a in c[2] or a in c[0] for a in sys.argv[1:])]
    bad = 0
    with ThreadPoolExecutor(6) as ex:
        for res in ex.map(run, sel):
            for name, st, msg in res:
                bad += st != "ok"
                print("%-6s %-40s %s" % (st, name, msg), flush=True)
    print("%d wrong" % bad)


main()
