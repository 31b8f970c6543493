"""Source mutants against the tree parts: python3 selftest/mutants.py [list...] [-n name...]
Each list in mutants/ holds entries (name, kind, [(file, old, new)], parts).  A 'bug' must
be reported by one of the parts, a 'same' (behaviour-preserving edit) by none.  Entries in
KNOWN are missed for a reason given there."""
import importlib.util
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
KNOWN = {
    ("lack", "slot+1"): "made good by a following call",
    ("lack", "wrongpush"): "same shape in the domain",
    ("ruc", "diffdouble"): "needs arithmetic of user-supplied differences",
    ("ul", "notake"): "no observable effect",
    ("ord", "cond"): "equivalent under the laws of comparison",
    ("misc", "clone_root"): "no observable effect",
    ("rm", "leafstay"): "does not compile",
    ("ord", "upd"): "does not compile",
    ("dr", "clone"): "does not compile",
}


def facts(d, edits):
    w = os.path.join(d, "r")
    shutil.copytree("/repo", w, ignore=shutil.ignore_patterns("target", ".git"))
    for f, old, new in edits:
        p = os.path.join(w, f)
        s = open(p).read()
        if old not in s:
            return None, "edit does not apply: %r" % old[:60]
        open(p, "w").write(s.replace(old, new, 1))
    out = os.path.join(d, "facts.json")
    r = subprocess.run([sys.executable, "-c", "from vp.check import extract; extract()"], cwd=V,
                       env=dict(os.environ, VP_REPO=w, VP_KEEP_FACTS=out), capture_output=True, text=True)
    return (out, "") if os.path.exists(out) else (None, r.stderr[-600:])


def one(x):
    lst, m = x
    name, kind, edits = m[:3]
    d = tempfile.mkdtemp(prefix="vpmut")
    try:
        f, err = facts(d, edits)
        if f is None:
            return lst, name, kind, "ERR", err
        r = subprocess.run([sys.executable, os.path.join(HERE, "judge.py"), f, m[3] if len(m) > 3 else "everything"], capture_output=True, text=True)
        bad = [l for l in r.stdout.splitlines() if l.startswith("  bad")]
        if not r.stdout:
            return lst, name, kind, "ERR", r.stderr[-400:]
        return lst, name, kind, "bug" if bad else "same", bad[0] if bad else ""
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    args = sys.argv[1:]
    names = args[args.index("-n") + 1:] if "-n" in args else []
    lists = args[:args.index("-n")] if "-n" in args else args
    todo = []
    for fn in sorted(os.listdir(os.path.join(HERE, "mutants"))):
        lst = fn[:-3]
        if not fn.endswith(".py") or lists and lst not in lists:
            continue
        spec = importlib.util.spec_from_file_location(lst, os.path.join(HERE, "mutants", fn))
        mod = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(mod)
        todo += [(lst, m) for m in mod.M if not names or any(n in m[0] for n in names)]
    wrong = 0
    with ThreadPoolExecutor(4) as ex:
        for lst, name, kind, got, msg in ex.map(one, todo):
            ok = got == kind or (lst, name) in KNOWN
            wrong += not ok
            print("%-5s %-8s %-20s want %s got %s  %s" % ("ok" if ok else "WRONG", lst, name, kind, got, msg[:200]), flush=True)
    print("%d wrong of %d" % (wrong, len(todo)))


main()
