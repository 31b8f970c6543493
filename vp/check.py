"""Runs one property check: python3 -m vp.check <property> [quick|thorough]"""
import hashlib
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

if os.environ.get("PYTHONHASHSEED") != "0" and __name__ == "__main__":
    # one order of everything, whatever the process
    os.execve(sys.executable, [sys.executable, "-m", "vp.check"] + sys.argv[1:], dict(os.environ, PYTHONHASHSEED="0"))

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")


def extract(release=True):
    """type-checked MIR of the crate as it is now, through the compiler driver"""
    drv = os.path.join(VERIF, "driver/target/release/mirfacts")
    if not os.path.exists(drv):
        subprocess.run(["cargo", "+nightly", "build", "--offline", "--release"], cwd=os.path.join(VERIF, "driver"), check=True,
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    tmp = tempfile.mkdtemp(prefix="vpfacts")
    try:
        out = os.path.join(tmp, "facts.json")
        sysroot = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], capture_output=True, text=True, check=True).stdout.strip()
        env = dict(os.environ)
        env.update(LD_LIBRARY_PATH=sysroot + "/lib", MIRFACTS_CRATE="generic_btree", MIRFACTS_OUT=out,
                   RUSTC_WORKSPACE_WRAPPER=drv, CARGO_TARGET_DIR=os.path.join(tmp, "t"))
        cmd = ["cargo", "+nightly", "check", "--offline", "--lib"] + (["--release"] if release else [])
        r = subprocess.run(cmd, cwd=REPO, env=env, capture_output=True, text=True)
        if r.returncode != 0 or not os.path.exists(out):
            sys.stderr.write(r.stdout + r.stderr)
            raise SystemExit("extraction failed")
        keep = os.environ.get("VP_KEEP_FACTS")
        if keep:
            shutil.copy(out, keep)
        from .engine import Prog
        return Prog(out)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


class Report:
    """obligations of one property"""

    def __init__(self, pid, tier):
        self.pid = pid
        self.tier = tier
        self.obl = []      # (key, status, message)
        self.functions = {}
        self.notes = []
        self.floors = []

    def add(self, key, status, msg=""):
        """status: ok / bad / open"""
        self.obl.append((key, status, msg))

    def judge(self, key, v, msg=""):
        self.add(key, "ok" if v is True else "bad" if v is False else "open", msg)

    def ran(self, fn, paths, **kw):
        d = self.functions.setdefault(fn, {"paths": 0})
        d["paths"] += paths
        for k, v in kw.items():
            d[k] = v

    def floor(self, what, have, need):
        self.floors.append((what, have, need))


def known_findings():
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding:"):
                f = dict(x.split("=", 1) for x in l[8:].split(" ", 2)[:2] if "=" in x) if False else None
                parts = l[8:].strip().split(" | ")
                out[(parts[0].replace("property=", ""), parts[1])] = parts[2] if len(parts) > 2 else ""
    return out


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    from .registry import CHECKS
    prog = extract()
    rep = Report(pid, tier)
    from .util import guarded
    for modname, fname in CHECKS[pid]:
        fn = getattr(importlib.import_module("vp." + modname), fname)
        with guarded(rep, modname + "." + fname, 700):
            fn(prog, rep)
    bad = {}
    for k, s, m in rep.obl:
        if s == "bad":
            bad.setdefault(k, []).append(m)
    for what, have, need in rep.floors:
        if have < need:
            bad.setdefault("coverage: " + what, []).append("analysed %d, at least %d expected" % (have, need))
    known = known_findings()
    viol = []
    for k in sorted(bad):
        if (pid, k) in known:
            print("KNOWN-FINDING: property=%s %s" % (pid, k))
        else:
            viol.append((k, bad[k]))
    n = len(rep.obl)
    ok = sum(1 for x in rep.obl if x[1] == "ok")
    op = sorted({x[0] for x in rep.obl if x[1] == "open"})
    out = os.environ.get("VP_OUT", VERIF)
    cache = os.path.join(out, ".cache")
    os.makedirs(cache, exist_ok=True)
    os.makedirs(os.path.join(out, "evidence"), exist_ok=True)
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
        "coverage": {
            "explanation": "Abstract interpretation of the crate's MIR (release profile, extracted from /repo by the compiler driver on "
                           "this run). Each obligation is one rule instance on one abstract path; 'undecided' ones raised no alarm.",
            "functions": {k: v for k, v in sorted(rep.functions.items())},
            "functions_analysed": len(rep.functions),
            "abstract_paths": sum(v["paths"] for v in rep.functions.values()),
            "obligations": n, "discharged": ok, "undecided": n - ok - sum(1 for x in rep.obl if x[1] == "bad"),
            "undecided_keys": op[:60],
            "rules": sorted({x[0].split(":")[0] for x in rep.obl}),
            "samples": sorted({x[0] for x in rep.obl if x[1] == "ok"})[:12],
            "notes": rep.notes,
        },
        "wall_s": round(time.time() - t0, 2), "violations": len(viol),
    }
    json.dump(ev, open(os.path.join(out, "evidence", pid + ".json"), "w"), indent=1)
    if viol:
        rp = os.path.join(cache, pid + ".violations.txt")
        with open(rp, "w") as f:
            for k, ms in viol:
                f.write("%s\n" % k)
                for m in sorted(set(ms))[:6]:
                    f.write("    %s\n" % m)
        for k, ms in viol[:20]:
            print("  %s: %s" % (k, ms[0][:300]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        sys.exit(1)
    print("%s: %d obligations, %d discharged, %d undecided, %d functions" % (pid, n, ok, n - ok, len(rep.functions)))
    sys.exit(0)


if __name__ == "__main__":
    main()
