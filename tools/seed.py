"""Plants and confirms a bug. Usage in a script:
    from seed import seed; seed("x1", "C08", [(file, old, new)], MAIN_RS, needs, breaks)
Writes /verif/seeded/<id>/ only when the patched copy builds, passes the stable tests, and the demo tells both trees apart."""
import json
import os
import re
import shutil
import subprocess
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/seedw"
DEMO = '''#!/bin/bash
# cwd: the repository. Builds main.rs against it in a scratch directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export PATH=/root/.cargo/bin:$PATH HOME=${HOME:-/root} CARGO_NET_OFFLINE=true
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src" && cp "$here/main.rs" "$d/src/main.rs"
cp "$repo/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
generic-btree = { path = "$repo" }
[workspace]
EOF
cd "$d" && CARGO_TARGET_DIR="$d/t" timeout 250 cargo +stable run --offline -q
'''


def demo(dirp, repo):
    return subprocess.run(["bash", os.path.join(dirp, "demo.sh")], cwd=repo, capture_output=True, text=True)


def seed(id, prop, edits, main, needs, breaks):
    if not os.path.exists(W):
        subprocess.run(["cp", "-a", "/repo", W], check=True)
    subprocess.run(["git", "-C", W, "checkout", "-q", "--", "."], check=True)
    head = subprocess.run(["git", "-C", "/repo", "rev-parse", "HEAD"], capture_output=True, text=True).stdout
    if subprocess.run(["git", "-C", W, "rev-parse", "HEAD"], capture_output=True, text=True).stdout != head:
        subprocess.run(["git", "-C", W, "fetch", "-q", "/repo", "HEAD"], check=True)
        subprocess.run(["git", "-C", W, "reset", "-q", "--hard", "FETCH_HEAD"], check=True)
    for f, o, n in edits:
        p = os.path.join(W, f)
        s = open(p).read()
        if s.count(o) != 1:
            print(id, "EDIT MATCHES %d TIMES" % s.count(o), repr(o[:60]))
            return False
        open(p, "w").write(s.replace(o, n))
    diff = subprocess.run(["git", "-C", W, "diff"], capture_output=True, text=True).stdout
    d = tempfile.mkdtemp(prefix="seed")
    try:
        open(os.path.join(d, "main.rs"), "w").write(main)
        open(os.path.join(d, "demo.sh"), "w").write(DEMO)
        r0 = demo(d, "/repo")
        if r0.returncode != 0:
            print(id, "DEMO FAILS ON CLEAN TREE", (r0.stdout + r0.stderr)[-1500:])
            return False
        r1 = demo(d, W)
        if r1.returncode == 0:
            print(id, "DEMO PASSES ON PATCHED TREE", r1.stdout[-500:])
            return False
        if "error[" in r1.stderr or "could not compile" in r1.stderr:
            print(id, "DOES NOT COMPILE", r1.stderr[-1500:])
            return False
        env = dict(os.environ, CARGO_TARGET_DIR=W + "/target", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="1",
                   CARGO_PROFILE_DEV_DEBUG="line-tables-only", RUST_BACKTRACE="0", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu")
        t = subprocess.run(["timeout", "600", "cargo", "test", "--workspace", "--no-fail-fast", "--offline", "--", "--include-ignored", "--test-threads", "8"],
                           cwd=W, env=env, capture_output=True, text=True)
        out = t.stdout
        passed = set(re.findall(r"^test (\S+)(?: - .*)? \.\.\. ok", out, re.M))
        stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        miss = [x for x in stable if x.split("::", 1)[1] not in passed and x.split("::")[-1] not in {p.split("::")[-1] for p in passed}]
        if miss:
            print(id, "TESTS FAIL", miss[:6], out[-800:] + t.stderr[-800:] if len(miss) > 25 else "")
            return False
        t = os.path.join(V, "seeded", id)
        os.makedirs(t, exist_ok=True)
        shutil.copy(os.path.join(d, "main.rs"), t)
        shutil.copy(os.path.join(d, "demo.sh"), t)
        open(os.path.join(t, "patch.diff"), "w").write(diff)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(t, "meta.json"), "w"), indent=1)
    finally:
        shutil.rmtree(d, ignore_errors=True)
        subprocess.run(["git", "-C", W, "checkout", "-q", "--", "."])
    # what the check says
    subprocess.run(["cp", "-a", W + "/.", "/tmp/seedc"]) if False else None
    print(id, "KEPT;", (r1.stdout + r1.stderr).strip().splitlines()[-1:][:1] and [l for l in (r1.stdout + r1.stderr).splitlines() if "panicked" in l or "assert" in l][:2], flush=True)
    return True
