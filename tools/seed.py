#!/usr/bin/env python3
"""seed.py BUGS.py [id...]: for each planted bug described in BUGS.py (a list B of dicts id, prop, edits, demo, needs, breaks): apply it in a scratch copy,
check it builds, passes the stable tests, and that its demo tells it from the unchanged tree; write /verif/seeded/<id>."""
import json, os, shutil, subprocess, sys
S = "/tmp/seed"
R = S + "/r"
DEMO = r'''#!/bin/bash
# Exit 0 if the property holds on this demonstration, 1 if it is broken. Run with cwd = the repository.
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d)
trap 'rm -rf -- "$tmp"' EXIT
mkdir "$tmp/src"
cp "$here/main.rs" "$tmp/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$tmp/Cargo.lock"
cat > "$tmp/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[dependencies]
vcard4 = { path = "$repo" }
[workspace]
T
cd "$tmp"
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$tmp/target" RUSTFLAGS=-Awarnings
cargo build --offline -q || exit 3
timeout 60 ./target/debug/demo || exit 1
'''
def sh(c, cwd=R, t=900):
    p = subprocess.run(["bash", "-c", c], cwd=cwd, capture_output=True, text=True, timeout=t)
    return p.returncode, p.stdout + p.stderr
ns = {}
exec(open(sys.argv[1]).read(), ns)
want = sys.argv[2:]
if not os.path.exists(R):
    os.makedirs(S, exist_ok=True)
    subprocess.run(["cp", "-a", "/repo", R], check=True)
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
TEST = '''export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never CARGO_TARGET_DIR=/tmp/seed/r/target PROPTEST_RNG_SEED=20240607
find src -name '*.rs' -exec touch {} +
cargo test --workspace --no-run --offline >/tmp/seed/b.log 2>&1 && cargo test --workspace --all-features --no-run --offline >>/tmp/seed/b.log 2>&1 || { tail -30 /tmp/seed/b.log; exit 9; }
cargo test --workspace --no-fail-fast --offline -- --test-threads 8 > /tmp/seed/d.log 2>&1
cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 8 > /tmp/seed/a.log 2>&1
sed -i 's/^test \\(.* \\.\\.\\. \\)/test all-features::\\1/' /tmp/seed/a.log
python3 /opt/vp/results.py /tmp/seed/o.json cargo:/tmp/seed/d.log cargo:/tmp/seed/a.log'''
for b in ns["B"]:
    if want and b["id"] not in want:
        continue
    sh("git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD && git clean -fdq")
    bad = False
    for f, o, n in b["edits"]:
        s = open(R + "/" + f).read()
        if s.count(o) != 1:
            print(b["id"], "edit text occurs", s.count(o), "times in", f); bad = True; break
        open(R + "/" + f, "w").write(s.replace(o, n))
    if bad: continue
    D = "/verif/seeded/" + b["id"]
    T = S + "/" + b["id"]
    shutil.rmtree(T, ignore_errors=True); os.makedirs(T)
    rc, diff = sh("git diff")
    open(T + "/patch.diff", "w").write(diff)
    open(T + "/demo.sh", "w").write(DEMO); os.chmod(T + "/demo.sh", 0o755)
    open(T + "/main.rs", "w").write(b["demo"])
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(T + "/meta.json", "w"), indent=1)
    # changed lines must be lines of the original repository
    rc, fr = sh("git blame -s HEAD -- /dev/null; for f in $(git diff --name-only); do git diff -U0 HEAD -- $f | grep '^@@' | sed 's/@@ -\\([0-9,]*\\) .*/\\1/' | while read r; do s=${r%%,*}; n=${r##*,}; [ \"$n\" = \"$r\" ] && n=1; [ $n -gt 0 ] && git -C /repo blame -s -L $s,+$n HEAD -- $f; done; done")
    own = [l for l in fr.split("\n") if l and not l.startswith("^") and "fatal" not in l and "b06c6e5" not in l[:12]]
    if own: print(b["id"], "WARNING changes lines of later commits:", own[:3])
    rc, o = sh(TEST)
    if rc == 9: print(b["id"], "does not build", o[-1500:]); continue
    passed = set(json.load(open(S + "/o.json"))["passed"])
    miss = sorted(stable - passed)
    if miss: print(b["id"], "breaks stable tests", miss[:6]); continue
    r1, o1 = sh("bash %s/demo.sh" % T)
    sh("git checkout -q -f .")
    r0, o0 = sh("bash %s/demo.sh" % T)
    if r0 != 0 or r1 == 0 or r1 == 3:
        print(b["id"], "demo: unchanged", r0, "patched", r1, o0[-600:], o1[-600:]); continue
    shutil.rmtree(D, ignore_errors=True); shutil.copytree(T, D); shutil.rmtree(T)
    print(b["id"], "ok", flush=True)
