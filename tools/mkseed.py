#!/usr/bin/env python3
"""mkseed.py ID PROPERTY: takes the change now in /repo's working tree (and, from stdin, main.rs of its
demonstration) as the planted bug ID, validates it and undoes it. mkseed.py --run ID [tier]: only the check."""
import json, os, shutil, subprocess, sys
V = "/verif"


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def restore():
    subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."], check=True)


def check(d, tier="quick"):
    prop = json.load(open(d + "/meta.json"))["property"]
    r = run(["git", "-C", "/repo", "apply", d + "/patch.diff"])
    if r.returncode:
        print("does not apply", r.stdout.decode())
        return
    try:
        r = run(["python3", V + "/check.py", prop, tier], cwd=V)
        out = r.stdout.decode()
        v = [l for l in out.splitlines() if l.startswith("VIOLATION") or "failed" in l or "panic" in l]
        print(os.path.basename(d), prop, "check rc", r.returncode, "CAUGHT" if r.returncode == 1 else "MISSED")
        for l in v[:3]:
            print("   ", l[:200])
        if r.returncode not in (0, 1):
            print(out[-1500:])
    finally:
        restore()


if sys.argv[1] == "--run":
    check(V + "/seeded/" + sys.argv[2], *sys.argv[3:])
    sys.exit()
if sys.argv[1] == "--all":
    for i in sorted(os.listdir(V + "/seeded")):
        check(V + "/seeded/" + i)
    sys.exit()
i, prop, breaks, needs = sys.argv[1:5]
d = V + "/seeded/" + i
main = sys.stdin.read()
diff = subprocess.run(["git", "-C", "/repo", "diff"], stdout=subprocess.PIPE).stdout
assert diff
os.makedirs(d, exist_ok=True)
open(d + "/patch.diff", "wb").write(diff)
# at least one changed line is the original repository's
blame_ok = False
import re
cur = None
for l in diff.decode().splitlines():
    if l.startswith("--- a/"):
        cur = l[6:]
    m = re.match(r"@@ -(\d+)(?:,(\d+))?", l)
    if m:
        n = int(m.group(1))
        continue
    if l.startswith("-") and not l.startswith("---"):
        b = run(["git", "-C", "/repo", "blame", "-s", "-L%d,%d" % (n, n), "HEAD", "--", cur]).stdout.decode()
        if b.startswith("^7cf36e4") or b.startswith("7cf36e4"):
            blame_ok = True
    if l[:1] in " -" and not l.startswith("---"):
        n += 1
print("changes an original line:", blame_ok)
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
if main.strip():
    open(d + "/main.rs", "w").write(main)
    open(d + "/demo.sh", "w").write("""#!/bin/bash
# builds main.rs against /repo's crates and runs it in a scratch directory
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=/tmp/ceddemo-%s
rm -rf /tmp/ceddemo-%s
mkdir -p $d/src $d/work || exit 3
cp "$here/main.rs" $d/src/main.rs
cp "$repo/Cargo.lock" $d/Cargo.lock
cat > $d/Cargo.toml <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
ced = { path = "$repo/core" }
ced_remote = { path = "$repo/remote", package = "ced-remote" }
serde_json = "1"
async-channel = "1"
futures-lite = "1"
[workspace]
EOF
cd $d && CARGO_TARGET_DIR=$d/target RUSTFLAGS="--cfg ced_verif" cargo build -q --offline || { rm -rf /tmp/ceddemo-%s; exit 1; }
cd $d/work && timeout 60 $d/target/debug/demo
rc=$?
cd /
rm -rf /tmp/ceddemo-%s
exit $rc
""" % (i, i, i, i))
os.chmod(d + "/demo.sh", 0o755)
try:
    r = run(["bash", "/opt/vp/build.sh"])
    if r.returncode:
        print("BUILD FAILED", r.stdout.decode()[-1500:])
        sys.exit(1)
    run(["bash", "/opt/vp/test.sh", "/tmp/seed.json"])
    base = json.load(open("/opt/vp/BASELINE.json"))
    got = json.load(open("/tmp/seed.json"))
    miss = [t for t in base["stable"] if t not in got["passed"]]
    print("tests failing:", miss)
    r = run(["bash", d + "/demo.sh"], cwd="/repo")
    print("demo with patch rc", r.returncode, [l for l in r.stdout.decode().splitlines() if "panicked" in l or "left" in l or "right" in l][-3:])
finally:
    restore()
r = run(["bash", d + "/demo.sh"], cwd="/repo")
print("demo clean rc", r.returncode, "" if r.returncode == 0 else r.stdout.decode()[-1500:])
check(d)
