#!/usr/bin/env python3
"""mkseed.py ID: turn the uncommitted edit of a scratch copy of the repository into seeded/ID and confirm it:
the patch applies, builds, passes the stable tests, the demonstration passes without and fails with it.
usage: mkseed.py ID SCRATCH [--check]   (seeded/ID/{demo.sh,meta.json} must exist; patch.diff is made from SCRATCH)"""
import json, os, subprocess, sys
sid, scratch = sys.argv[1], sys.argv[2]
d = f"/verif/seeded/{sid}"
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
if "--check" not in sys.argv:
    diff = sh("git diff", cwd=scratch).stdout
    assert diff.strip(), "no edit"
    open(f"{d}/patch.diff", "w").write(diff)
    sh("git checkout -- .", cwd=scratch)
assert not sh("git status --short", cwd=scratch).stdout.strip()
sh("git fetch -q /repo && git reset -q --hard FETCH_HEAD", cwd=scratch)
def demo():
    r = sh(f"timeout 300 bash {d}/demo.sh", cwd=scratch); return r
r = demo(); ok1 = r.returncode == 0
if not ok1: print("CLEAN DEMO FAILS", r.stdout[-1500:], r.stderr[-1500:])
a = sh(f"git apply {d}/patch.diff", cwd=scratch); assert a.returncode == 0, a.stderr
try:
    b = sh("go vet ./internal/... >/dev/null 2>&1; go build $(go list ./... | grep -v example/greeter/client) && cd types/uuid && go build ./...", cwd=scratch)
    base = json.load(open("/opt/vp/BASELINE.json"))
    t = sh("go test -vet=off -count=1 ./... ; cd types/uuid && go test -vet=off -count=1 ./...", cwd=scratch)
    fails = [l for l in t.stdout.splitlines() if (l.startswith("--- FAIL") or l.startswith("FAIL")) and "example/greeter/client" not in l and l != "FAIL"]
    r2 = demo()
    print(sid, "clean ok" if ok1 else "CLEAN BAD", "build", b.returncode, "test fails", fails[:5], "demo with patch rc", r2.returncode)
    if r2.returncode == 0: print("NOT DETECTED BY DEMO")
    if b.returncode: print(b.stderr[-800:])
finally:
    sh("git checkout -- .", cwd=scratch)
