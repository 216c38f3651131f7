#!/usr/bin/env python3
"""Developer tool for planted bugs (no check uses it).
  seed.py verify ID...   in a scratch copy of /repo (/tmp/rw): patch applies, builds, stable tests pass, demo 0 / nonzero
  seed.py check ID [PROP...]   apply to /repo, run the quick check(s), undo
"""
import json, os, re, subprocess, sys
SEED = "/verif/seeded"; RW = "/tmp/rw"
def sh(cmd, cwd=None, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, executable="/bin/bash", **k)
def verify(i):
    d = f"{SEED}/{i}"; out = []
    sh("git checkout -q -- .", RW)
    head = sh("git -C /repo rev-parse HEAD").stdout.strip()
    sh(f"git fetch -q /repo HEAD; git reset -q --hard {head}", RW)
    r = sh(f"bash {d}/demo.sh", RW, timeout=300); ok0 = r.returncode == 0
    if not ok0: print(r.stdout[-1500:])
    a = sh(f"git apply {d}/patch.diff", RW)
    if a.returncode: print(i, "PATCH FAILS", a.stdout); return False
    t = sh(". /opt/vp/env.sh; cargo test --workspace --no-fail-fast --offline -- --test-threads 8 > /tmp/rw/target/t.log 2>&1; python3 /opt/vp/results.py /tmp/rw/target/o.json cargo:/tmp/rw/target/t.log", RW)
    base = json.load(open("/opt/vp/BASELINE.json")); got = json.load(open("/tmp/rw/target/o.json"))
    want = base["stable"]
    p = set(got.get("passed") or got.get("pass") or [])
    miss = [x for x in (want if isinstance(want, list) else list(want)) if x not in p]
    r = sh(f"bash {d}/demo.sh", RW, timeout=300); ok1 = r.returncode != 0
    last = [l for l in r.stdout.splitlines() if l.strip()][-6:]
    sh("git checkout -q -- .", RW)
    good = ok0 and ok1 and not miss
    print(i, "GOOD" if good else "BAD", f"demo0={'ok' if ok0 else 'FAIL'} demo1={'fails' if ok1 else 'PASSES'} missing={miss[:6]} ({len(miss)})", "|", " / ".join(last)[-300:] , flush=True)
    return good
def check(i, props):
    d = f"{SEED}/{i}"
    props = props or [json.load(open(d + "/meta.json"))["property"]]
    assert not sh("git -C /repo status --porcelain").stdout.strip()
    a = sh(f"git -C /repo apply {d}/patch.diff"); assert a.returncode == 0, a.stdout
    try:
        for p in props:
            r = sh(f"python3 check.py {p} quick", "/verif")
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            print(i, p, "rc", r.returncode, "CAUGHT" if r.returncode == 1 and any(f"property={p}" in l for l in v) else "MISSED", len(v), (v or r.stdout.splitlines()[-1:] or [""])[0][:200], flush=True)
    finally:
        sh("git -C /repo checkout -- .")
if __name__ == "__main__":
    if sys.argv[1] == "verify":
        ids = sys.argv[2:] or sorted(os.listdir(SEED))
        for i in ids: verify(i)
    elif sys.argv[1] == "check": check(sys.argv[2], sys.argv[3:])
    elif sys.argv[1] == "checkall":
        for i in (sys.argv[2:] or sorted(os.listdir(SEED))): check(i, [])
