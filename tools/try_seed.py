#!/usr/bin/env python3
"""try_seed.py ID [--nocheck]: applies seeded/ID/patch.diff to /repo, builds, tests, runs the demo and the property's check; undoes it."""
import sys, os, json, subprocess, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def demo(i):
    d = tempfile.mkdtemp(); shutil.copytree(f"{V}/seeded/{i}", d + "/s", ignore=shutil.ignore_patterns("*.diff", "meta.json"))
    r = sh(f"bash {d}/s/demo.sh", cwd="/repo", timeout=300); shutil.rmtree(d); return r
def stable():
    o = tempfile.mktemp()
    sh(f"bash /opt/vp/test.sh {o}")
    j = json.load(open(o)); os.unlink(o)
    base = json.load(open("/opt/vp/BASELINE.json"))
    base = base.get("passed") or base.get("stable") or base
    return sorted(set(base) - set(j["passed"]))
def one(i, check=True):
    m = json.load(open(f"{V}/seeded/{i}/meta.json"))
    res = {}
    assert not sh("git -C /repo status --porcelain").stdout, "repo dirty"
    r = sh(f"git -C /repo apply {V}/seeded/{i}/patch.diff")
    if r.returncode: print(i, "PATCH FAILS", r.stderr); return False
    try:
        r = sh("bash /opt/vp/build.sh")
        if r.returncode: print(i, "BUILD FAILS", (r.stdout + r.stderr)[-1500:]); return False
        lost = stable()
        if lost: print(i, "TESTS LOST", len(lost), lost[:5]); return False
        d = demo(i)
        if d.returncode == 0: print(i, "DEMO PASSES WITH BUG", d.stdout[-500:], d.stderr[-500:]); return False
        if check:
            pids = [m["property"]] + [a for a in sys.argv[2:] if a[0] == "C"]
            for p in pids:
                c = sh(f"python3-vt check.py {p}", cwd=V)
                v = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
                print(i, p, "exit", c.returncode, v, c.stdout.strip().splitlines()[-1:] if c.stdout else c.stderr[-300:])
    finally:
        sh("git -C /repo checkout -- ."); sh("bash /opt/vp/build.sh")
    d = demo(i)
    if d.returncode: print(i, "DEMO FAILS ON CLEAN", d.stdout[-800:], d.stderr[-800:]); return False
    print(i, "counts ok")
    return True
if __name__ == "__main__":
    ids = sorted(os.listdir(f"{V}/seeded")) if sys.argv[1] == "all" else [sys.argv[1]]
    for i in ids: one(i, "--nocheck" not in sys.argv)
