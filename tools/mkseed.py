#!/usr/bin/env python3
"""mkseed.py ID PROP FILE <<< json{old,new,needs,breaks} : writes patch.diff + meta.json for a one-file textual change (edits is a list of [file, old, new])."""
import sys, os, json, subprocess, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def mk(id, prop, edits, needs, breaks, demo):
    d = f"{V}/seeded/{id}"; os.makedirs(d, exist_ok=True)
    assert not subprocess.run("git -C /repo status --porcelain", shell=True, capture_output=True, text=True).stdout
    try:
        for f, o, n in edits:
            p = "/repo/" + f; s = open(p).read()
            assert s.count(o) == 1, (id, f, s.count(o), o)
            open(p, "w").write(s.replace(o, n))
        open(d + "/patch.diff", "w").write(subprocess.run("git -C /repo diff", shell=True, capture_output=True, text=True).stdout)
    finally:
        subprocess.run("git -C /repo checkout -- .", shell=True)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    for n, t in demo.items():
        open(f"{d}/{n}", "w").write(t)
