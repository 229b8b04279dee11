#!/usr/bin/env python3
"""tools/mkseed.py ID PROP 'needs' 'breaks' FILE OLD NEW [FILE OLD NEW ...]: make seeded/ID/patch.diff and meta.json."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/sw/mk"
if not os.path.isdir(W): subprocess.check_call(["git", "clone", "-q", "/repo", W])
subprocess.check_call(["git", "-C", W, "pull", "-q"])
def make(id, prop, needs, breaks, edits):
    d = V + "/seeded/" + id
    os.makedirs(d, exist_ok=True)
    try:
        for f, old, new in edits:
            p = W + "/" + f
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        out = subprocess.check_output(["git", "-C", W, "diff"]).decode()
        open(d + "/patch.diff", "w").write(out)
    finally:
        subprocess.check_call(["git", "-C", W, "checkout", "-q", "--", "."])
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
