#!/usr/bin/env python3
"""tools/seeds.py [-j N] [--nocheck] [ID ...]: try planted changes in scratch copies of /repo (never in /repo itself):
build, stable tests, demo with and without the change, and the check of its property against the copy."""
import json, os, shutil, subprocess, sys, tempfile, re
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "/tmp/sw"
args = sys.argv[1:]
J = 2
if "-j" in args:
    k = args.index("-j"); J = int(args[k + 1]); del args[k:k + 2]
nocheck = "--nocheck" in args
args = [a for a in args if not a.startswith("--")]
ids = args or sorted(os.listdir(V + "/seeded"))
stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]

def sh(cmd, cwd=None, timeout=900, env=None):
    try:
        p = subprocess.run(cmd, cwd=cwd, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env)
        return p.returncode, p.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b"").decode("utf-8", "replace") + "\nTIMEOUT"

def fresh(name):
    d = S + "/" + name
    shutil.rmtree(d, ignore_errors=True)
    subprocess.check_call(["git", "clone", "-q", "/repo", d])
    for f in ("build.sh", "test.sh"):
        t = open("/opt/vp/" + f).read().replace("/repo", d).replace("/opt/vp/build.sh", d + "/.build.sh")
        open(d + "/." + f, "w").write(t)
    return d

def one(id):
    d = V + "/seeded/" + id
    prop = json.load(open(d + "/meta.json"))["property"]
    w = fresh("w-" + id)
    demo = tempfile.mkdtemp(prefix="demo-", dir=S)
    try:
        for f in os.listdir(d):
            if f not in ("patch.diff", "meta.json"): shutil.copy(d + "/" + f, demo)
        r0, l0 = sh(["bash", demo + "/demo.sh"], cwd=BASE, timeout=300)
        rc, out = sh(["git", "apply", d + "/patch.diff"], cwd=w)
        if rc: return "%s %s: patch does not apply: %s" % (id, prop, out)
        rc, tl = sh(["bash", w + "/.test.sh", w + "/out.json"], cwd=w)
        passed = json.load(open(w + "/out.json"))["passed"]
        failed = [t for t in stable if t not in passed]
        r1, l1 = sh(["bash", demo + "/demo.sh"], cwd=w, timeout=300)
        ok = r0 == 0 and r1 != 0 and not failed
        res = "%s %s: %s (clean=%d patched=%d%s)" % (id, prop, "valid" if ok else "BAD", r0, r1, " failed tests: %s" % failed if failed else "")
        if not ok: res += "\n--clean: " + l0[-600:] + "\n--patched: " + l1[-600:]
        if not nocheck and ok:
            shutil.rmtree(w + "/_build", ignore_errors=True)
            rc, out = sh(["python3", "run.py", prop, "quick"], cwd=V, env=dict(os.environ, VERIF_REPO=w))
            c = rc == 1 and "VIOLATION property=" + prop in out
            res += " CAUGHT" if c else " MISSED rc=%d" % rc
            if rc not in (0, 1): res += out[-800:]
        return res
    finally:
        shutil.rmtree(w, ignore_errors=True); shutil.rmtree(demo, ignore_errors=True)

os.makedirs(S, exist_ok=True)
BASE = fresh("base")
rc, out = sh(["bash", BASE + "/.build.sh"])
assert rc == 0, out[-2000:]
with ThreadPoolExecutor(J) as ex:
    for r in ex.map(one, ids): print(r, flush=True)
shutil.rmtree(BASE, ignore_errors=True)
