"""Shared machinery of the checks: building drivers from /repo, running TLC, evidence, verdicts."""
import concurrent.futures as cf
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = max(2, os.cpu_count() or 2)


class ToolError(Exception):
    """The machinery could not give an answer (never a verdict)."""


def run(cmd, timeout=600, env=None, cwd=None, inp=None):
    e = dict(os.environ)
    if env:
        e.update({k: str(v) for k, v in env.items()})
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=e, cwd=cwd,
                           input=inp, stdin=None if inp is not None else subprocess.DEVNULL)
        return p.returncode, p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace")
    except subprocess.TimeoutExpired as x:
        return -9999, (x.stdout or b"").decode("utf8", "replace"), "timeout"


# ----------------------------------------------------------------- building
def _py_flags():
    import sysconfig
    inc = ["-I" + sysconfig.get_paths()["include"]]
    for py in ("/usr/bin/python3", "python3"):
        rc, out, _ = run([py, "-c", "import numpy,sysconfig;print(numpy.get_include());print(sysconfig.get_paths()['include'])"])
        if rc == 0:
            return ["-I" + x for x in out.split()]
    return inc


BASE = ["-std=c++11", "-pthread", "-DUSE_PTHREAD", "-w", "-I" + REPO + "/include", "-I" + REPO + "/external", "-I" + REPO, "-DWITH_TOOLS"]
FLAVOURS = {
    "plain": ["-O1"],
    "np": None,   # filled lazily: plain + numpy readers
    "asan": ["-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer"],
    "asannp": None,
    "sched": ["-O1"],
    "tsan": ["-O1", "-g1", "-fsanitize=thread"],
}


def flags(flavour):
    f = FLAVOURS[flavour]
    if f is None:
        extra = ["-O1"] if flavour == "np" else ["-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer"]
        f = extra + ["-DHAS_NUMPY_DEV", "-DNPY_NO_DEPRECATED_API=NPY_1_7_API_VERSION"] + _py_flags()
        FLAVOURS[flavour] = f
    return BASE + f


def _sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def _files(d, exts):
    out = []
    for r, ds, fs in os.walk(d):
        ds.sort()
        for f in sorted(fs):
            if f.endswith(exts):
                out.append(os.path.join(r, f))
    return out


_hdr = {}


def header_hash():
    if "h" not in _hdr:
        parts = []
        for d in (REPO + "/include", REPO + "/external"):
            for f in _files(d, (".h", ".hpp", ".inl")):
                parts += [f, open(f, "rb").read()]
        for f in _files(REPO + "/tools", (".cc", ".h")):
            parts += [f, open(f, "rb").read()]
        for f in _files(HARN, (".h",)):
            parts += [f, open(f, "rb").read()]
        _hdr["h"] = _sha(*parts)
    return _hdr["h"]


def compile_obj(src, flavour):
    data = open(src, "rb").read()
    fl = flags(flavour)
    key = _sha(src, data, header_hash(), " ".join(fl))
    os.makedirs(BUILD + "/obj", exist_ok=True)
    obj = "%s/obj/%s.o" % (BUILD, key)
    if not os.path.exists(obj):
        tmp = obj + ".tmp%d-%d" % (os.getpid(), threading.get_ident())
        rc, out, err = run(["g++"] + fl + ["-I" + HARN + "/inc", "-c", src, "-o", tmp], timeout=600)
        if rc != 0:
            raise ToolError("compile failed: %s\n%s" % (src, err[-3000:]))
        os.replace(tmp, obj)
    else:
        os.utime(obj)
    return obj


SETS = {
    "pario": ["util", "pario"],
    "lib": ["util", "pario", "loss", "math", "model"],
}


def repo_sources(which):
    if which is None:
        return []
    out = []
    for d in SETS[which]:
        p = REPO + "/src/sol/" + d
        if os.path.isdir(p):
            out += _files(p, (".cc", ".cpp", ".c"))
    if which == "lib":
        out += [f for f in (REPO + "/src/sol/c_api.cc", REPO + "/src/sol/tools.cc") if os.path.exists(f)]
        out += [f for f in sorted(os.listdir(REPO + "/src/sol")) and
                [REPO + "/src/sol/" + g for g in sorted(os.listdir(REPO + "/src/sol")) if g.endswith(".cc")]
                if f not in out]
        out += _files(REPO + "/external", (".cpp", ".cc"))
    return out


def prune():
    d = BUILD + "/obj"
    if not os.path.isdir(d):
        return
    fs = [os.path.join(d, f) for f in os.listdir(d)]
    fs = sorted(((os.path.getmtime(f), os.path.getsize(f), f) for f in fs if os.path.exists(f)), reverse=True)
    tot = 0
    for m, s, f in fs:
        tot += s
        if tot > 1500e6:
            try:
                os.unlink(f)
            except OSError:
                pass


def build(name, drivers, which, flavour, libs=()):
    """Link harness sources `drivers` with the current /repo sources; returns the program's path."""
    srcs = [os.path.join(HARN, d) for d in drivers] + repo_sources(which)
    with cf.ThreadPoolExecutor(NCPU) as ex:
        objs = list(ex.map(lambda s: compile_obj(s, flavour), srcs))
    key = _sha(name, *objs)
    os.makedirs(BUILD + "/bin", exist_ok=True)
    exe = "%s/bin/%s-%s" % (BUILD, name, key)
    if not os.path.exists(exe):
        for f in os.listdir(BUILD + "/bin"):
            if f.startswith(name + "-") and ".tmp" not in f and time.time() - os.path.getmtime(BUILD + "/bin/" + f) > 3600:
                try:
                    os.unlink(BUILD + "/bin/" + f)
                except OSError:
                    pass
        tmp = exe + ".tmp%d-%d" % (os.getpid(), threading.get_ident())
        rc, out, err = run(["g++"] + flags(flavour) + objs + ["-o", tmp, "-rdynamic", "-ldl", "-pthread"] + list(libs))
        if rc != 0:
            raise ToolError("link failed: %s\n%s" % (name, err[-3000:]))
        os.replace(tmp, exe)
    prune()
    return exe


# ----------------------------------------------------------------- TLC
_javac = {}


def overrides_dir():
    """Compile spec/java/*.java (operator overrides used by the specs), once per content."""
    jd = SPEC + "/java"
    fs = _files(jd, (".java",)) if os.path.isdir(jd) else []
    if not fs:
        return None
    key = _sha(*[open(f, "rb").read() for f in fs])
    out = BUILD + "/java-" + key
    if not os.path.isdir(out):
        tmp = tempfile.mkdtemp(prefix="jc", dir=_mk(BUILD))
        rc, o, e = run(["javac", "-nowarn", "-cp", JARS, "-d", tmp] + fs)
        if rc != 0:
            raise ToolError("javac failed: " + e[-2000:])
        try:
            os.replace(tmp, out)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    return out


def _mk(d):
    os.makedirs(d, exist_ok=True)
    return d


class EvalError(ToolError):
    """The specification has no value for an observation."""


class Tlc:
    def __init__(self, rc, out):
        self.rc, self.out = rc, out
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        self.ok = rc == 0 and "No error has been found" in out
        self.rejected = None
        m = re.search(r'<<\s*"REJECTED",\s*\{(.*?)\}\s*>>', out, re.S)
        if m:
            self.rejected = [(int(a), int(b)) for a, b in re.findall(r"<<\s*(\d+),\s*(\d+)\s*>>", m.group(1))]
        self.violated = ("is violated" in out or "was violated" in out or "Deadlock reached" in out
                         or "properties were violated" in out)


def tlc(module, cfg, env=None, timeout=900, workers=1, xmx="3g", extra=(), coverage=False):
    """Run TLC on spec/<module>.tla with config text or file. Never raises on a verdict."""
    meta = tempfile.mkdtemp(prefix="tlc", dir=_mk(BUILD + "/meta"))
    try:
        if "\n" in cfg or " " in cfg:
            cfgf = meta + "/M.cfg"
            open(cfgf, "w").write(cfg)
        else:
            cfgf = os.path.join(SPEC, cfg)
        od = overrides_dir()
        cp = (od + ":" if od else "") + JARS
        cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx" + xmx, "-Xss16m",
               "-cp", cp, "-Djava.io.tmpdir=" + meta, "tlc2.TLC", "-workers", str(workers), "-metadir", meta + "/s",
               "-noGenerateSpecTE", "-config", cfgf] + list(extra) + [module + ".tla"]
        rc, out, err = run(cmd, timeout=timeout, env=env, cwd=SPEC)
        if rc == -9999:
            raise ToolError("TLC timed out on " + module)
        r = Tlc(rc, out)
        if not r.ok and r.rejected is None and not r.violated:
            if "The error occurred when TLC was evaluating the nested" in out:
                raise EvalError("TLC cannot evaluate %s:\n%s" % (module, out[-3000:]))
            raise ToolError("TLC failed on %s (rc %d):\n%s\n%s" % (module, rc, out[-3000:], err[-1000:]))
        return r
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def tlc_retry(*a, **k):
    try:
        return tlc(*a, **k)
    except EvalError:
        raise
    except ToolError as x:
        sys.stderr.write("retry: %s\n" % str(x)[:300])
        return tlc(*a, **k)


def pmap(f, items, n=NCPU):
    with cf.ThreadPoolExecutor(n) as ex:
        return list(ex.map(f, items))


# ----------------------------------------------------------------- check context
class Check:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.quick = tier == "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.rng = random.Random("%s-%d" % (prop, self.seed))
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assumptions = []
        self.violations = []
        self.known_hits = []
        self.notes = {}
        self.lock = threading.Lock()
        self.level = "model_checking"
        self.work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.replay_dir = _mk(os.path.join(VERIF, "evidence", "replay"))
        self.known = load_known(prop)

    # models
    def model(self, module, cfg, expect="ok", label="", **k):
        """Exhaustive model check; expect ok, or 'violated' for a negative control."""
        r = tlc_retry(module, cfg, **k)
        with self.lock:
            self.cov["states"] += r.distinct
            self.cov["transitions"] += r.generated
        self.notes.setdefault("models", []).append(
            {"module": module, "label": label, "states": r.distinct, "transitions": r.generated, "result": "ok" if r.ok else "violated"})
        if expect == "ok" and not r.ok:
            raise ToolError("model %s %s does not satisfy its own properties:\n%s" % (module, label, r.out[-3000:]))
        if expect == "violated" and r.ok:
            raise ToolError("negative control %s %s was not violated" % (module, label))
        return r

    def traces(self, module, cfg, traces, env=None, chunk=400, timeout=600, xmx="3g", max_report=20):
        """Validate traces (list of objects) against a trace spec; returns [(trace, pos)] rejected (confirmed)."""
        if not traces:
            return []
        chunks = [traces[i:i + chunk] for i in range(0, len(traces), chunk)]

        found = [0]

        def one(ic):
            """A history on which the specification has no value (an observation no step can have) is rejected too."""
            i, c = ic
            try:
                return tlc_one(ic)
            except EvalError as x:
                if len(c) == 1:
                    found[0] += 1
                    return [(None, [(c[0], 1)])]
                h = len(c) // 2
                return (one((i, c[:h])) if found[0] < 3 else []) + (one((i, c[h:])) if found[0] < 3 else [])

        def tlc_one(ic):
            i, c = ic
            f = os.path.join(self.work, "tr%s%d-%d.json" % (module, i, random.randrange(1 << 30)))
            json.dump(c, open(f, "w"))
            e = dict(env or {})
            e["TRACES"] = f
            r = tlc_retry(module, cfg, env=e, timeout=timeout, xmx=xmx)
            if not r.ok and r.rejected is None:
                raise ToolError("trace spec %s ended without a verdict:\n%s" % (module, r.out[-3000:]))
            rej = []
            if r.rejected:
                r2 = tlc_retry(module, cfg, env=e, timeout=timeout, xmx=xmx)
                again = dict(r2.rejected or [])
                rej = [(c[k - 1], pos) for k, pos in sorted(r.rejected) if k in again]
            os.unlink(f)
            return [(r, rej)]

        rejected = []
        for r, rej in sum(pmap(one, list(enumerate(chunks)), n=max(2, NCPU - 1)), []):
            if r:
                self.cov["states"] += r.distinct
                self.cov["transitions"] += r.generated
            rejected += rej
        self.cov["traces_validated_against_impl"] += len(traces)
        return rejected

    def self_test(self, module, cfg, bad_traces, env=None, timeout=600):
        """Corrupted traces must be rejected, or the check itself is broken."""
        f = os.path.join(self.work, "self%d.json" % random.randrange(1 << 30))
        json.dump(bad_traces, open(f, "w"))
        e = dict(env or {})
        e["TRACES"] = f
        r = tlc_retry(module, cfg, env=e, timeout=timeout)
        got = {k for k, _ in (r.rejected or [])}
        missing = [i for i in range(1, len(bad_traces) + 1) if i not in got]
        # a corruption may happen to be another behaviour the specification allows; most must not be
        if len(missing) > len(bad_traces) // 3:
            raise ToolError("self test: corrupted traces accepted by %s: %s" % (module, json.dumps([bad_traces[i - 1] for i in missing])[:1500]))
        self.notes["corrupted_traces_rejected"] = self.notes.get("corrupted_traces_rejected", 0) + len(bad_traces) - len(missing)
        if missing:
            self.notes["corrupted_traces_legal"] = self.notes.get("corrupted_traces_legal", 0) + len(missing)

    def sample(self, x, n=3):
        if len(self.cov["samples"]) < n:
            self.cov["samples"].append(x)

    def violation(self, what, data):
        """Record a violation unless the committed known-findings file lists it."""
        for k in self.known:
            if k["match"] in what:
                if k not in self.known_hits:
                    self.known_hits.append(k)
                return
        self.violations.append((what, data))

    def finish(self):
        wall = time.time() - self.t0
        self.cov.update(self.notes)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": self.cov,
              "assumptions": self.assumptions, "wall_s": round(wall, 2), "violations": len(self.violations)}
        _mk(VERIF + "/evidence")
        json.dump(ev, open("%s/evidence/%s.json" % (VERIF, self.prop), "w"), indent=1)
        shutil.rmtree(self.work, ignore_errors=True)
        for k in self.known_hits:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        if self.violations:
            for i, (what, data) in enumerate(self.violations[:5]):
                p = "%s/%s-%d.json" % (self.replay_dir, self.prop, i)
                json.dump({"property": self.prop, "what": what, "data": data}, open(p, "w"), indent=1)
                print("VIOLATION property=%s replay=%s" % (self.prop, p))
                print("  " + what[:600])
            return 1
        print("OK property=%s tier=%s wall=%.1fs states=%d traces=%d" % (
            self.prop, self.tier, wall, self.cov["states"], self.cov["traces_validated_against_impl"]))
        return 0


def load_known(prop):
    """KNOWN_FINDINGS: lines 'known: property=<id> match=<text> what=<text>' (fixed: lines suppress nothing)."""
    out = []
    p = VERIF + "/KNOWN_FINDINGS"
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) match=\[(.*?)\] (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append({"match": m.group(2), "what": m.group(3)})
    return out
