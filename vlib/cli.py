"""C27: sessions with the command-line programs, next to the same steps made through the library."""
import copy
import hashlib
import json
import os
import re
import shutil
import struct
from . import core, models
from .formats import hexs, report

PROGS = ["sol_train", "sol_test", "lsol_c", "converter", "shuffle", "split", "concat", "analyze"]
ENV = {"ASAN_OPTIONS": "detect_leaks=0:allocator_may_return_null=1:hard_rss_limit_mb=3000:exitcode=99"}
VALS = ["1", "-1", "0.5", "2.25", "-0.75", "3", "0.125"]


def programs():
    lib = models.exe()          # compiles what the programs share
    p = dict(zip(PROGS, core.pmap(lambda n: core.build(n, [core.REPO + "/tools/%s.cc" % n], "lib", "asan"), PROGS)))
    p["lib"] = lib
    return p


def is_num(v):
    try:
        f = float(v)
    except ValueError:
        return False
    if f != f or f in (float("inf"), float("-inf")):
        return False
    try:
        struct.pack("<f", f)
    except OverflowError:
        return False
    return True


def flat(o, out):
    for k, v in o.items():
        if isinstance(v, dict):
            flat(v, out)
        else:
            out[k] = v
    return out


def canon(d):
    def one(v):
        s = {True: "true", False: "false"}.get(v, str(v)) if isinstance(v, bool) else str(v)
        return "%.5g" % float(s) if is_num(s) else s
    return ";".join("%s=%s" % (k, one(v)) for k, v in sorted(d.items()))


def rec(y, pairs):
    return {"y": y, "n": len(pairs), "x": " ".join("%d:%s" % (i, v) for i, v in pairs)}


class Session:
    """A scratch directory, the events so far, and the operations."""

    def __init__(self, c, r, progs, n):
        self.c, self.r, self.p = c, r, progs
        self.d = "%s/s%d" % (c.work, n)
        os.makedirs(self.d)
        os.symlink("/dev/full", self.d + "/full")
        self.ev, self.log = [], []
        self.sets = {}      # data files: name -> (fmt, records), as asked for (only used to tell the library the records)
        self.nout = 0

    def sh(self, prog, args):
        self.log.append(prog + " " + " ".join(args))
        rc, out, err = core.run([self.p[prog]] + args, timeout=120, env=ENV, cwd=self.d)
        crash = rc < 0 or rc == 99 or "AddressSanitizer" in err or "terminate called" in err
        return rc, crash, out

    def sha(self, f):
        p = os.path.join(self.d, f)
        if f == "full" or not os.path.isfile(p):
            return ""
        return hashlib.sha1(open(p, "rb").read()).hexdigest()[:12]

    def name(self, ext):
        self.nout += 1
        return "f%d.%s" % (self.nout, ext)

    def make(self, f, kind, content, **k):
        open(os.path.join(self.d, f), "w").write(content)
        self.ev.append(dict({"e": "make", "file": f, "kind": kind}, **k))

    def data(self, recs):
        f = self.name("svm")
        self.make(f, "data", "".join("%d%s\n" % (q["y"], " " + q["x"] if q["x"] else "") for q in recs), fmt="svm", recs=recs)
        self.sets[f] = ("svm", recs)
        return f

    def dest(self, ext, bad):
        """(path, how writing there ends)"""
        if not bad:
            return self.name(ext), "ok"
        return self.r.choice([("nodir/" + self.name(ext), "nodir"), ("full", "full"), (".", "dir")])

    # ---------------------------------------------------------------- training
    def train(self, via, frm, alg, cls, pars, data, fmt, npass, out, dst, opts=()):
        """pars: list of items 'name=value' as given on the command line"""
        par = []
        for it in pars:
            q = it.split("=")
            n, v = (q + [""])[0].strip(), (q + ["", ""])[1].strip()
            par.append({"parts": len([x for x in q]), "n": n, "v": v, "num": is_num(v), "low": v.lower()})
        e = {"e": "train", "via": via, "from": frm, "alg": alg, "cls": cls, "par": par, "data": data, "fmt": fmt, "pass": npass, "out": out,
             "dst": dst, "acc": -1, "sparse": -1, "info": "", "crash": False, "sha": ""}
        before = self.sha(out) if out else ""
        if via == "lib":
            recs = self.sets.get(data, ("svm", []))[1]
            tmp = ".new"            # a script goes on after a refused setting; its result is then not used
            s = ["load " + frm if frm else "new %s %d" % (alg, cls)]
            for q in par:
                s.append("set %s %s%s" % (q["n"], "FILE:" if q["n"] == "filter" else "", q["v"]))
            s.append("params")
            s.append("train %d %d %d@%s" % (self.r.choice([1, 2, 3, 50]), self.r.choice([1, 2]), npass,
                                            ";".join("%d %s" % (q["y"], q["x"]) for q in recs)))
            s.append("sparsity")
            if out:
                s.append("save " + tmp)
            evs = self.lib("|".join(s))
            rc = 0
            if evs[-1].get("op") != "ok":
                e["crash"] = True
            for x in evs:
                if x["e"] in ("new", "load") and not x["ok"]:
                    rc = 4
                elif x["e"] == "set" and x["st"]:
                    rc = rc or x["st"]
                elif x["e"] == "save" and x["st"]:
                    rc = rc or x["st"]
                elif x["e"] == "params" and not rc:
                    e["info"] = canon(x["par"])
                elif x["e"] == "train" and not rc:
                    e["acc"] = int(round((1 - hilo(x["er"])) * 10000))
                elif x["e"] == "sparsity" and not rc:
                    e["sparse"] = int(round(hilo(x["s"]) * 1e6)) if hilo(x["s"]) == hilo(x["s"]) else -1
            if out and not rc and os.path.exists(self.d + "/" + tmp):
                os.replace(self.d + "/" + tmp, os.path.join(self.d, out))
        else:
            a = list(opts)
            if fmt != "svm" or self.r.random() < .3:
                a += ["-f", fmt]
            if cls != 2 or self.r.random() < .2:
                a += ["-c", str(cls)]
            if npass != 1:
                a += [self.r.choice(["-p", "--pass"]), str(npass)]
            if frm:
                a += ["-m", frm]
            if alg:
                a += ["-a", alg]
            if pars:
                a += ["--params", ";".join(pars)]
            if self.r.random() < .4:
                a += ["-b", str(self.r.choice([1, 2, 7, 1000]))]
            if self.r.random() < .3:
                a += ["--bufsize", str(self.r.choice([1, 3]))]
            if via == "sol_train":
                a = a + [data] + ([out] if out else []) if self.r.random() < .5 else [data] + a + ([out] if out else [])
            else:
                a += ["-i", data] + (["-o", out] if out else []) + (["-t", "train"] if self.r.random() < .5 else [])
            rc, e["crash"], text = self.sh(via, a)
            m = re.search(r"^training accuracy: (-?[0-9.]+)$", text, re.M)
            if m:
                e["acc"] = int(round(float(m.group(1)) * 10000))
            m = re.search(r"^model sparsity: (-?[0-9.]+)%$", text, re.M)
            if m:
                e["sparse"] = int(round(float(m.group(1)) * 10000))
            m = re.search(r"Model Information: \n(\{.*?\n\})\n", text, re.S)
            if m:
                try:
                    e["info"] = canon(flat(json.loads(m.group(1)), {}))
                except ValueError:
                    e["info"] = "unreadable"
        e["rc"] = rc
        e["sha"] = self.sha(out) if out else ""
        e["kept"] = e["sha"] == before
        self.ev.append(e)
        return rc == 0

    def lib(self, script):
        self.log.append("library: " + script[:200])
        open(self.d + "/.cases", "w").write(script + "\n")
        rc, out, err = core.run([self.p["lib"], self.d + "/.cases", self.d + "/.out", self.d], timeout=120, env=ENV)
        if rc != 0:
            raise core.ToolError("driver failed rc=%d %s" % (rc, err[-500:]))
        try:
            return json.loads(open(self.d + "/.out").readline())["ev"]
        except ValueError:
            return [{"e": "end", "op": "crash"}]

    # ---------------------------------------------------------------- testing
    def test(self, via, frm, data, fmt, filt, out, dst):
        e = {"e": "test", "via": via, "from": frm, "data": data, "fmt": fmt, "filter": filt, "out": out, "dst": dst, "acc": -1, "rows": [],
             "head": "", "crash": False}
        before = self.sha(out) if out else ""
        if via == "lib":
            recs = self.sets.get(data, ("svm", []))[1]
            s = ["load " + frm] + (["set filter FILE:" + filt] if filt else [])
            s.append("test 3 2 1@" + ";".join("%d %s" % (q["y"], q["x"]) for q in recs))
            rc = 0
            for x in self.lib("|".join(s)):
                if x["e"] == "load" and not x["ok"]:
                    rc = 4
                elif x["e"] == "set" and x["st"]:
                    rc = rc or x["st"]
                elif x["e"] == "test" and not rc:
                    e["acc"] = int(round((1 - hilo(x["er"])) * 10000))
                elif x["e"] == "end" and x["op"] != "ok":
                    e["crash"] = True
            if not rc and out:
                if os.path.exists(self.d + "/scores"):
                    shutil.copyfile(self.d + "/scores", os.path.join(self.d, out))
        else:
            a = []
            if fmt != "svm" or self.r.random() < .3:
                a += ["-f", fmt]
            if self.r.random() < .4:
                a += ["-b", str(self.r.choice([1, 2, 7]))]
            if filt:
                a += ["--filter", filt]
            if via == "sol_test":
                a += [frm, data] + ([out] if out else [])
            else:
                a += ["-t", "test", "-m", frm, "-i", data] + (["-o", out] if out else [])
            rc, e["crash"], text = self.sh(via, a)
            m = re.search(r"^test accuracy: (-?[0-9.]+)$", text, re.M)
            if m:
                e["acc"] = int(round(float(m.group(1)) * 10000))
        p = os.path.join(self.d, out)
        if out and dst == "ok" and os.path.isfile(p):
            lines = open(p).read().split("\n")
            e["head"] = lines[0]
            for x in lines[1:]:
                if x:
                    w = x.split("\t")
                    e["rows"].append([int(w[0]), int(w[1]), w[2:]])
        e["rc"] = rc
        e["kept"] = (self.sha(out) if out else "") == before
        self.ev.append(e)

    # ---------------------------------------------------------------- data sets
    def read_svm(self, f):
        out = []
        p = os.path.join(self.d, f)
        if not os.path.isfile(p):
            return out
        for x in open(p, errors="replace").read().split("\n"):
            w = x.split()
            if w:
                try:
                    out.append(rec(int(w[0]), [(int(q.split(":")[0]), "%g" % float(q.split(":")[1])) for q in w[1:]]))
                except (ValueError, IndexError):
                    out.append({"y": 0, "n": -1, "x": x})
        return out

    def tool(self, tool, src, fmt, to, outs, dst, prefix="", extra=()):
        a = ["-i", ";".join(src), "-s", fmt, "-o", prefix or outs[0]]
        if to:
            a += ["-d", to]
        if tool == "split":
            a += ["-n", str(len(outs))]
        rc, crash, _ = self.sh(tool, a + list(extra))
        e = {"e": "data", "tool": tool, "src": src, "fmt": fmt, "to": to, "out": outs, "dst": dst, "rc": rc, "crash": crash, "recs": []}
        if tool == "shuffle" and to == "svm":
            e["recs"] = self.read_svm(outs[0])
        self.ev.append(e)
        if rc == 0 and all(s in self.sets for s in src):
            rs = [self.sets[s][1] for s in src]
            if tool == "converter":
                self.sets[outs[0]] = (to, rs[0])
            elif tool == "concat":
                self.sets[outs[0]] = (to, sum(rs, []))
            elif tool == "shuffle":
                self.sets[outs[0]] = (to, e["recs"])
            elif tool == "split":
                k = -(-len(rs[0]) // len(outs))
                for i, o in enumerate(outs):
                    self.sets[o] = (to, rs[0][i * k:(i + 1) * k])
            for o in outs:
                if to == "svm" and tool != "shuffle":
                    self.ev.append({"e": "dump", "file": o, "recs": self.read_svm(o)})
        return rc == 0

    def analyze(self, src, fmt, dst="ok"):
        out = self.name("txt") if dst == "ok" else "full"
        rc, crash, _ = self.sh("analyze", ["-i", src, "-s", fmt, "-o", out])
        e = {"e": "analyze", "src": src, "fmt": fmt, "dst": dst, "rc": rc, "crash": crash, "n": -1, "f": -1, "cls": -1}
        p = os.path.join(self.d, out)
        if dst == "ok" and os.path.isfile(p):
            t = open(p).read()
            for k, pat in (("n", r"^data number  : (\d+)$"), ("f", r"^feat number  : (\d+)$"), ("cls", r"^class num    : (\d+)$")):
                m = re.search(pat, t, re.M)
                e[k] = int(m.group(1)) if m else -1
        self.ev.append(e)


def hilo(x):
    """Double as recorded by the drivers: two 32-bit halves."""
    return struct.unpack(">d", struct.pack(">II", x[0] & 0xffffffff, x[1] & 0xffffffff))[0]


def rows(r, n, cls, dense, dim):
    out = []
    for _ in range(n):
        k = dim if dense else r.choice([0, 1, 2, dim])
        ix = sorted(r.sample(range(1, dim + 1), k))
        y = r.choice([1, -1]) if cls == 2 else r.randrange(cls)
        out.append(rec(y, [(i, r.choice(VALS)) for i in ix]))
    return out


def pairs(sets):
    """'set name value' commands as command-line parameters; the text between may carry blanks"""
    return ["=".join(x.split(" ", 2)[1:]) for x in sets]


BADPAR = ["eta", "eta=", "=1", "a=b=c", "eta=abc", "nosuch=1", "eta=-1", "eta=1e999", "loss=nosuch", "norm=L7", "filter=missing.txt", "filter=far.txt", "delta=0",
          "sigma=-1", "B=x", "k=0"]


def session(s, i):
    r = s.r
    cls = r.choice([2, 2, 3, 4])
    dense = r.random() < .5
    dim = r.choice([2, 3, 5])
    tr = s.data(rows(r, r.choice([4, 9, 20]), cls, dense, dim))
    te = s.data(rows(r, r.choice([1, 5, 12]), cls, dense, dim + r.randint(0, 1)))
    s.make("flt.txt", "filter", "1\n3\n", text="1,3")
    s.make("far.txt", "junk", "1\n99999999999\n")
    s.make("word.txt", "junk", "1\nabc\n")
    s.make("junk.mdl", "junk", r.choice(["", "model info:\n{}\n", "nonsense\n"]))
    fmts = ["svm", "bin"] + (["csv"] if dense else [])
    pool = [tr]
    # the training data in other forms
    for _ in range(2):
        src = r.choice(pool)
        f = s.sets[src][0]
        to = r.choice(fmts)
        k = r.randrange(4)
        if k <= 1:
            o = s.name(to)
            if s.tool("converter", [src], f, to, [o], "ok"):
                pool.append(o)
        elif k == 2:
            o = s.name(to)
            n = r.choice([1, 2, 3])
            if s.tool("concat", [src] * n, f, to, [o], "ok"):
                pool.append(o)
        else:
            n = r.choice([2, 3])
            pre = s.name("p")
            outs = ["%s%d.%s" % (pre, q, to) for q in range(n)]
            if s.tool("split", [src], f, to, outs, "ok", prefix=pre):
                pool += [o for o in outs if s.sets[o][1]]
    if r.random() < .3:
        o = s.name("svm")
        if s.tool("shuffle", [tr], "svm", "svm", [o], "ok"):
            pool.append(o)
    if r.random() < .3:
        src = r.choice(pool)
        s.analyze(src, s.sets[src][0])
    alg = models.ALL[i % len(models.ALL)]
    frm = ""
    # training steps, each through the library and the two programs
    for step in range(r.choice([1, 2, 2, 3])):
        sets = []
        if not frm:
            if r.random() < .6:
                sets.append("set loss " + r.choice(models.losses(alg, cls)))
            if alg in models.SEL and r.random() < .8:
                sets.append("set B %d" % r.choice([1, 2]))
        if not frm or r.random() < .4:
            sets += models.params(r, alg)
        if r.random() < .2 and not (frm and alg == "alma2"):
            sets.append("set lazy_update " + r.choice(["true", "false"]))
        ps = pairs(sets)
        if r.random() < .2:
            ps.append("filter=flt.txt")
        if r.random() < .3:
            ps = [r.choice(["%s = %s", " %s=%s", "%s=%s "]) % tuple(x.split("=")) for x in ps]
        bad = r.random() < .15
        if bad:
            ps.insert(r.randint(0, len(ps)), r.choice(BADPAR))
        data = r.choice(pool)
        fmt = s.sets[data][0]
        npass = r.choice([1, 1, 2, 3])
        a = "" if frm else alg
        outs = []
        for via in r.sample(["lib", "sol_train", "lsol_c"], 3):
            ill = r.random() < .12
            o, dst = s.dest("mdl", ill and via != "lib")
            if r.random() < .1:
                o, dst = "", "ok"
            if outs and r.random() < .1 and dst == "ok":
                o = outs[0]            # over an existing model
            p2 = ps
            if via == "lib" and any(x.count("=") != 1 for x in ps):
                continue               # only the command line can be malformed
            if s.train(via, frm, a, cls, p2, data, fmt, npass, o, dst) and o and dst == "ok":
                outs.append(o)
        for m in outs[:2]:
            flt = "flt.txt" if r.random() < .25 else ""
            d2, f2 = (te, "svm") if r.random() < .6 else (data, fmt)
            for via in r.sample(["lib", "sol_test", "lsol_c"], 2 if r.random() < .7 else 3):
                o = s.name("out") if r.random() < .8 else ""
                s.test(via, m, d2, f2, flt, o, "ok")
        if not outs:
            break
        frm = r.choice(outs)
    # requests that must fail
    good = frm or ""
    for _ in range(3):
        k = r.randrange(9)
        via = r.choice(["sol_train", "lsol_c"])
        tvia = r.choice(["sol_test", "lsol_c"])
        if k == 0:
            s.train(via, "", r.choice(["nosuch", "ogd_model", "OGD2"]), cls, [], tr, "svm", 1, s.name("mdl"), "ok")
        elif k == 1:
            s.train(via, "", alg, cls, [], "missing.svm", "svm", 1, s.name("mdl"), "ok")
        elif k == 2:
            s.train(via, r.choice(["junk.mdl", "missing.mdl"]), "", 2, [], tr, "svm", 1, s.name("mdl"), "ok")
        elif k == 3:
            s.train(via, "", alg, r.choice([0, 1, -3]), [], tr, "svm", 1, s.name("mdl"), "ok")
        elif k == 4:
            s.test(tvia, r.choice(["junk.mdl", "missing.mdl"]), te, "svm", r.choice(["", "flt.txt"]), r.choice(["", s.name("out")]), "ok")
        elif k == 5 and good:
            s.test(tvia, good, "missing.svm", "svm", "", s.name("out"), "ok")
        elif k == 6 and good:
            s.test(tvia, good, te, "svm", r.choice(["far.txt", "word.txt"]), s.name("out"), "ok")
        elif k == 7 and good:
            s.test(tvia, good, te, "svm", "missing.txt", s.name("out"), "ok")
        elif k == 8:
            t = r.choice(["converter", "shuffle", "concat"])
            o, dst = s.dest("svm", r.random() < .6)
            s.tool(t, [r.choice(["missing.svm"] + [tr] * 3)], "svm", r.choice(["svm", "bin"]) if dst != "ok" else "nosuch", [o], dst)
    if i % 10 == 0:
        for via in ("sol_train", "lsol_c"):
            for what in ("model", "loss", "reader", "writer"):
                rc, crash, text = s.sh(via, ["-s", what])
                s.ev.append({"e": "show", "via": via, "what": what, "rc": rc, "crash": crash, "names": [x.split("\t")[0].rstrip(":") for x in text.split("\n") if x]})
        bad = [("sol_train", []), ("sol_train", ["-f", "xyz", tr]), ("sol_train", ["-p", "two", tr]), ("sol_train", ["--nosuch", tr]),
               ("sol_train", ["-a", "", tr]), ("sol_train", ["-a", "ogd", tr, "x.mdl", "y.mdl"]), ("sol_test", ["only"]), ("sol_test", ["a", "b", "c", "d"]),
               ("sol_test", ["-f", "xyz", "a", "b"]), ("lsol_c", ["-t", "guess", "-i", tr]), ("lsol_c", ["-a", "ogd"]), ("lsol_c", ["-i", tr]),
               ("lsol_c", ["-t", "test", "-i", tr]), ("converter", ["-i", tr]), ("split", ["-i", tr, "-s", "svm", "-o", "q"]), ("analyze", ["-s", "svm"]),
               ("shuffle", ["-s", "svm"]), ("concat", ["-i", tr, "-s", "svm"])]
        for prog, a in bad[1:]:
            rc, crash, _ = s.sh(prog, a)
            s.ev.append({"e": "usage", "prog": prog, "args": a, "rc": rc, "crash": crash, "help": False})
        for prog in ("sol_train", "sol_test", "lsol_c"):
            rc, crash, _ = s.sh(prog, ["--help"])
            s.ev.append({"e": "usage", "prog": prog, "args": ["--help"], "rc": rc, "crash": crash, "help": True})
    if good and i % 12 in (5, 7):        # known findings: last, so that they hide nothing
        o, dst = s.dest("out", True)
        s.test("lsol_c" if i % 12 == 5 else "sol_test", good, te, "svm", "", o, dst)
    s.ev.append({"e": "end", "op": "ok"})


def check(c):
    progs = programs()
    n = 240 if c.quick else 1200
    seeds = [c.rng.random() for _ in range(n)]
    import random

    def one(i):
        s = Session(c, random.Random(seeds[i]), progs, i)
        session(s, i)
        shutil.rmtree(s.d, ignore_errors=True)
        return {"ev": s.ev, "case": " ; ".join(s.log)[:4000]}
    traces = core.pmap(one, range(n))
    c.notes["programs_run"] = sum(1 for t in traces for e in t["ev"] if e["e"] != "make" and e.get("via") != "lib")
    c.sample({"session": traces[0]["case"][:600], "events": traces[0]["ev"][-6:]})
    rej = c.traces("CliTrace", "CliTrace.cfg", traces, chunk=12)
    if len(rej) < len(traces) // 4:
        rejected = {id(t) for t, _ in rej}
        bad = []
        for t in traces:
            k = [j for j, e in enumerate(t["ev"]) if e["e"] in ("train", "test") and e["rc"] == 0 and e["via"] != "lib"]
            if not k or id(t) in rejected:
                continue
            u = copy.deepcopy(t)
            e = u["ev"][k[-1]]
            q = len(bad) % 3
            if q == 0:
                e["rc"] = 4
            elif q == 1:
                e["acc"] = e["acc"] - 1000 if e["acc"] >= 1000 else -1
            else:
                e["crash"] = True
            bad.append(u)
            if len(bad) == 12:
                break
        c.self_test("CliTrace", "CliTrace.cfg", bad)
    for t, pos in rej:
        e = t["ev"][pos - 1]
        kind = ""
        if e.get("e") == "test" and e["via"] in ("lsol_c", "sol_test") and e["dst"] != "ok" and e["rc"] == 0 and not e["crash"]:
            kind = "%s reports success although the results file cannot be written: " % {"lsol_c": "lsol_c test"}.get(e["via"], e["via"])
        c.violation("command line: %sevent %d %s" % (kind, pos, json.dumps(e)[:500]), t)
    c.assumptions.append("data sets of a few records; csv only for records with every column; no active learning (random)")
