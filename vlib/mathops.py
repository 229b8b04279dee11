"""C28: vectors, sparse vectors and matrices."""
import copy
import itertools
import json
import os
from . import core, formats

VALS = ["0", "-0", "1", "-1", "0.5", "-0.5", "2", "-3", "0.1", "7.25", "-0.3", "1e-3", "1e5", "-12.5"]


def tok(name, op="=", i=0, j=0, k=0, n=0, x="0"):
    return "%s,%s,%d,%d,%d,%d,%s" % (name, op, i, j, k, n, x)


DENSE = ("vv", "lin", "l2m", "tv", "tru", "sqr", "sub", "vmul", "vdiv", "vsub", "vxs", "xv", "pls", "adag")
SPARSE = ("cs", "s2", "sl", "sd", "strk", "ssq", "spl", "smi", "dsd", "sdd", "stv")
WITH_V = ("sl", "sd", "dsd", "sdd", "stv")
OPS = "+-*/="


class Prog:
    """A random program; keeps just enough state (sizes, sparse indexes, sharing) to stay inside the preconditions."""
    def __init__(self, r):
        self.r, self.t = r, []
        self.vo, self.so = [0, 1, 2, 3], [0, 1]          # handle -> object
        self.sz, self.last = {k: 0 for k in range(4)}, {0: -1, 1: -1}
        self.nv, self.ns = 4, 2

    def val(self):
        return self.r.choice(VALS) if self.r.random() < .8 else "%.4g" % self.r.uniform(-50, 50)

    def nz(self):
        return self.r.choice(["1", "-1", "0.5", "2", "-4", "0.1", "3"])

    def size(self):
        return self.r.choice([0, 1, 1, 2, 3, 3, 5, 8, 17])

    def step(self):
        r = self.r
        i, j, k = r.randrange(4), r.randrange(4), r.randrange(4)
        s, s2 = r.randrange(2), r.randrange(2)
        a, b = r.randrange(2), r.randrange(2)
        z = lambda h: self.sz[self.vo[h]]
        w = r.choice(["vnew", "vctor", "vcopy", "vcopyto", "vset", "push", "push", "push", "pop", "resize", "clear", "fill", "fillto",
                      "vs", "vs", "dense", "dense", "dense", "dense", "sparse", "sparse", "sparse", "dot", "dpl", "dmi", "ddv", "red", "rede", "back", "front", "each", "vreserve", "dots", "dots", "n1", "n2", "n1s", "n2s",
                      "spush", "spush", "spush", "spush", "sclear", "scopy", "sctor", "sop", "mnew", "mresize", "mcopy", "mcopyto", "mset", "mset", "mget",
                      "mget", "mex", "ms", "mm", "mlin", "text"])
        if w == "vnew":
            n = max(1, self.size())
            self.vo[i] = self.nv
            self.sz[self.nv] = n
            self.nv += 1
            return tok(w, i=i, n=n)
        if w in ("vctor", "vcopy"):
            self.vo[i] = self.vo[j]
            return tok(w, i=i, j=j)
        if w == "vcopyto":
            if self.vo[i] == self.vo[j]:
                return None
            self.sz[self.vo[j]] = z(i)
            return tok(w, i=i, j=j)
        if w in ("vset", "fill"):
            return tok(w, i=i, n=r.randint(0, max(0, z(i) - (w == "vset"))), x=self.val()) if z(i) else None
        if w == "fillto":
            n = r.randint(0, z(i))
            return tok(w, i=i, k=r.randint(0, n), n=n, x=self.val())
        if w == "push":
            self.sz[self.vo[i]] += 1
            return tok(w, i=i, x=self.val())
        if w == "pop":
            self.sz[self.vo[i]] = max(0, z(i) - 1)
            return tok(w, i=i)
        if w == "resize":
            n = self.size()
            old = z(i)
            self.sz[self.vo[i]] = n
            # new entries have no specified value: give them one
            return [tok(w, i=i, n=n)] + ([tok("fill", i=i, n=old, x=self.val())] if n > old else [])
        if w == "clear":
            self.sz[self.vo[i]] = 0
            return tok(w, i=i)
        if w == "vs":
            op = r.choice(OPS)
            return tok(w, op, i=i, x=self.nz() if op == "/" else self.val())
        if w == "dense":
            w = r.choice(DENSE)
            if r.random() < .75:     # mostly fitting operands
                c = [h for h in range(4) if z(h) == z(i) and z(h)]
                if not c:
                    return None
                j, k = r.choice(c), r.choice(c)
            if not z(j) or not z(k):
                return None
            x = self.val()
            return tok(w, r.choice("+-*/=="), i=i, j=j, k=k, x=x.lstrip("-") if w == "tru" else self.nz().lstrip("-") if w in ("vxs", "adag") else x)
        if w == "sparse":
            w = r.choice(SPARSE)
            if w in WITH_V and z(k) < z(i):
                return None
            return tok(w, r.choice("+-*/=="), i=i, j=s, k=k, x=self.nz().lstrip("-") if w == "strk" else self.nz())
        if w in ("dpl", "dmi", "ddv", "rede"):
            return tok(w, i=i, j=j) if z(i) and z(j) else None
        if w in ("red", "back", "front"):
            return tok(w, i=i, x="777") if z(i) else None
        if w == "each":
            return tok(w, i=i, n=r.randint(0, z(i)))
        if w == "vreserve":
            return tok(w, i=i, n=z(i) + r.choice([0, 1, 5, 40]))
        if w == "dot":
            return tok(w, i=i, j=j) if z(i) and z(j) else None
        if w in ("n1", "n2"):
            return tok(w, i=i)
        if w == "dots":
            return tok(w, i=i, j=s)
        if w in ("n1s", "n2s"):
            return tok(w, j=s)
        if w == "spush":
            o = self.so[s]
            self.last[o] += r.choice([1, 1, 1, 2, 4])
            return tok(w, j=s, n=self.last[o], x=self.val())
        if w == "sclear":
            self.last[self.so[s]] = -1
            return tok(w, j=s)
        if w in ("scopy", "sctor"):
            self.so[s] = self.so[s2]
            return tok(w, j=s, k=s2)
        if w == "sop":
            op = r.choice("+-*/")
            return tok(w, op, j=s, x=self.nz())
        if w in ("mnew", "mresize"):
            n, m = r.choice([1, 1, 2, 3, 4]), r.choice([1, 2, 3, 5])
            return [tok(w, i=a, n=n, k=m)] + ([tok("ms", "=", i=a, x=self.val())] if w == "mresize" else [])
        if w in ("mcopy", "mm", "mlin", "mcopyto"):
            return tok(w, r.choice("+-*="), i=a, j=b, x=self.val())
        if w == "ms":
            op = r.choice(OPS)
            return tok(w, op, i=a, x=self.nz() if op == "/" else self.val())
        if w in ("mset", "mget", "mex"):
            return tok(w, i=a, n=r.randint(0, 3), k=r.randint(0, 4), x=self.val())
        if w == "text":
            return tok(w, i=i)

    def run(self, n):
        while len(self.t) < n:
            t = self.step()
            if isinstance(t, list):
                self.t += t
            elif t:
                self.t.append(t)
        return " ".join(self.t)


def grid():
    """Every operator with every right-hand side, fitting and not, on fixed operands."""
    out = []
    base = [tok("vnew", i=0, n=3), tok("vnew", i=1, n=3), tok("vnew", i=2, n=3), tok("vnew", i=3, n=2)]
    for h in range(4):
        for n in range(3 if h < 3 else 2):
            base.append(tok("vset", i=h, n=n, x=VALS[2 + (5 * h + 3 * n) % 10]))
    for n, x in ((0, "2"), (2, "-0.5"), (4, "3")):
        base.append(tok("spush", j=0, n=n, x=x))
    for op in OPS:
        for name in DENSE:
            for i, j, k in itertools.product(range(4), repeat=3):
                out.append(base + [tok(name, op, i, j, k, 0, "0.5")])
        for name in SPARSE:
            for i, j, k in itertools.product(range(4), range(2), range(4)):
                out.append(base + [tok(name, op, i, j, k, 0, "0.5")])
        for x in ("2", "-0.5"):
            out.append(base + [tok("vs", op, 0, 0, 0, 0, x)])
    for i, j in itertools.product(range(4), repeat=2):
        out.append(base + [tok("dot", i=i, j=j), tok("dots", i=i, j=j % 2)])
    for n, m in itertools.product(range(1, 4), range(1, 4)):
        t = [tok("mnew", i=0, n=n, k=m)]
        t += [tok("mset", i=0, n=a, k=b, x=str(1 + 10 * a + b)) for a in range(n) for b in range(m)]
        t += [tok(g, i=0, n=a, k=b, x="2") for a in range(n) for b in range(m) for g in ("mget", "mex")]
        for a, b in itertools.product(range(1, 4), range(1, 4)):
            out.append(t + [tok("mnew", i=1, n=a, k=b), tok("ms", "=", i=1, x="5"), tok("mm", "+", 0, 1), tok("mlin", "*", 0, 1, x="3"), tok("mm", "=", 1, 0), tok("mcopyto", i=0, j=1), tok("ms", "+", 0, x="1"), tok("mcopy", i=1, j=0), tok("ms", "-", 0, x="4")])
    return [" ".join(t) for t in out]


def check(c):
    exe = core.build("math_drv", ["math_drv.cc"], None, "asan")
    cases = grid()
    c.notes["grid"] = len(cases)
    for _ in range(1500 if c.quick else 30000):
        cases.append(Prog(c.rng).run(c.rng.choice([8, 15, 30, 60])))
    ev = formats.drive(c, cases, exe=exe, name="m")
    traces = [{"case": k, "ev": e} for k, e in zip(cases, ev)]
    c.sample({"program": traces[3]["case"], "last": traces[3]["ev"][-2]})
    rej = c.traces("MathTrace", "MathTrace.cfg", traces, chunk=300 if c.quick else 1500)
    if not rej:
        bad = []
        for t in traces:
            ops = [q for q, e in enumerate(t["ev"]) if e["e"] == "op"]
            if not ops or len(bad) >= 18:
                continue
            u = copy.deepcopy(t)
            e = u["ev"][c.rng.choice(ops)]
            k = len(bad) % 6
            if k == 0:
                if not any(len(v) > 1 for v in e["v"]):
                    continue
                v = next(v for v in e["v"] if len(v) > 1)
                v[-1] ^= 0x00400000
            elif k == 1:
                if e["name"] not in ("dots", "dot", "n1", "n2", "mget", "n1s") or e["thr"] or e["ret"] == 0:
                    continue
                e["ret"] ^= 0x00400000
            elif k == 2:
                if e["name"] not in DENSE:
                    continue
                e["thr"] = not e["thr"]
            elif k == 3:
                e["v"][0] = e["v"][0] + [formats.bits(9.5)]
            elif k == 4:
                e["m"][0]["c"] += 1
            else:
                e["s"][1]["i"] = e["s"][1]["i"] + [777]
            bad.append(u)
        c.self_test("MathTrace", "MathTrace.cfg", bad)
    formats.report(c, rej, "program of vector operations")
