"""C08-C13, C26: data formats, array sources, data-set tools, data points."""
import copy
import itertools
import json
import os
import struct
from . import core


def bits(f):
    return struct.unpack("<i", struct.pack("<f", f))[0]


def hexs(s):
    return (s.encode("latin1") if isinstance(s, str) else s).hex()


def drive(c, cases, exe=None, jobs=None, timeout=1200, name="f"):
    """Run the cases (lines) through the format driver; returns their event lists."""
    exe = exe or core.build("fmt_drv", ["fmt_drv.cc", "concat_tool.cc"], "lib", "asannp")
    n = jobs or core.NCPU
    parts = [list(range(k, len(cases), n)) for k in range(n)]
    ev = [None] * len(cases)

    def one(k):
        idx = parts[k]
        if not idx:
            return
        d = "%s/%s%d" % (c.work, name, k)
        os.makedirs(d + "/s", exist_ok=True)
        open(d + "/cases", "w").write("\n".join(cases[i] for i in idx) + "\n")
        rc, out, err = core.run([exe, d + "/cases", d + "/out", d + "/s"], timeout=timeout,
                                env={"ASAN_OPTIONS": "detect_leaks=0:handle_segv=1:allocator_may_return_null=1:hard_rss_limit_mb=3000",
                                     "TSAN_OPTIONS": "halt_on_error=1:report_signal_unsafe=0:suppressions=%s/harness/tsan.supp" % core.VERIF})
        if rc != 0:
            raise core.ToolError("driver failed rc=%d %s" % (rc, err[-500:]))
        for line in open(d + "/out"):
            try:
                r = json.loads(line)
            except ValueError:
                continue
            ev[idx[r["case"]]] = r["ev"]
        os.unlink(d + "/out")
    core.pmap(one, range(n), n)
    for i, e in enumerate(ev):
        if e is None:     # output line damaged by a crash: treat as a crash
            ev[i] = [{"e": "end", "op": "crash"}]
    return ev


def report(c, rej, what):
    for t, pos in rej[:10]:
        e = t["ev"][pos - 1] if pos <= len(t["ev"]) else None
        c.violation("%s: %s rejected at event %d: %s" % (what, t["case"][:300], pos, json.dumps(e)[:300]), t)


# ------------------------------------------------------------------ text formats
def rnd_int(r, hi=10 ** 9):
    return r.choice([str(r.randint(0, 9)), str(r.randint(0, 999)), str(r.randint(0, hi - 1)), "0" + str(r.randint(0, 99))])


def rnd_num(r):
    s = r.choice(["", "", "", "-", "-", "+"])
    i = r.choice(["", "0", str(r.randint(0, 9)), str(r.randint(0, 99999)), str(r.randint(0, 10 ** 12)), "1" + "0" * r.randint(0, 12)])
    f = r.choice(["", "", "." + "".join(r.choice("0123456789") for _ in range(r.randint(1, 9))), ".000" + str(r.randint(0, 999)), ".5"])
    if i == "" and f == "":
        i = "7"
    e = r.choice(["", "", "", "", "e%s%d" % (r.choice(["", "-", "+"]), r.randint(0, 12)), "E%s%02d" % (r.choice(["", "-"]), r.randint(0, 9))])
    return s + i + f + e


def rnd_label(r):
    return r.choice(["", "", "+", "-"]) + rnd_int(r)


def svm_line(r, nf=None):
    nf = r.choice([0, 1, 2, 3, 5, 9]) if nf is None else nf
    top = r.choice([9, 50, 10 ** 4, 10 ** 7, 4294967294])
    idx = sorted(r.randint(0, top) for _ in range(nf)) if r.random() < .5 else [r.randint(0, top) for _ in range(nf)]
    sep = lambda: r.choice([" ", " ", " ", "\t", "  ", " \t"])
    out = rnd_label(r) + "".join(sep() + str(i) + ":" + rnd_num(r) for i in idx)
    return out + r.choice(["", "", "", " ", "\t"])


def csv_line(r, nf=None):
    nf = r.choice([0, 1, 2, 3, 5, 9]) if nf is None else nf
    return rnd_label(r) + "".join("," + r.choice([rnd_num(r), "0", "0.0", "-0", "1"]) for _ in range(nf))


def corrupt_line(r, s):
    k = r.randint(0, 3)
    at = r.randint(0, len(s))
    ch = r.choice("x:,.-+e #\t*0")
    if k == 0:
        return s[:at] + ch + s[at:]
    if k == 1 and s:
        at = r.randrange(len(s))
        return s[:at] + s[at + 1:]
    if k == 2 and s:
        at = r.randrange(len(s))
        return s[:at] + ch + s[at + 1:]
    return s[:at]


def text_case(fmt, lines, passes=1, final=True, hdr="c,f1"):
    """(driver line, trace fields)"""
    body = "\n".join(([hdr] if fmt == "csv" and hdr is not None else []) + lines)
    if final and (lines or (fmt == "csv" and hdr is not None)):
        body += "\n"
    return "read %s %d %s" % (fmt, passes, hexs(body)), {"fmt": fmt, "lines": [list(x) for x in lines], "hdr": fmt == "csv" and hdr is not None}


def fit(r, line, n, sep):
    """Pad a good line to exactly n characters with good features."""
    k = 1000
    while len(line) < n - 12:
        line += sep(k)
        k += 1
    left = n - len(line)
    if left > 0:
        t = sep(k)
        line += t + "0" * max(0, left - len(t)) if len(t) <= left else ""
    return line


def text(c):
    fmt = "svm" if c.prop == "C08" else "csv"
    r = c.rng
    cases = []
    # every short line over a small alphabet, each as the only line of a file
    if fmt == "svm":
        sets = [("", "1 :.-x", 5), ("", "12 :e+", 4), ("1 1:", "1.-+e0", 4), ("1 1:", "15eE-", 5), ("-1 3:0.5 ", "2: .-\t", 4), ("1 2:1 ", "4:9x", 4)]
        if not c.quick:
            sets = [("", "1 :.-+ex", 6), ("1 1:", "015.-+eE", 5), ("1 1:", "15e-.", 7), ("-1 3:0.5 ", "2: .-\tx", 5), ("1 2:1 ", "4:9x", 6)]
        sep = lambda k: " %d:1.5" % k
    else:
        sets = [("", "1,.-x", 5), ("", "12,e+", 4), ("1,", "1.-+e0", 4), ("1,", "15eE-", 5), ("-1,0.5,", "20,.-", 5), ("1,2", " ,4x", 4)]
        if not c.quick:
            sets = [("", "1,.-+ex", 6), ("1,", "015.-+eE", 5), ("1,", "15e-.", 7), ("-1,0.5,", "20,.-", 7), ("1,2", " ,4x", 5)]
        sep = lambda k: ",%d.5" % (k % 10)
    seen = set()
    for pre, alpha, n in sets:
        for k in range(n + 1):
            for t in itertools.product(alpha, repeat=k):
                s = pre + "".join(t)
                if s not in seen and s:
                    seen.add(s)
                    cases.append(text_case(fmt, [s]))
    c.notes["short_lines_exhausted"] = len(cases)
    line = svm_line if fmt == "svm" else csv_line
    for _ in range(600 if c.quick else 12000):
        ls = [line(r) for _ in range(r.choice([0, 1, 1, 2, 3, 6]))]
        if r.random() < .35 and ls:
            i = r.randrange(len(ls))
            ls[i] = corrupt_line(r, ls[i])
            if "\n" in ls[i] or ls[i] == "":
                ls[i] = "1"
        cases.append(text_case(fmt, ls, passes=r.choice([1, 1, 2, 3]), final=r.random() < .6,
                               hdr=r.choice(["c", "class,a,b", "label,f1,f2,f3", "1,2,3", "x" * 5000])))
    # line lengths around the buffer sizes, many passes, no final line break
    lens = [4093, 4094, 4095, 4096, 4097, 8190, 8191, 8192, 8193, 16383, 16384, 20000]
    if not c.quick:
        lens += [32767, 32768, 65535, 65536, 65537] + list(range(4080, 4093)) + list(range(8180, 8190))
    for n in lens:
        a = fit(r, "1", n, sep)
        for final in (True, False):
            cases.append(text_case(fmt, [line(r, 2), a, line(r, 1)], 2, final))
            cases.append(text_case(fmt, [line(r, 1), a], 2, final))
            cases.append(text_case(fmt, [a], 3, final))
    for final in (True, False):
        cases.append(text_case(fmt, ["1" + sep(5)], 30, final))
        cases.append(text_case(fmt, ["1" + sep(5), "2" + sep(6)], 40, final))
    cases.append(text_case(fmt, [], 3))
    cases.append(text_case(fmt, [line(r, 1) for _ in range(300)], 2))
    if fmt == "csv":
        cases.append(text_case(fmt, [], 1, True, None))
        cases.append(text_case(fmt, [], 2, False, "only header"))
    ev = drive(c, [x[0] for x in cases])
    traces = [dict(t, ev=e, case="file of %d line(s), first %r, passes %s" % (len(t["lines"]), "".join(t["lines"][0])[:60] if t["lines"] else "", d.split(" ")[2]))
              for (d, t), e in zip(cases, ev)]
    c.sample({"file": traces[-3]["case"], "events": traces[-3]["ev"][:4]})
    c.sample({"file": traces[50]["case"], "events": traces[50]["ev"]})
    rej = c.traces("TextTrace", "TextTrace.cfg", traces, chunk=2500 if c.quick else 6000)
    if not rej:
        bad = []
        for t in traces:
            recs = [i for i, e in enumerate(t["ev"]) if e["e"] == "rec" and e["st"] == 0 and e["val"]]
            if not recs or len(bad) >= 12 or len(t["lines"]) > 5:
                continue
            if t["lines"] and any(ch in "".join("".join(x) for x in t["lines"]) for ch in "\r"):
                continue
            u = copy.deepcopy(t)
            x = u["ev"][recs[0]]
            k = len(bad) % 4
            if k == 0:
                x["val"][0] ^= 0x00010000
            elif k == 1:
                x["label"] = str(int(x["label"]) + 1)
            elif k == 2:
                x["idx"], x["val"] = x["idx"][:-1], x["val"][:-1]
            else:
                x["idx"][0] = str(int(x["idx"][0]) + 1)
            bad.append((t, u))
        # keep only those whose first line is well formed for the reader (a grey line accepts anything)
        bad = [u for t, u in bad if all(ch in "0123456789+-.eE:, \t" for ch in "".join("".join(x) for x in t["lines"]))][:8]
        c.notes["candidate_corruptions"] = len(bad)
        clean = [text_case(fmt, [x]) for x in (["1 1:2 3:4.5", "-1 7:0.25"] if fmt == "svm" else ["1,2,0,4.5", "-1,0.25"])]
        cev = drive(c, [x[0] for x in clean], name="st")
        mk = []
        for (d, t), e in zip(clean, cev):
            for k in range(5):
                u = copy.deepcopy(e)
                x = [y for y in u if y["e"] == "rec" and y["st"] == 0][0]
                if k == 0:
                    x["val"][0] ^= 0x1000
                elif k == 1:
                    x["label"] = str(int(x["label"]) + 1)
                elif k == 2:
                    x["idx"], x["val"] = x["idx"][:-1], x["val"][:-1]
                elif k == 3:
                    x["idx"][0] = str(int(x["idx"][0]) + 1)
                else:
                    x["st"] = 5
                mk.append(dict(t, ev=u))
        c.self_test("TextTrace", "TextTrace.cfg", mk)
    report(c, rej, "text reader")
    c.assumptions.append("values of at most 30 digits and two-digit exponents; single-precision tolerance; forms the format does not define are unconstrained")


# ------------------------------------------------------------------ binary
IMAX = 4294967295


def rnd_idx(r, n, lo=1, hi=IMAX):
    kind = r.random()
    if kind < .3:
        s, cur = [], r.randint(lo, 5)
        for _ in range(n):
            s.append(cur)
            cur += r.choice([1, 1, 2, 3, 127, 128, 129, 16383, 16384, 16385, 2097151, 2097152, 268435455, 268435456, 268435457])
            if cur > hi:
                break
        return s
    if kind < .5:
        return sorted(set(r.choice([0, 1, 127, 128, 16383, 16384, 2 ** 21 - 1, 2 ** 21, 2 ** 28 - 1, 2 ** 28, 2 ** 28 + 1, 2 ** 31 - 1, 2 ** 31, IMAX - 1, IMAX]) for _ in range(n)))
    return sorted(set(r.randint(lo, r.choice([20, 300, 70000, hi])) for _ in range(n)))


VALS = [0.0, 1.0, -1.0, 0.5, 3.1415927, 1e-38, 1e38, -2.5e-3, 1e-45, 3.4028235e38]


def rnd_val(r):
    return bits(r.choice(VALS)) if r.random() < .5 else bits(r.uniform(-100, 100))


def bin_rec(r):
    n = r.choice([0, 1, 1, 2, 3, 8, 40])
    return "%d:%s" % (r.choice([0, 1, -1, 2 ** 31 - 1, -2 ** 31, r.randint(-1000, 1000)]), ";".join("%d,%d" % (i, rnd_val(r)) for i in rnd_idx(r, n)))


def binary(c):
    r = c.rng
    cases = []
    for _ in range(260 if c.quick else 3000):
        cases.append("bin 1 " + " ".join(bin_rec(r) for _ in range(r.choice([1, 1, 2, 3, 5]))))
    for i in range(6 if c.quick else 40):
        cases.append("bin 997 " + " ".join(bin_rec(r) for _ in range(150)))
    for i in range(4):    # records larger than any internal buffer
        n = r.choice([3000, 9000, 20000])
        cases.append("bin 4099 " + " ".join("1:" + ";".join("%d,%d" % (k * (i + 1) + 1, bits(k * .5)) for k in range(n)) for _ in range(2)))
    for w, hi in ((16, 2 ** 16 - 1), (32, 2 ** 32 - 1), (64, 2 ** 64 - 1)):
        edge = sorted({min(hi, max(0, (1 << (7 * k)) + d)) for k in range(0, 10) for d in (-1, 0, 1)} | {hi, hi - 1, hi >> 1, 0})
        for a in edge:
            cases.append("codec %d %d" % (w, a))
            for b in edge:
                if b >= a:
                    cases.append("codec %d %d %d" % (w, a, b))
        for _ in range(100 if c.quick else 2000):
            v = sorted(r.choice([r.randint(0, hi), r.choice(edge), r.randint(0, min(hi, 5000))]) for _ in range(r.randint(1, 30)))
            cases.append(("codec %d " % w + " ".join(map(str, v))).strip())
    ev = drive(c, cases)
    traces = [{"ev": e, "case": x[:200]} for x, e in zip(cases, ev)]
    c.sample({"case": cases[0][:300], "events": ev[0][:5]})
    rej = c.traces("BinTrace", "BinTrace.cfg", traces, chunk=120)
    c.notes["cuts"] = sum(1 for e in ev for x in e if x["e"] == "cut")
    if not rej:
        mk = []
        for t in traces[:60]:
            recs = [i for i, e in enumerate(t["ev"]) if e["e"] == "rec" and e["st"] == 0 and e["val"]]
            if not recs:
                continue
            u = copy.deepcopy(t)
            x = u["ev"][recs[-1]]
            k = len(mk) % 4
            if k == 0:
                x["val"][-1] ^= 1
            elif k == 1:
                x["idx"][-1] = str(int(x["idx"][-1]) ^ 1)
            elif k == 2:
                x["st"] = 3
            else:                                   # one record too many
                u["ev"].insert(recs[-1] + 1, x)
            mk.append(u)
            if len(mk) == 12:
                break
        c.self_test("BinTrace", "BinTrace.cfg", mk)
    report(c, rej, "binary format")
    c.assumptions.append("records handed to the writer have strictly ascending indexes")


# ------------------------------------------------------------------ arrays
def arrays(c):
    r = c.rng
    cases, meta = [], []
    pool = ["0", "0", "1", "-1", "0.5", "2.25", "-3.75", "1024", "0.0009765625", "16777215"]

    def dense(rows, cols, stride, hasy, passes, via, fill=None, lay=""):
        y = [str(r.choice([-1, 1, 0, 2, 7, -30])) for _ in range(rows)] if hasy else []
        nx = (rows - 1) * stride + cols if rows else 0
        x = [r.choice(pool) if fill is None else fill for _ in range(nx)]
        for i in range(rows):       # padding between rows must not be read
            for j in range(cols, stride):
                if i * stride + j < nx:
                    x[i * stride + j] = "9"
        cases.append("np%s %d %d %d %d %d %s %s" % (lay, rows, cols, stride, int(hasy), passes, via, " ".join(y + x)))
        meta.append({"kind": "dense", "rows": rows, "cols": cols, "stride": stride, "y": y, "x": x, "passes": passes, "via": via, "ptr": [], "col": []})

    def csr(rows, base, hasy, passes, via, maxn=4):
        y = [str(r.choice([-1, 1, 0, 2, 7, -30])) for _ in range(rows)] if hasy else []
        ptr, col, x = [base], [], []
        for _ in range(rows):
            n = r.randint(0, maxn)
            cs = r.sample(range(0, r.choice([12, 300, 100000])), n)
            if r.random() < .5:
                cs.sort()
            col += cs
            x += [r.choice(pool) for _ in cs]
            ptr.append(base + len(col))
        cases.append("csr %d %d %d %d %s %s" % (rows, base, int(hasy), passes, via, " ".join(y + list(map(str, ptr)) + [str(len(col))] + list(map(str, col)) + x)))
        meta.append({"kind": "csr", "rows": rows, "cols": 0, "stride": 0, "y": y, "x": x, "passes": passes, "via": via, "ptr": ptr, "col": col})
    for via in ("reader", "api"):
        for hasy in (True, False):
            for passes in (1, 2, 3):
                for rows in (1, 2, 3, 5):
                    for cols in (1, 2, 4):
                        for pad in (0, 1, 3):
                            dense(rows, cols, cols + pad, hasy, passes, via)
                    for base in (0, 1, 3):
                        csr(rows, base, hasy, passes, via)
            dense(3, 3, 3, hasy, 2, via, "0")
            for rows in (1, 2, 4, 6):           # rows backwards, and more than two gigabytes apart
                for lay in "bf":
                    dense(rows, 3, r.choice([3, 5]), hasy, 2, via, lay=lay)
        for _ in range(60 if c.quick else 1500):
            cols = r.randint(1, 9)
            dense(r.randint(1, 12), cols, cols + r.choice([0, 0, 1, 5]), r.random() < .7, r.randint(1, 4), via)
            csr(r.randint(1, 12), r.choice([0, 0, 2, 7]), r.random() < .7, r.randint(1, 4), via, r.choice([1, 3, 10]))
    # descriptions with a field missing, superfluous or not a number
    blank = {"kind": "dense", "rows": 0, "cols": 0, "stride": 0, "y": [], "x": [], "passes": 1, "via": "reader", "ptr": [], "col": []}
    good_np = "numpy:140000000;140000000;3;4;32"
    descs = []
    for fmt, nf in (("numpy", 5), ("csr_matrix", 5)):
        for n in list(range(0, nf)) + [nf + 1, nf + 3]:
            for sep in ";:,":
                descs.append((fmt, sep.join(["1"] * n)))
        for k in range(nf):
            for junk in ("x", "-", "", "1x1", "99999999999999999999999"):
                f = ["1"] * nf
                f[k] = junk
                descs.append((fmt, ";".join(f)))
        descs += [(fmt, ""), (fmt, ";;;;"), (fmt, "garbage"), (fmt, "/no/such/file")]
    for fmt, d in descs:
        cases.append("desc %s %s" % (fmt, hexs(d)))
        meta.append(dict(blank, desc=d))
    ev = drive(c, cases)
    traces = [dict(m, ev=e, case=x[:200] + (" " + m["desc"] if "desc" in m else "")) for x, m, e in zip(cases, meta, ev)]
    c.sample({"case": cases[5], "events": ev[5][:4]})
    rej = c.traces("ArrayTrace", "ArrayTrace.cfg", traces, chunk=400)
    if not rej:
        mk = []
        for t in traces[:400:7]:
            recs = [i for i, e in enumerate(t["ev"]) if e["e"] == "rec" and e["st"] == 0 and e["val"]]
            if not recs:
                continue
            u = copy.deepcopy(t)
            x = u["ev"][recs[-1]]
            k = len(mk) % 4
            if k == 0:
                x["val"][-1] ^= 0x10000
            elif k == 1:
                x["idx"][-1] = str(int(x["idx"][-1]) + 1)
            elif k == 2:
                x["label"] = str(int(x["label"]) + 1)
            else:
                del u["ev"][recs[-1]]
            mk.append(u)
            if len(mk) == 12:
                break
        c.self_test("ArrayTrace", "ArrayTrace.cfg", mk)
    report(c, rej, "array source")
    c.assumptions += ["array values are exactly representable in single precision, labels are integers",
                      "arrays with at least one row; contiguous columns"]


# ------------------------------------------------------------------ tools
def svm_data(r, n, maxf=5, hi=12, vals=None, minf=0, labels=None):
    rows = []
    for _ in range(n):
        ix = sorted(r.sample(range(1, hi + 1), min(hi, r.randint(minf, maxf))))
        rows.append((r.choice(labels or [1, -1, 0, 3, 7]), [(i, r.choice(vals or ["1", "-1", "0.5", "2.25", "-3.75", "1000", "0.001", "123456", "0.333333", "-7e-05", "2e+06"])) for i in ix]))
    return rows


def svm_text(rows):
    return "".join("%d%s\n" % (y, "".join(" %d:%s" % p for p in f)) for y, f in rows)


def rec_json(rows):
    return [{"label": str(y), "idx": [str(i) for i, _ in f], "val": [bits(float(v)) for _, v in f]} for y, f in rows]


def full_cases(r, tools):
    """Destinations that cannot be opened (no such directory) or cannot take the data (no space)."""
    out = []
    for t in tools:
        for df in ["svm", "csv", "bin"] if t != "analyze" else ["svm"]:
            for n in (3, 5, 2000):
                d = hexs(svm_text(svm_data(r, n, minf=1)))
                out += ["full %s %s full %s" % (t, df, d), "full %s %s nodir %s" % (t, df, d)]
    return out


def convert(c):
    r = c.rng
    cases, meta = [], []
    fm = ["svm", "csv", "bin"]

    def add(rows, chain, bin_=False, thr=0.0):
        cases.append("conv svm %s %d %d %s" % (hexs(svm_text(rows)) or "-", int(bin_), bits(thr), " ".join(chain)))
        meta.append({"src": rec_json(rows), "bin": bin_, "thr": bits(thr)})
    chains = [[a] for a in fm] + [[a, b] for a in fm for b in fm] + [[a, b, d] for a in fm for b in fm for d in fm]
    for ch in chains:
        for k in range(6 if c.quick else 60):
            add(svm_data(r, r.choice([1, 2, 3, 7]), minf=1, hi=r.choice([3, 12, 40])), ch)
        # records without features among others, zeros
        rows = svm_data(r, 3, minf=0, hi=6, vals=["0", "1", "-2.5", "0"]) + [(1, [(2, "1")])]
        add(rows, ch)
        add([(1, [(1, "1")])] + [(-1, [])] + [(2, [(4, "0.25")])], ch)
    for ch in [[a] for a in fm] + [[a, b] for a in fm for b in fm if "csv" not in (a,)]:
        for thr in (0.0, 0.5, -1.0, 2.25):
            for k in range(3 if c.quick else 30):
                # binarisation applies at every step of the chain; keep chains of stored features
                add(svm_data(r, 4, minf=1, hi=8, vals=["1", "-1", "0.5", "0.25", "2.25", "3"]), ch, True, thr)
    big = 4294967294
    for ch in (["svm"], ["bin"], ["bin", "svm"], ["svm", "bin"]):
        add([(1, [(2147483647, "1"), (2147483648, "2"), (3000000000, "-1"), (big, "0.5")]), (-1, [(5, "1")])], ch)
        add([(y, [(1, "1")]) for y in (2147483647, -2147483647, 0)], ch)
        add(svm_data(r, 400, hi=60), ch)
    add(svm_data(r, 300, hi=60, minf=1), ["csv", "svm"])
    # many records, the largest index in a record anywhere: alone in a late batch, first or last of one
    for n in (255, 256, 257, 300, 513, 600) if c.quick else (255, 256, 257, 300, 511, 512, 513, 600, 1025, 1100, 2049, 4097):
        for at in sorted({0, 255, 256, 257, 511, 512, n - 1}):
            if at < n:
                rows = [(1 + k % 3, [(1 + k % 2, "0.5")]) for k in range(n)]
                rows[at] = (-1, [(2, "1"), (5, "2.25")])
                add(rows, r.choice([["csv"], ["csv", "bin"], ["bin", "csv"]]))
        rows = [(k % 5, [(1 + k // 60, "1.5")]) for k in range(n)]
        for ch in (["csv", "svm"], ["bin"], ["svm"]):
            add(rows, ch)
    refuse = []
    for a in fm:
        for b in fm:
            refuse.append("convmissing %s %s" % (a, b))
    for a, b in (("svm", "nope"), ("nope", "svm"), ("nope", "nope"), ("csv", "nope"), ("bin", "xyz")):
        refuse.append("convfmt %s %s" % (a, b))
    refuse += full_cases(r, ("convert",))
    for x in refuse:
        cases.append(x)
        meta.append({"src": [], "bin": False, "thr": 0})
    ev = drive(c, cases)
    traces = [dict(m, ev=e, case=x[:300]) for x, m, e in zip(cases, meta, ev)]
    c.sample({"case": cases[3][:200], "events": ev[3][:3]})
    rej = c.traces("ToolTrace", "ToolTrace.cfg", traces, chunk=150)
    if not rej:
        mk = []
        for t in traces[:300:5]:
            o = [e for e in t["ev"] if e["e"] == "out" and e["recs"] and e["recs"][-1]["val"]]
            if not o:
                continue
            u = copy.deepcopy(t)
            x = [e for e in u["ev"] if e["e"] == "out" and e["recs"] and e["recs"][-1]["val"]][0]["recs"]
            k = len(mk) % 4
            if k == 0:
                x[-1]["val"][-1] ^= 0x10000
            elif k == 1:
                x[-1]["idx"][-1] = str(int(x[-1]["idx"][-1]) + 1)
            elif k == 2:
                x[0]["label"] = str(int(x[0]["label"]) + 1)
            else:
                del x[0]
            mk.append(u)
            if len(mk) == 12:
                break
        c.self_test("ToolTrace", "ToolTrace.cfg", mk)
    report(c, rej, "conversion")
    c.assumptions.append("source features have distinct positive indexes; a CSV target gets data with at least one feature")


def tools(c):
    r = c.rng
    cases = []
    fm = ["svm", "csv", "bin"]
    vals = ["1", "-1", "0.5", "2.25", "-3.75", "1000", "0.125"]

    def data(n, **k):
        return hexs(svm_text(svm_data(r, n, vals=vals, minf=1, **k)))
    reps = 2 if c.quick else 20
    for sf in fm:
        for df in ["-"] + fm:
            for _ in range(reps):
                for n in (1, 2, 5, 17):
                    cases.append("shuffle %s %s 0 0 %s" % (sf, df, data(n)))
                for n, k in ((1, 1), (1, 3), (2, 2), (4, 3), (5, 2), (5, 5), (5, 9), (10, 4), (10, 6), (7, 3), (12, 5)):
                    for sh in (0, 1):
                        cases.append("split %s %s %d %d %s" % (sf, df, k, sh, data(n)))
        for df in fm:
            for _ in range(reps):
                for sizes in ((3,), (2, 1), (1, 4, 2), (5, 5)):
                    cases.append("concat %s %s 0 0 %s" % (sf, df, " ".join(data(n) for n in sizes)))
        for _ in range(reps * 6):
            cases.append("analyze %s - 0 0 %s" % (sf, data(r.choice([1, 2, 6, 20]), hi=r.choice([3, 20, 60]), labels=r.choice([[1], [1, -1], [0, 1, 2, 3], [-5, 5, 100]]))))
    for _ in range(reps * 3):
        cases.append("split svm bin %d %d %s" % (r.randint(1, 40), r.randint(0, 1), data(r.randint(1, 60))))
    # analysis of records without features, of sparse huge indexes
    cases.append("analyze svm - 0 0 " + hexs("1\n-1\n1\n"))
    cases.append("analyze svm - 0 0 " + hexs("1\n-1 5:1\n"))
    cases.append("analyze svm - 0 0 " + hexs("1 4000000:1 7:2\n-1 5:1\n"))
    cases.append("analyze bin - 0 0 " + hexs("1 70000:1 7:2\n-1 5:1\n3\n"))
    cases.append("analyze svm - 0 0 " + hexs("7 1:0 2:0\n"))
    for _ in range(4):
        cases.append("shuffle svm bin 0 0 " + data(300))
    # many records: labels and indexes that first appear late
    for n in (300, 1100, 2300) if c.quick else (300, 700, 1100, 2300, 5000, 11000):
        for at in (0, n // 2, n - 1):
            rows = [(1 + k % 2, [(1 + k % 3, "0.5")]) for k in range(n)]
            for y in (0, -1, 77):
                t = list(rows)
                t[at] = (y, [(2, "1"), (9, "2.25")])
                cases.append("analyze %s - 0 0 %s" % (r.choice(fm), hexs(svm_text(t))))
        rows = [(k // 100, [(1 + k // 200, "1.5")]) for k in range(n)]
        d = hexs(svm_text(rows))
        for sf in fm:
            cases.append("analyze %s - 0 0 %s" % (sf, d))
        if n <= 2300:
            cases.append("split svm csv %d 0 %s" % (r.choice([3, 7]), d))
            cases.append("split svm bin %d 1 %s" % (r.choice([3, 7]), d))
            cases.append("shuffle svm csv 0 0 " + d)
            cases.append("concat svm csv 0 0 %s %s" % (d, data(270)))
            cases.append("concat svm bin 0 0 %s %s" % (data(260), d))
    cases += full_cases(r, ("shuffle", "split", "concat", "analyze"))
    ev = drive(c, cases)
    blank = {"src": [], "bin": False, "thr": 0}
    traces = [dict(blank, ev=e, case=x[:300]) for x, e in zip(cases, ev)]
    c.sample({"case": cases[4][:200], "events": ev[4][:3]})
    rej = c.traces("ToolTrace", "ToolTrace.cfg", traces, chunk=100)
    if not rej:
        mk = []
        for t in traces[::3]:
            o = [i for i, e in enumerate(t["ev"]) if e["e"] == "out" and e["name"] == "out" and e["recs"]]
            rp = [e for e in t["ev"] if e["e"] == "report"]
            u = copy.deepcopy(t)
            if rp:
                x = [e for e in u["ev"] if e["e"] == "report"][0]
                f = ["n", "f", "dim", "nz", "cls"][len(mk) % 5]
                x[f] = str(int(x[f]) + 1)
            elif o:
                x = u["ev"][o[0]]["recs"]
                k = len(mk) % 3
                if k == 0:
                    del x[0]
                elif k == 1:
                    x[0]["label"] = "55"
                else:
                    x.append(x[0])
            else:
                continue
            mk.append(u)
            if len(mk) == 40:
                break
        c.self_test("ToolTrace", "ToolTrace.cfg", mk)
    report(c, rej, "tool")
    c.assumptions.append("non-empty data sets; values that the text formats print exactly; shuffling judged as a permutation, not for randomness")


# ------------------------------------------------------------------ data points
def points(c):
    r = c.rng
    cases = []
    # every order of up to five features over indexes with repetitions
    for n in range(0, 6 if c.quick else 7):
        for t in itertools.product(range(1, 4 if n > 4 else 5), repeat=n):
            cases.append("dp " + " ".join(["add,0,%d,%d" % (i, bits(k + 1.0)) for k, i in enumerate(t)] + ["sort,0", "clone,0,1", "label,0,3"]))
    for _ in range(400 if c.quick else 8000):
        ops = []
        sz = [0, 0, 0]
        for _ in range(r.randint(1, 25)):
            p = r.randint(0, 2)
            k = r.random()
            if k < .45:
                ops.append("add,%d,%d,%d" % (p, r.choice([r.randint(0, 9), r.randint(0, 1000), 2 ** 31, 4294967294]), rnd_val(r)))
                sz[p] += 1
            elif k < .55:
                ops.append("sort,%d" % p)
            elif k < .67:
                q = r.choice([x for x in range(3) if x != p])
                ops.append("clone,%d,%d" % (p, q))
                sz[q] = sz[p]
            elif k < .75:
                q = r.choice([x for x in range(3) if x != p])
                ops.append("newclone,%d,%d" % (p, q))
                sz[q] = sz[p]
            elif k < .8:
                ops.append("clear,%d" % p)
                sz[p] = 0
            elif k < .88:
                n = r.randint(0, sz[p])
                ops.append("resize,%d,%d" % (p, n))
                sz[p] = n
            elif k < .95 and sz[p]:
                ops.append("set,%d,%d,%d" % (p, r.randrange(sz[p]), rnd_val(r)))
            else:
                ops.append("label,%d,%d" % (p, r.randint(-5, 5)))
        cases.append("dp " + " ".join(ops))
    for n in (8, 20, 60, 150):
        for kind in range(6):
            ix = list(range(1, n + 1))
            if kind == 0:
                ix.reverse()
            elif kind == 1:
                r.shuffle(ix)
            elif kind == 2:
                ix = [r.randint(1, 5) for _ in ix]
            elif kind == 3:
                ix = ix[1:] + ix[:1]
            elif kind == 4:
                ix = [x ^ 1 for x in ix]
            else:
                ix = [7] * n
            cases.append("dpbig " + " ".join("%d,%d" % (i, bits(float(k))) for k, i in enumerate(ix)))
    ev = drive(c, cases)
    for e in ev:
        for x in e:
            if x["e"] == "op":
                x["n"] = int(x["a"]) if x["op"] in ("clone", "newclone", "resize", "set") else 0
    traces = [{"ev": e, "case": x[:300]} for x, e in zip(cases, ev)]
    c.sample({"case": cases[-30], "events": ev[-30][:3]})
    rej = c.traces("PointTrace", "PointTrace.cfg", traces, chunk=400)
    if not rej:
        mk = []
        for t in traces[20:600:11]:
            u = copy.deepcopy(t)
            s = [e for e in u["ev"] if e["e"] == "state" and any(p["idx"] for p in e["pts"])]
            if not s:
                continue
            p = [q for q in s[-1]["pts"] if q["idx"]][0]
            k = len(mk) % 4
            if k == 0:
                p["val"][0] ^= 1
            elif k == 1:
                p["idx"][-1] = str(int(p["idx"][-1]) + 1)
            elif k == 2:
                p["sorted"] = not p["sorted"]
            else:
                p["label"] = str(int(p["label"]) + 1)
            mk.append(u)
            if len(mk) == 16:
                break
        c.self_test("PointTrace", "PointTrace.cfg", mk)
    report(c, rej, "data point")
    c.assumptions.append("resizing only shrinks (contents of grown entries are unspecified); the largest representable index has no dimension")
