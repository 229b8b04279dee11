"""C14-C25: learners, losses, training, prediction, saving."""
import copy
import json
import os
import struct
from . import core
from .formats import bits, drive, hexs, report

BIN_LOSS = ["bool", "hinge", "logistic", "square"]
MUL_LOSS = ["maxscore-bool", "maxscore-hinge", "maxscore-logistic", "uniform-bool", "uniform-hinge", "uniform-logistic"]
FIRST = ["perceptron", "ogd", "pa", "pa1", "pa2", "alma2", "rda"]
SECOND = ["sop", "cw", "eccw", "arow", "ada-fobos", "ada-rda"]
L1 = ["stg", "fobos-l1", "rda-l1", "erda-l1", "ada-fobos-l1", "ada-rda-l1"]
SEL = ["pet", "fofs", "sofs", "adafobos-ofs", "adarda-ofs"]
ALL = FIRST + SECOND + L1 + SEL
BASE_OF = {"stg": "ogd", "fobos-l1": "ogd", "rda-l1": "rda", "erda-l1": None, "ada-fobos-l1": "ada-fobos", "ada-rda-l1": "ada-rda"}


def exe():
    return core.build("model_drv", ["model_drv.cc"], "lib", "asan")


def losses(alg, cls):
    if alg in ("perceptron", "sop"):
        return ["bool"] if cls == 2 else ["maxscore-bool", "uniform-bool"]
    if alg in ("alma2", "cw", "eccw", "arow", "sofs"):
        return ["hinge"] if cls == 2 else ["maxscore-hinge", "uniform-hinge"]
    return ["bool", "hinge", "logistic"] if cls == 2 else MUL_LOSS


def params(r, alg):
    """Parameter settings of an algorithm, as set commands."""
    s = []

    # values that are not among the usual ones, in the range the parameter allows
    wide = {"power_t": (0, 2.5), "eta": (.05, 3), "C": (.05, 4), "alpha": (.1, 1), "sigma": (.2, 3), "rou": (0, .2), "a": (.2, 3),
            "phi": (.1, 1.5), "r": (.05, 3), "delta": (.2, 4), "lambda": (0, .4), "bias_eta": (0, 2)}

    def o(name, vals, prob=.5):
        if r.random() < prob:
            v = r.choice(vals)
            if name in wide and not (name == "lambda" and alg == "fofs") and r.random() < .3:
                v = r.choice(["%.3g", "%.6g"]) % r.uniform(*wide[name])
            s.append("set %s %s" % (name, v))
    o("bias_eta", ["0.5", "1", "0.25", "2"], .6)
    if alg in ("ogd", "stg", "fobos-l1", "pet"):
        o("eta", ["0.5", "0.1", "2"])
        o("power_t", ["0", "0.5", "1", "0.25", "2", "1.5"])
    if alg == "stg":
        o("k", ["2", "3", "5"], .6)
    if alg in ("pa1", "pa2"):
        o("C", ["0.5", "0.1", "4"])
    if alg == "alma2":
        o("alpha", ["0.5", "0.3", "1"])
        o("C", ["1", "0.5"])
        o("p", ["2", "3", "5"])
        o("k", ["4"], .2)
    if alg in ("rda", "rda-l1", "erda-l1"):
        o("sigma", ["0.5", "2"])
    if alg == "erda-l1":
        o("rou", ["0.1", "0.02"])
    if alg in ("sop", "cw", "eccw"):
        o("a", ["0.5", "2"])
    if alg in ("cw", "eccw"):
        o("phi", ["0.8", "0.3"])
    if alg in ("arow", "sofs"):
        o("r", ["0.5", "2", "0.1"])
    if alg in ("ada-fobos", "ada-fobos-l1", "adafobos-ofs", "ada-rda", "ada-rda-l1", "adarda-ofs"):
        o("delta", ["1", "0.5"])
        o("eta", ["0.5", "2"])
    if alg == "fofs":
        o("eta", ["0.5", "0.2"])
        o("lambda", ["0.1", "0.5", "2"], .7)
    if alg in L1:
        o("lambda", ["0.05", "0.1", "0.02", "0.3", "0"], .95)
        o("sparse_thresh", ["0.001", "0.1"], .15)
    o("t", ["3", "10"], .15)
    return s


def rec(r, cls, dim, vals=None, empty=.03):
    n = 0 if r.random() < empty else r.choice([1, 1, 2, 2, 3, dim])
    ix = sorted(r.sample(range(1, dim + 1), min(dim, n)))
    y = r.choice([1, -1]) if cls == 2 else r.randrange(cls)
    return "%d%s" % (y, "".join(" %d:%s" % (i, r.choice(vals) if vals else "%.3g" % (r.choice([-1, 1]) * r.uniform(.05, 2))) for i in ix))


VALUESETS = [None, ["1"], ["1", "-1"], ["0.5", "1", "2", "-1", "0"], ["0.1", "0.3", "-0.2"]]


def script(r, alg, cls, n, opts=(), reload=.0, final=.06, loss=None, B=None, mid=.0):
    dim = r.choice([2, 3, 4, 6, 8])
    if r.random() < .08:             # many features
        dim = r.choice([20, 33, 70, 150])
        n = min(n, 8)
    change = r.random() < .12        # other settings amid the training
    s = ["new %s %d" % (alg, cls)]
    ls = loss or r.choice(losses(alg, cls) + [None])
    if ls:
        s.append("set loss %s" % ls)
    p = params(r, alg)
    s += p
    if alg in SEL:
        b = B if B is not None else r.choice([1, 2, 3, 4, dim] if dim < 20 else [1, 5, 17, dim // 2, dim])
        if b:
            s.append("set B %d" % b)
    s += list(opts)
    vals = r.choice(VALUESETS)
    grow = r.random() < .5
    for i in range(n):
        d = max(1, min(dim, 1 + i * dim // n + r.randint(0, 1))) if grow else dim
        if change and r.random() < .2:
            # (delta restarts the confidences: not amid a selection by them)
            s += [x for x in params(r, alg) if not x.startswith(("set t ", "set delta ") if alg in SEL else "set t ")][:2]
            if r.random() < .3 and not any("cost_margin" in x for x in opts):
                s.append("set loss " + r.choice(losses(alg, cls)))
        s.append("learn " + rec(r, cls, d, vals))
        if r.random() < .03:
            s.append("begin")        # a source without records
        if r.random() < final:
            s.append("final")
            if r.random() < .3:
                s.append("begin|final")
            if r.random() < .5:
                s.append("pred " + rec(r, cls, dim + 2, vals))
        if r.random() < reload:
            s.append(r.choice(["reload", "reload", "reload|reload", "save s", "final|reload"]))
            if r.random() < .5:
                s.append("pred " + rec(r, cls, dim + 2, vals))
        if alg in SEL and r.random() < mid:
            s.append("set B %d" % r.choice([1, 2, 3]))
    s.append("final")
    s.append("pred " + rec(r, cls, dim + 1, vals))
    return "|".join(s)


def as_traces(cases, ev, rel="3e-5", ab="2e-6", **extra):
    return [dict({"ev": e, "case": x[:400], "rel": rel, "abs": ab}, **extra) for x, e in zip(cases, ev)]


def slim(ev):
    """Parameter reports are only compared where a model is reloaded."""
    out = []
    for e in ev:
        if e["e"] in ("new", "set", "load") and "par" in e:
            e = {k: v for k, v in e.items() if k != "par"}
        out.append(e)
    return out


def corrupt(r, traces, n=12):
    """Changed recordings that the specification must reject."""
    bad = []
    for t in traces:
        ls = [i for i, e in enumerate(t["ev"]) if e["e"] == "learn" and len(e["w"][0]) > 1]
        if len(ls) < 3 or t["ev"][-1].get("op") != "ok" or "active_smoothness" in t["case"]:
            continue
        u = copy.deepcopy(t)
        i = ls[len(ls) // 2]
        e = u["ev"][i]
        k = len(bad) % 4
        if k == 0:
            e["w"][0][1] = bits(struct.unpack("<f", struct.pack("<i", e["w"][0][1]))[0] + .25)
        elif k == 1:
            e["upd"] += 1
        elif k == 2:
            e["it"] += 1
        else:
            e["p"][0] = bits(struct.unpack("<f", struct.pack("<i", e["p"][0]))[0] + .25)
        bad.append(u)
        if len(bad) == n:
            break
    return bad


def learner_traces(c, cases, what, **k):
    ev = drive(c, cases, exe=exe())
    traces = as_traces(cases, [slim(e) for e in ev], **k)
    c.sample({"script": cases[0][:400], "events": [{a: b for a, b in e.items()} for e in ev[0][:6]]})
    rej = c.traces("LearnerTrace", "LearnerTrace.cfg", traces, chunk=60)
    c.notes["records_learned"] = c.notes.get("records_learned", 0) + sum(1 for e in ev for x in e if x["e"] == "learn")
    if not rej:
        c.self_test("LearnerTrace", "LearnerTrace.cfg", corrupt(c.rng, traces))
    report(c, rej, what)
    return traces


MC_INV = "Twin Honest Absent Confident Passive Bounded Sure Ball Budget SignKept"


def mc_configs(algs, quick):
    """Settings for the exhaustive learner model."""
    bias = [["bias_eta", "0.5"]]
    l1 = [["lambda", "0.1"], ["sparse_thresh", "0"]]
    out = []
    for K in (1, 3):
        for a in algs:
            if a in SEL:
                sets = [[["B", "1"]] + ([["lambda", "0.2"], ["eta", "0.5"]] if a == "fofs" else [])]
            elif a in ("fobos-l1", "stg"):
                sets = [l1 + bias + [["power_t", "0"]]]
            elif a == "erda-l1":
                sets = [l1 + bias + [["rou", "0.1"]]]
            elif a in L1:
                sets = [l1 + bias]
            elif a == "cw":
                sets = [[]]
            elif a in ("pa", "eccw"):
                sets = [bias, []]
            elif a == "pa1":
                sets = [bias, [["C", "0.25"]]]
            else:
                sets = [bias]
            for s in sets:
                n = (3 if K == 1 else 2) + (0 if quick else 1)
                out.append({"alg": a, "K": K, "set": s, "len": n, "features": 2, "vals": ["1", "-1"] if K == 1 else ["1", "-2"], "forget": False})
    return out


def mc_learner(c, algs):
    todo = [(g, MC_INV, "ok") for g in mc_configs(algs, c.quick)]
    todo.append((dict(mc_configs(algs, True)[0], len=1), "NeverLearns", "violated"))
    if c.prop == "C17":
        todo += [(dict(g, forget=True), "Twin Honest", "violated") for g in mc_configs(["fobos-l1", "rda-l1", "ada-rda-l1"], True) if g["K"] == 1]

    def one(x):
        k, (g, inv, want) = x
        f = "%s/mc%d.json" % (c.work, k)
        json.dump(g, open(f, "w"))
        c.model("MCLearner", "SPECIFICATION Spec\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\n" % inv, want,
                "%s, %d scores, %s, sequences of %d" % (g["alg"], g["K"], g["set"], g["len"]) + ("" if want == "ok" else " (negative control: %s)" % inv),
                env={"MC": f}, workers=1 if c.quick else 2, timeout=600 if c.quick else 3000)
    core.pmap(one, list(enumerate(todo)), core.NCPU if c.quick else 4)
    if c.prop == "C18":
        for n, k, m in ((4, 1, 3), (4, 2, 3), (5, 3, 2)) if c.quick else ((4, 1, 4), (4, 2, 4), (4, 3, 4), (5, 3, 3), (5, 4, 3), (6, 3, 2)):
            top_b(c, n, k, m, True)
        top_b(c, 4, 3, 3, False)


def top_b(c, n, k, m, sift):
    c.model("TopB", "SPECIFICATION Spec\nCONSTANTS N=%d\nK=%d\nMax=%d\nSift=%s\nINVARIANTS Distinct BestKept %s\nCHECK_DEADLOCK FALSE\n"
            % (n, k, m, "TRUE" if sift else "FALSE", "HeapOK" if sift else ""), "ok" if sift else "violated",
            "best %d of %d, values to %d%s" % (k, n, m, "" if sift else " (negative control: no sifting)"), workers=4)


def mc_loss(c):
    def one(n):
        K = 1 if n in BIN_LOSS else 3
        f = "%s/mc-%s.json" % (c.work, n)
        one_v = ["-3", "-1", "-0.25", "0", "0.5", "1", "2", "40"]
        many = ["-2", "0", "0.5", "3"]
        json.dump({"name": n, "K": K, "vals": one_v if K == 1 else many if c.quick else many + ["20"], "margins": ["0", "1", "2.5"]}, open(f, "w"))
        c.model("MCLoss", "SPECIFICATION Spec\nINVARIANTS ZeroSum Supports NotNegative WrongCosts ZeroMeansRight FlatIsCount Direction\nCHECK_DEADLOCK FALSE\n",
                "ok", n, env={"MC": f}, workers=2)
    core.pmap(one, BIN_LOSS + MUL_LOSS, 4)


def rules(c):
    algs = {"C15": FIRST, "C16": SECOND, "C17": L1, "C18": SEL}[c.prop]
    mc_learner(c, algs)
    r = c.rng
    cases = []
    n = 30 if c.quick else 150
    for alg in algs:
        for cls in (2, 3, 4, 9):
            for ls in losses(alg, cls):
                for _ in range(2 if cls == 9 else n // (1 if cls == 2 else 2) + 2):
                    cases.append(script(r, alg, cls, r.choice([6, 12, 25]), loss=ls,
                                        opts=["set lazy_update true"] if r.random() < .15 else (),
                                        mid=.05 if r.random() < .2 else 0))
    learner_traces(c, cases, "learner")


def saving(c):
    r = c.rng
    cases = []
    for alg in ALL:
        for cls in (2, 3, 11):
            for ls in losses(alg, cls)[:6 if cls < 5 else 1]:
                for _ in range(2 if cls == 11 else 10 if c.quick else 60):
                    cases.append(script(r, alg, cls, r.choice([6, 12, 20]), loss=ls, reload=r.choice([.05, .15, .4]),
                                        opts=[o for o in ("set lazy_update true",) if r.random() < .1]))
    learner_traces(c, cases, "saved model", rel="2e-4", ab="2e-5")


def options(c):
    r = c.rng
    cases = []
    hinge = [a for a in ALL if a not in ("perceptron", "sop", "cw", "eccw")]
    n = 9 if c.quick else 50
    for alg in ALL:
        for cls in (2, 3):
            for _ in range(n):
                cases.append(script(r, alg, cls, 15, opts=["set lazy_update true"]))
            for sm in ("1e9", "1e-9", "0.5", "2", "0.05"):
                for _ in range(max(1, n // 3)):
                    cases.append(script(r, alg, cls, 25, opts=["set active_smoothness " + sm] + (["set lazy_update true"] if r.random() < .2 else [])))
        if alg in hinge:
            for m in ("2", "0.5", "5", "1", "0.1"):
                for _ in range(max(2, n // 2)):
                    cases.append(script(r, alg, 2, 15, loss="hinge", opts=["set cost_margin " + m] + (["set lazy_update true"] if r.random() < .2 else [])
                                        + (["set active_smoothness 1"] if r.random() < .2 else [])))
    # cost-sensitive learning with another loss is refused, whenever either was set
    for alg in hinge:
        for ls in [x for x in losses(alg, 2) if x != "hinge"] * 2:
            s = script(r, alg, 2, 6, loss="hinge", opts=["set cost_margin 2"]).split("|")
            k = r.randrange(s.index("set cost_margin 2") + 1, len(s))
            cases.append("|".join(s[:k] + ["set loss " + ls, "try 1 1:1", "try -1 2:0.5", "set loss hinge"] + s[k:]))
    # a fixed model (step size 0): the fraction of records trained on
    for cls, y in ((2, 1), (3, 0), (2, -1), (4, 3)):
        for sm in ("1", "0.3", "4"):
            s = ["new ogd %d" % cls, "learn %d 1:1" % y, "learn %d 1:0.5 2:1" % (y if cls > 2 else -y), "set eta 0", "set active_smoothness " + sm]
            s += ["learn %s 1:%s" % (y, v) for v in ["1", "-0.5", "0.25"] * (60 if c.quick else 400)]
            cases.append("|".join(s))
    learner_traces(c, cases, "update options")


# ------------------------------------------------------------------ feeding and counting
def feed_script(r, alg, cls, n, variants, c22=False):
    """The records one by one, then the same records in other ways."""
    dim = r.choice([2, 4, 8]) if r.random() < .92 else r.choice([25, 60, 130])
    vals = r.choice(VALUESETS)
    head = ["new %s %d" % (alg, cls)]
    ls = r.choice(losses(alg, cls) + [None])
    if ls:
        head.append("set loss %s" % ls)
    ps = params(r, alg)
    head += ps
    if alg in SEL and r.random() < .8:
        head.append("set B %d" % r.choice([1, 2, 3]))
    if r.random() < .15:
        head.append("set lazy_update true")
    if r.random() < .3 and alg != "alma2":
        head.append("set norm " + r.choice(["L1", "L2", "None"]))
    if r.random() < .2:
        head += ["write f " + hexs("".join("%d\n" % i for i in r.sample(range(1, dim + 2), r.randint(1, dim)))), "set filter FILE:f"]
    t0 = 0
    for p in ps:
        if p.startswith("set t "):
            t0 = int(p.split()[2])
    # a sequence that is a repetition, so that passes can be used
    reps = r.choice([1, 1, 2, 3])
    grow = r.random() < .5
    unit = [rec(r, cls, max(1, min(dim, 1 + i * dim // n)) if grow else dim, vals) for i in range(max(1, n // reps))]
    if cls == 2:         # any label other than 1 is negative
        neg = r.choice(["-1", "-1", "0", "2"])
        unit = [neg + x[2:] if x.startswith("-1") else x for x in unit]
    seq = unit * reps
    s = head + ["feed " + x for x in seq] + ["final"]

    def chunks():
        out, i = [], 0
        while i < len(seq):
            k = r.randint(1, max(1, len(seq) - i))
            out.append(seq[i:i + k])
            i += k
        return out
    for kind in variants:
        bs = r.choice([1, 2, 3, 5, 8, 16, 64, 256])
        buf = r.choice([1, 2, 3, 8])
        v = list(head)
        if kind == "show":
            v.append(r.choice(["set step_show %d" % r.choice([1, 2, 3, 5, 7, 100]), "set exp_show %d" % r.choice([2, 3, 4, 10])]))
            kind = r.choice(["batch", "passes", "sources", "calls"])
        if kind == "batch":
            v.append("train %d %d 1@%s" % (bs, buf, ";".join(seq)))
        elif kind == "passes":
            v.append("train %d %d %d@%s" % (bs, buf, reps, ";".join(unit)))
        elif kind == "sources":
            v.append("train %d %d 1@%s" % (bs, buf, "@1@".join(";".join(x) for x in chunks())))
        elif kind == "calls":
            for x in chunks():
                if c22 and len(v) > len(head) + 1 and r.random() < .4:      # a new display schedule amid the training
                    v.append(r.choice(["set step_show %d" % r.choice([1, 2, 3, 5, 7]), "set exp_show %d" % r.choice([2, 3])]))
                v.append("train %d %d 1@%s" % (r.choice([1, 2, 64]), r.choice([1, 2]), ";".join(x)))
        elif kind == "mixed":
            i = 0
            for x in chunks():
                if r.random() < .5:
                    v += ["feed " + y for y in x]
                else:
                    v.append("train %d %d 1@%s" % (bs, buf, ";".join(x)))
        elif kind == "dim":
            v.append("set dim %d" % r.choice([dim + 1, dim + 5, 3, 40]))
            v.append("train %d %d 1@%s" % (bs, buf, ";".join(seq)))
        v.append("final")
        s += v
    return "|".join(s), t0


def feeding(c):
    r = c.rng
    kinds = ["batch", "passes", "sources", "calls", "mixed", "dim"] if c.prop == "C14" else ["show", "show", "show", "calls"]
    cases = []
    for alg in ALL:
        for cls in (2, 3):
            for _ in range((10 if c.prop == "C14" else 6) if c.quick else 60):
                cases.append(feed_script(r, alg, cls, r.choice([3, 8, 20, 40]), kinds, c.prop == "C22"))
    # long runs: several batches of the default size
    for alg in (r.sample(ALL, 6) if c.quick else ALL):
        cases.append(feed_script(r, alg, r.choice([2, 3]), 300, kinds[:3]))
    ev = drive(c, [x for x, _ in cases], exe=exe())
    traces = [{"ev": slim(e), "case": x[:400], "t0": t0} for (x, t0), e in zip(cases, ev)]
    if c.prop == "C22":
        for t in traces:        # final weights are C14's matter
            for e in t["ev"]:
                e.pop("w", None)
                if e["e"] == "final":
                    e["w"] = [[0]]
    c.sample({"script": cases[0][0][:500], "events": [e for e in traces[0]["ev"] if e["e"] in ("train", "final")][:4]})
    rej = c.traces("TrainTrace", "TrainTrace.cfg", traces, chunk=30)
    if not rej:
        bad = []
        for t in traces:
            i = [k for k, e in enumerate(t["ev"]) if e["e"] == "train" and len(e["src"]) > 2]
            if not i or t["ev"][-1].get("op") != "ok":
                continue
            u = copy.deepcopy(t)
            e = u["ev"][i[-1]]
            k = len(bad) % 5
            if k == 0:
                e["upd"] += 1
            elif k == 1:
                e["cb"].insert(0, e["cb"][0])
            elif k == 2:
                e["cb"][-1][2] += 1
            elif k == 3:
                e["er"][0] += 1 << 12
            elif c.prop == "C14":
                u["ev"][-2]["w"][0][-1] ^= 1 << 20
            else:
                e["it"] -= 1
            bad.append(u)
            if len(bad) == 10:
                break
        c.self_test("TrainTrace", "TrainTrace.cfg", bad)
    report(c, rej, "training")
    if c.prop == "C22":      # the update count itself, record by record
        cases = []
        for alg in ALL:
            for cls in (2, 3):
                for k in range(2 if c.quick else 25):
                    cases.append(script(r, alg, cls, r.choice([8, 20]), opts=["set lazy_update true"] if k % 2 == 0 else ()))
        learner_traces(c, cases, "update count")


# ------------------------------------------------------------------ losses
def losscheck(c):
    mc_loss(c)
    r = c.rng
    cases, small = [], ["0", "1", "-1", "0.5", "-2", "1e-3"]
    margins = ["1", "0", "0.5", "3"]
    names = {n: n for n in BIN_LOSS + MUL_LOSS}
    one = []
    for n in BIN_LOSS:
        for y in (1, -1):
            for m in (margins if n == "hinge" else ["1"]):
                for s in small + ["-0.0", "0.999999", "1.000001", "-0.999999", "100", "-100", "17", "-17", "20", "-20", "88", "-88.5", "90", "-104", "1e4", "-1e4", "1e9", "-1e9", "1e15", "-1e15"] \
                        + ["%.6g" % r.uniform(-30, 30) for _ in range(10 if c.quick else 300)] + ["%.6g" % (r.choice([1, -1]) * 10 ** r.uniform(-6, 15)) for _ in range(10 if c.quick else 300)]:
                    one.append("loss %s %d %s %s" % (n, y, m, s))
                if n in ("hinge", "bool"):
                    one += ["loss %s %d %s %s" % (n, y, m, s) for s in ("1e30", "-1e30", "3e38", "-3e38")]
    import itertools
    for n in MUL_LOSS:
        mg = margins if "hinge" in n else ["1"]
        for k in (2, 3):
            for s in itertools.product(["0", "1", "-1", "0.5"] if k == 3 else small, repeat=k):
                for y in range(k):
                    one.append("loss %s %d %s %s" % (n, y, r.choice(mg), " ".join(s)))
        for _ in range(150 if c.quick else 4000):
            k = r.choice([3, 3, 4, 5, 8, 20])
            top = r.choice([1, 3, 30, 100, 200, 1e4, 1e9, 1e15])
            s = ["%.6g" % r.uniform(-top, top) for _ in range(k)]
            if r.random() < .4:
                for _ in range(r.randint(1, 3)):
                    s[r.randrange(k)] = s[r.randrange(k)]
            if r.random() < .1:
                s = [r.choice(["0", "1"]) for _ in range(k)]
            y = r.randrange(k)
            if r.random() < .3:
                y = max(range(k), key=lambda i: float(s[i]))
            one.append("loss %s %d %s %s" % (n, y, r.choice(mg), " ".join(s)))
    for n in ("hing", "hinge2", "", "maxscore", "-bool", "maxscore-square", "uniform", "bool "):
        one.append("loss %s 1 1 0" % (n or "none"))
    r.shuffle(one)
    cases = ["|".join(one[i:i + 40]) for i in range(0, len(one), 40)]
    ev = drive(c, cases, exe=exe())
    traces = []
    for x, e in zip(cases, ev):
        for v in e:
            if v["e"] == "loss":
                v["known"] = v["name"] in names
                v["lname"] = names.get(v["name"], "")
        traces.append({"ev": e, "case": x[:300]})
    c.sample({"script": cases[0][:200], "events": ev[0][:4]})
    c.notes["loss_evaluations"] = len(one)
    rej = c.traces("LossTrace", "LossTrace.cfg", traces, chunk=40)
    if not rej:
        bad = []
        for t in traces[:12]:
            u = copy.deepcopy(t)
            e = [v for v in u["ev"] if v["e"] == "loss" and v["ok"]][5]
            k = len(bad) % 4
            if k == 0:
                e["l"] = bits(7e20)
            elif k == 1:
                e["g"][0] = bits(3.5e20)
            elif k == 2:
                e["l2"] = bits(-1.)
            else:
                e["kept"] = False
            bad.append(u)
        c.self_test("LossTrace", "LossTrace.cfg", bad)
    report(c, rej, "loss")


# ------------------------------------------------------------------ using a model
def wide_rec(r, cls, dim, vals):
    """Records of any shape: empty, zero values, features the model has never seen."""
    y = (r.choice([1, 1, -1, -1, 0, 2, 7, -5]) if cls == 2 else r.randrange(cls))
    k = r.random()
    if k < .1:
        return "%d" % y
    top = dim if k < .6 else dim + r.choice([1, 2, 30, 5000])
    n = r.choice([1, 2, 3, 4, 6])
    ix = sorted(set(r.randint(1, top) for _ in range(n)))
    if r.random() < .1:
        ix = [1000000, 2000000]
    z = r.random() < .08
    return "%d%s" % (y, "".join(" %d:%s" % (i, "0" if z else r.choice(vals) if vals else "%.4g" % r.choice([r.uniform(-2, 2), r.uniform(-1e3, 1e3), 10 ** r.uniform(-6, 6)])) for i in ix))


def using_script(r, alg, cls):
    dim = r.choice([1, 2, 4, 8])
    vals = r.choice(VALUESETS)
    s = ["new %s %d" % (alg, cls)]
    filters = {}
    ls = r.choice(losses(alg, cls) + [None])
    if ls:
        s.append("set loss " + ls)
    s += params(r, alg)
    if alg in SEL and r.random() < .7:
        s.append("set B %d" % r.choice([1, 2, 3]))

    def setnorm():
        if alg != "alma2" or r.random() < .5:
            s.append("set norm " + ("L2" if alg == "alma2" else r.choice(["L1", "L2", "None"])))

    def setfilter():
        ix = sorted(r.sample(range(1, dim + 4), r.randint(1, min(4, dim + 3))), key=lambda _: r.random())
        if r.random() < .15:
            ix = []
        f = "f%d" % len(filters)
        text = "".join("%s%d\n" % (r.choice(["", " "]) if r.random() < .1 else "", i) for i in ix)
        if r.random() < .2:
            text = "#comment 3\n" + text
        s.append("write %s %s" % (f, hexs(text)))
        s.append("set filter FILE:" + f)
        filters["FILE:" + f] = ix
    if r.random() < .5:
        setnorm()
    if r.random() < .35:
        setfilter()
    many = lambda n: ";".join(wide_rec(r, cls, dim, vals) for _ in range(n))
    for _ in range(r.choice([1, 2, 3, 4])):
        k = r.random()
        if k < .8:
            s.append("train %d %d 1@%s" % (r.choice([1, 3, 16]), r.choice([1, 2]), ";".join(rec(r, cls, dim, vals) for _ in range(r.choice([1, 3, 8, 20])))))
        if r.random() < .2:
            setnorm()
        if r.random() < .15:
            setfilter()
        for _ in range(r.choice([1, 2, 3])):
            k = r.random()
            if k < .2:
                s.append("prep " + wide_rec(r, cls, dim, vals))
            elif k < .4:
                s.append("pred " + wide_rec(r, cls, dim, vals))
            elif k < .65:
                s.append("test %d %d 1@%s" % (r.choice([1, 2, 16]), r.choice([1, 2]), many(r.choice([1, 4, 10, 30]))))
            elif k < .85:
                s.append("predict %d %d 1@%s" % (r.choice([1, 2, 16]), r.choice([1, 2]), many(r.choice([1, 4, 10, 30]))))
            elif k < .95:
                s.append("sparsity")
            else:
                s.append("reload")
                filters_off = True
    return "|".join(s), filters


def using(c):
    r = c.rng
    cases = []
    for alg in ALL:
        for cls in (2, 3, 5):
            for _ in range(16 if c.quick else 150):
                cases.append(using_script(r, alg, cls))
    # ties and untrained models
    for cls in (2, 3, 4):
        for ws in ("", "train 1 1 1@1 1:1", "train 1 1 1@1 1:1;0 2:1"):
            for x in ("1 1:1", "0 2:1", "1 3:1", "0", "1 1:1 2:1", "0 1:1 2:-1", "1 1:-1 2:1"):
                s = ["new perceptron %d" % cls] + ([ws] if ws else []) + ["pred " + x, "predict 1 1 1@" + x, "test 1 1 1@" + x, "sparsity"]
                cases.append(("|".join(s), {}))
    ev = drive(c, [x for x, _ in cases], exe=exe())
    traces = [{"ev": slim(e), "case": x[:500], "rel": "2e-5", "filters": dict(f, none=[])} for (x, f), e in zip(cases, ev)]
    c.sample({"script": cases[0][0][:500], "events": ev[0][-4:]})
    rej = c.traces("ModelTrace", "ModelTrace.cfg", traces, chunk=60)
    if not rej:
        bad = []
        for t in traces:
            for i, e in enumerate(t["ev"]):
                u = copy.deepcopy(t)
                x = u["ev"][i]
                k = len(bad) % 6
                if k == 0 and e["e"] == "pred":
                    x["p"][0] = bits(struct.unpack("<f", struct.pack("<i", x["p"][0]))[0] * 1.01 + .1)
                elif k == 1 and e["e"] == "pred":
                    x["lab"] = -x["lab"] if t["ev"][0]["cls"] == 2 else x["lab"] + 1
                elif k == 2 and e["e"] == "test" and len(x["rows"]) > 2:
                    x["er"] = [1071006941 if x["er"][0] == 0 else x["er"][0] + 5000, 0]
                elif k == 3 and e["e"] == "predict" and len(x["rows"]) > 2:
                    x["rows"].pop()
                elif k == 4 and e["e"] == "prep" and e["i"] and e["r"]["v"][0] & 0x7fffffff:
                    x["r"]["v"][0] ^= 1 << 18
                elif k == 5 and e["e"] == "sparsity" and len(e["w"][0]) > 1:
                    x["s"] = [1071006941 if x["s"][0] != 1071006941 else 0, 0]
                else:
                    continue
                bad.append(u)
                break
            if len(bad) == 12:
                break
        c.self_test("ModelTrace", "ModelTrace.cfg", bad)
    report(c, rej, "model use")


# ------------------------------------------------------------------ damaged model files
def damaged(c):
    r = c.rng
    cases = []
    junk = [b"", b"\n", b"{}", b"model info:\n", b"model info:\n{}\n", b"model info:\n{}\nmodel parameters:\n", b"hello world\n" * 20,
            b"\x00" * 100, bytes(range(256)), b"1 1:1 2:1\n-1 1:2\n", b"model info:\n{\"cls_num\":2}\nmodel parameters:\nweight[0]:\n[ 0 ]\n",
            b"model info:\n{\"cls_num\":2,\"clf_num\":1,\"model\":\"nosuch\",\"norm\":0,\"loss\":\"hinge\"}\nmodel parameters:\nweight[0]:\n[ 0 ]\n",
            b"model info:\n{\"cls_num\":\"x\",\"model\":3}\nmodel parameters:\n", b"model info:\n[1,2,3]\nmodel parameters:\n", b"model info:\n\"abc\"\n",
            b"model info:\n{" + b"[" * 300]
    junk += [bytes(r.randrange(256) for _ in range(r.choice([1, 10, 100, 3000]))) for _ in range(20 if c.quick else 300)]
    for j in junk:
        cases.append(("write x %s|load x" % hexs(j), [], [False]))
    cases.append(("load nothere", [], [False]))
    for alg in ALL:
        for cls in (2, 3):
            for rep in range(1 if c.quick else 4):
                n = r.choice([0, 2, 6])
                base = script(r, alg, cls, n) if n else "new %s %d" % (alg, cls)
                base = "|".join(x for x in base.split("|") if not x.startswith(("pred", "final")))
                cases.append((base + "|save m|cuts m 0 0 1|load m", [True], [True]))
                cases.append((base + "|save m|hurt m|load m", [True], [True]))
                cases.append((base + "|save /nosuchdirectory/m|save /dev/full|save m|load m", [False, False, True], [True]))
                cases.append((base + "|limits q %d" % (7 if c.quick else 1), [], []))
    # a large model: the failed write shows only when buffers are flushed
    big = "new ogd 3|train 4 1 1@0 %s;1 1:2" % " ".join("%d:%g" % (i, r.uniform(-1, 1)) for i in range(1, 3000))
    cases.append((big + "|save /dev/full|save m|cuts m 0 0 257|load m", [False, True], [True]))
    big2 = "new ogd 2|train 4 1 1@1 1:1;-1 5:2|save /dev/full|save m|cuts m 0 0 1|load m"
    cases.append((big2, [False, True], [True]))
    ev = drive(c, [x for x, _, _ in cases], exe=exe())
    traces = []
    for (x, saves, loads), e in zip(cases, ev):
        si, li = iter(saves), iter(loads)
        out = []
        for v in e:
            v = {k: b for k, b in v.items() if k not in ("w", "par", "src", "p", "i", "v")}
            if v["e"] == "save":
                v["can"] = next(si, True)
            if v["e"] == "load":
                v["model"] = next(li, False)
            out.append(v)
        traces.append({"ev": out, "case": x[:400]})
    c.notes["prefixes_loaded"] = sum(1 for t in traces for e in t["ev"] if e["e"] == "cut")
    c.sample({"script": cases[-3][0][:300], "events": traces[-3]["ev"][-4:]})
    rej = c.traces("LoadTrace", "LoadTrace.cfg", traces, chunk=40)
    if not rej:
        bad = []
        for t in traces:
            ks = [i for i, e in enumerate(t["ev"]) if e["e"] == "cut" and not e["whole"]]
            if not ks:
                continue
            u = copy.deepcopy(t)
            u["ev"][r.choice(ks)]["ok"] = True
            bad.append(u)
            if len(bad) == 6:
                break
        u = copy.deepcopy(traces[0])
        u["ev"][0]["ok"] = True
        bad.append(u)
        c.self_test("LoadTrace", "LoadTrace.cfg", bad)
    report(c, rej, "model file")


# ------------------------------------------------------------------ parameters
PNAMES = ["bias_eta", "t", "dim", "active_smoothness", "cost_margin", "eta", "cur_eta", "power_t", "k", "C", "p", "alpha", "sigma", "rou",
          "a", "phi", "r", "delta", "lambda", "B", "sparse_thresh"]
INTP = {"t", "dim", "k", "p", "exp_show", "step_show"}
NUMS = ["0", "1", "-1", "2", "7", "-3", "100"]
REALS = NUMS + ["0.5", "-0.5", "0.001", "1e-6", "-1e-6", "1.0001", "0.9999", "1e-30", "12345.6", "0.333333", "3e10"]
BADNUM = ["abc", "", "x1", "nan", "-nan", "1e999", "--1", "e5", "."]
OTHERS = ["loss", "norm", "model", "cls_num", "clf_num", "lazy_update", "exp_show", "step_show", "filter", "nosuch", "Eta", "lambda2", "sigm", "DIM", "eta "]


def param_values(r, name, alg, cls):
    if name in PNAMES:
        v = NUMS if name in INTP else REALS
        if name == "B":
            v = ["1", "2", "0", "-1", "5"] if alg == "fofs" else ["1", "2", "5"]
        if name == "lambda" and alg in SEL and alg != "fofs":
            v = ["1", "2", "5"]
        if name == "t":
            v = ["0", "3", "100", "-1", "-7"]
        if name == "dim":
            v = ["0", "1", "2", "3", "10", "-1", "-100"]
        bad = [x for x in BADNUM if x != "1e999"] + ["99999999999"] if name in INTP or name == "B" else BADNUM
        if name == "B":
            bad = [x for x in bad if not x.startswith("9")]
        if name in ("C", "a", "phi", "r", "lambda", "B", "sparse_thresh"):       # not range-checked
            bad = [x for x in bad if "nan" not in x]
        return v + bad
    if name == "loss":
        ls = BIN_LOSS + MUL_LOSS
        return ls + [x.upper() for x in ls] + ["Hinge", "MaxScore-Hinge", "nosuch", "hing", "maxscore"]
    if name == "norm":
        return ["None", "L1", "L2", "0", "1", "2", "3", "-1", "L3", "l2", "none", "abc", "2x", "1.5", "0 ", "1L", "", "L2 ", "22", "0x1", "99999999999"]
    if name == "model":
        return [alg, "nosuch", "ogd", "pa"]
    if name in ("cls_num", "clf_num"):
        return ["1", "2", "3", "4"]
    if name == "lazy_update":
        return ["true", "false", "true"]
    if name in ("exp_show", "step_show"):
        return ["2", "3", "10", "abc"]
    if name == "filter":
        return ["FILE:nothere"]
    return ["1", "0", "abc"]


def isnum(name, v):
    if name in INTP or name == "B":
        try:
            return -2 ** 31 <= int(v) < 2 ** 31
        except ValueError:
            return False
    try:
        x = float(v)
    except ValueError:
        return False
    return x == x and abs(x) < 3.4e38


def parameters(c):
    r = c.rng
    cases = []
    for alg in ALL:
        for cls in (2, 3):
            allsets = [(n, v) for n in PNAMES + OTHERS for v in param_values(r, n, alg, cls)]
            r.shuffle(allsets)
            # every value once, in runs of bounded length; trained in between
            for i in range(0, len(allsets), 25):
                s = ["new %s %d" % (r.choice([alg, alg, alg.upper(), alg.capitalize()]), cls)]
                for j, (n, v) in enumerate(allsets[i:i + 25]):
                    s.append("set %s %s" % (n, v) if v else "set %s" % n)
                cases.append("|".join(s))
            for _ in range(3 if c.quick else 60):
                s = ["new %s %d" % (alg, cls)]
                good = [x for x in params(r, alg)]
                for _ in range(r.randint(3, 12)):
                    k = r.random()
                    if k < .3 and good:
                        s.append(r.choice(good))
                    elif k < .8:
                        n = r.choice(PNAMES + OTHERS)
                        v = r.choice(param_values(r, n, alg, cls))
                        s.append("set %s %s" % (n, v) if v else "set %s" % n)
                    elif not any("cost_margin" in x for x in s):
                        s.append("train 2 1 1@1 1:1;0 2:1 3:1|params")
                cases.append("|".join(s))
    for n in ("nosuch", "og", "ogd2", "hinge", "svm", "bin", "OGD", "Pa1", "SOFS", "ada-FOBOS"):
        for k in (2, 3, 1, 0, -1, -5, 10):
            cases.append("new %s %d|set eta 1|set bias_eta 1|set bias_eta -1" % (n, k))
    ev = drive(c, cases, exe=exe())
    traces = []
    for x, e in zip(cases, ev):
        for v in e:
            if v["e"] == "set":
                v["num"] = isnum(v["name"], v["val"])
                v["low"] = v["val"].lower()
            if v["e"] == "new":
                v["low"] = v["alg"].lower()
            if v["e"] == "train":
                v.pop("src")
        traces.append({"ev": e, "case": x[:500]})
    c.notes["settings"] = sum(1 for t in traces for e in t["ev"] if e["e"] == "set")
    c.sample({"script": cases[0][:300], "events": [{k: v for k, v in e.items()} for e in ev[0][:3]]})
    rej = c.traces("ParamTrace", "ParamTrace.cfg", traces, chunk=60)
    if not rej:
        bad = []
        for t in traces:
            ks = [i for i, e in enumerate(t["ev"]) if e["e"] == "set"]
            u = copy.deepcopy(t)
            e = u["ev"][r.choice(ks)]
            k = len(bad) % 3
            if k == 0:
                e["st"] = 0 if e["st"] else 4
            elif k == 1:
                e["par"]["bias_eta"] = "0.123"
            else:
                e["par"]["extra"] = "1"
            bad.append(u)
            if len(bad) == 12:
                break
        c.self_test("ParamTrace", "ParamTrace.cfg", bad)
    report(c, rej, "parameter")


# ------------------------------------------------------------------ several objects in one process
def iter_script(r):
    """An iterator over files of its own: the script and what it must deliver."""
    bs, buf = r.choice([1, 2, 3, 7]), r.choice([1, 2, 4])
    s, srcs, total = [], [], 0
    hi = r.choice([6, 40, 300])
    for _ in range(r.choice([1, 1, 2, 3])):
        fmt, npass = r.choice(["svm", "csv", "bin"]), r.choice([1, 1, 2])
        n = r.choice([1, 2, 5, 9, 30])
        recs = []
        for _ in range(n):
            k = r.choice([0, 1, 2, 5, 5, hi // 2])
            recs.append((r.choice([-1, 1, 0, 7, 2000000]), [(i, r.choice([.5, -.25, 1, 3, 1024, -7.5]) + 0.) for i in sorted(r.sample(range(1, hi), min(k, hi - 1)))]))
        if fmt != "csv":      # binary files are written by the library from the same text
            b = "".join("%d%s\n" % (y, "".join(" %d:%g" % x for x in f)) for y, f in recs).encode()
        else:
            b = "class," + ",".join("f%d" % i for i in range(1, hi)) + "\n"
            b = (b + "".join("%d,%s\n" % (y, ",".join("%g" % dict(f).get(i, 0) for i in range(1, hi))) for y, f in recs)).encode()
        s.append("source %d %d %d %s %s" % (bs, buf, npass, fmt, b.hex()))
        srcs.append({"pass": npass, "recs": [{"y": y, "i": [i for i, _ in f], "v": [bits(v) for _, v in f]} for y, f in recs]})
        total += n * npass
    k = r.choice([0, total // bs // 2])
    at = len(s) if r.random() < .7 else 1     # some batches are taken before the other sources are added
    s[at:at] = ["pull"] * k if at == len(s) else ["pull"] * min(k, sum(x["pass"] * len(x["recs"]) for x in srcs[:1]) // bs)
    s += ["pull"] * (total + 2)
    return "|".join(s), {"bs": bs, "srcs": srcs}


def tsan_exe():
    """The driver under the thread sanitizer, where that works; None elsewhere."""
    e = core.build("model_drv", ["model_drv.cc"], "lib", "tsan")
    d = core._mk("/tmp/verif-tsan-%d" % os.getpid())
    open(d + "/cases", "w").write("multi par^new none 2^new none 2\n")
    rc, _, _ = core.run([e, d + "/cases", d + "/out", d], timeout=60)
    ok = rc == 0 and os.path.exists(d + "/out") and '"op":"ok"' in open(d + "/out").read()
    core.shutil.rmtree(d, ignore_errors=True)
    return e if ok else None


def independent(c):
    r = c.rng
    for n, k in ((2, 4), (3, 3)) if c.quick else ((2, 7), (3, 5), (4, 3)):
        for area, whole, carry, want in (("own", True, True, "ok"), ("own", False, True, "ok"), ("own", False, False, "ok"), ("shared", True, False, "ok"),
                                         ("shared", True, True, "violated"), ("shared", False, False, "violated")):
            c.model("Alone", "SPECIFICATION Spec\nCONSTANTS N = %d Len0 = %d Area = \"%s\" Whole = %s Carry = %s\nINVARIANT AsAlone\nCHECK_DEADLOCK FALSE\n" %
                    (n, k, area, str(whole).upper(), str(carry).upper()), want,
                    "%d objects, %d calls each, %s work area, %s" % (n, k, area, "one thread" if whole else "threads") + ("" if want == "ok" else " (negative control)"))
    kinds = []       # per case and session: which specification judges it, and with what

    def model_part(par, alg=None, cls=None):
        alg = alg or r.choice(ALL)
        cls = cls or r.choice([2, 2, 3, 4])
        opts = ["set lazy_update true"] if r.random() < .15 else []
        if not par and r.random() < .05:
            opts.append("set active_smoothness 0.5")
        return script(r, alg, cls, r.choice([4, 8, 12]), reload=r.choice([0, .1]), opts=opts), ("LearnerTrace", {"rel": "2e-4", "abs": "2e-5"})

    def part(par, alg=None, cls=None):
        k = r.random()
        if k < .5:
            return model_part(par, alg, cls)
        if k < .75:
            s, d = iter_script(r)
            return s, ("PullTrace", d)
        alg, cls = alg or r.choice(ALL), min(3, cls or r.choice([2, 3]))
        if k < .87:
            s, t0 = feed_script(r, alg, cls, r.choice([3, 8]), ["batch", "passes", "sources", "calls", "mixed"])
            return s, ("TrainTrace", {"t0": t0})
        s, f = using_script(r, alg, cls)
        return s, ("ModelTrace", {"rel": "2e-5", "filters": dict(f, none=[])})

    def case(par):
        k = r.choice([2, 2, 3, 4])
        same = r.random() < .4
        alg, cls = r.choice(ALL), r.choice([2, 3])
        v = [part(par, *((alg, r.choice([cls, cls, 4])) if same else ())) for _ in range(k)]
        n = [len(s.split("|")) for s, _ in v]
        steps = [str(i) for i in range(k) for _ in range(n[i])]
        how = r.random()
        if how < .6:
            r.shuffle(steps)
        elif how < .8:      # in turn
            steps = [str(i) for _ in range(max(n)) for i in range(k)]
        else:               # in runs
            steps = [x for _ in range(max(n)) for x in [str(r.randrange(k))] * r.randint(1, 6)]
        kinds.append([d for _, d in v])
        return "multi " + "^".join(["par" if par else "".join(steps)] + [s for s, _ in v])

    def same_alg(par, alg, classes):
        v = [model_part(par, alg, k) for k in classes]
        kinds.append([d for _, d in v])
        return "multi " + "^".join(["par" if par else "01" * 60] + [s for s, _ in v])
    cases = [same_alg(False, alg, (cls, cls)) for alg in ALL for cls in (2, 3)]
    cases += [case(False) for _ in range(150 if c.quick else 1500)]
    alone = len(cases)
    cases += [same_alg(True, alg, (2, 2, 3)) for alg in ALL]
    cases += [case(True) for _ in range(80 if c.quick else 800)]
    ts = tsan_exe()
    c.notes["threads_watched_by_sanitizer"] = bool(ts)
    ev = drive(c, cases[:alone], exe=exe()) + drive(c, cases[alone:], exe=ts or exe(), name="p")
    by = {}
    for x, e, kind in zip(cases, ev, kinds):
        for k, (spec, extra) in enumerate(kind):
            mine = [{a: b for a, b in y.items() if a != "sess"} for y in e if y.get("sess") == k] + [e[-1]]
            by.setdefault(spec, []).append(dict({"ev": slim(mine), "case": "session %d of %s" % (k, x[:300])}, **extra))
    c.notes["sessions"] = {k: len(v) for k, v in by.items()}
    c.notes["sessions_in_threads"] = sum(len(k) for k in kinds[alone:])
    c.sample({"script": cases[0][:400], "events": ev[0][:6]})
    rej = []
    for spec, tr in sorted(by.items()):
        rej += c.traces(spec, spec + ".cfg", tr, chunk=60)
    if not rej:
        c.self_test("LearnerTrace", "LearnerTrace.cfg", corrupt(r, by["LearnerTrace"]))
        bad, pull = [], by["PullTrace"]
        for i, t in enumerate(pull[:24]):
            u = copy.deepcopy(t)
            p = [e for e in u["ev"] if e["e"] == "pull"]
            if i % 3 == 0:
                p[0]["recs"][-1]["y"] += 1
            elif i % 3 == 1:
                u["ev"].remove(p[0])
            else:
                q = pull[(i + 1) % len(pull)]
                p[0]["recs"] = [e for e in q["ev"] if e["e"] == "pull"][0]["recs"] + p[0]["recs"]
            bad.append(u)
        c.self_test("PullTrace", "PullTrace.cfg", bad)
    report(c, rej, "an object among others")
