"""C03-C07: the threaded data iterator."""
import copy
import json
import os
from . import core

CFG = """SPECIFICATION Spec
CONSTANTS BatchSize = %d
 BatchNum = %d
 Sources <- %s
 MaxPulls = %d
 OldDtor = %s
INVARIANTS OwnOK AheadOK CapOK Gone
PROPERTIES DeliverOK PullReturns DtorReturns
"""


def src(n, passes=1, epass=0, epos=0, bad=0):
    return "%d,%d,%d,%d,%d" % (n, passes, epass, epos, bad)


def scenarios(c):
    """Scenario lines for the property: bsize,bnum|sources|program."""
    r, p = c.rng, c.prop
    out = []
    sizes = [(1, 1), (2, 1), (1, 2), (2, 2), (3, 2), (2, 3), (1, 3)]
    if p == "C03":
        for bs, bn in sizes:
            out += ["%d,%d|%s|a1 e" % (bs, bn, src(n, k)) for n, k in ((1, 1), (2, 1), (3, 1), (4, 1), (2, 2), (3, 3))]
            out.append("%d,%d|%s;%s|a1 a2 e" % (bs, bn, src(2, 2), src(3, 1)))
            out.append("%d,%d|%s;%s;%s|a1 a2 a3 e" % (bs, bn, src(1, 1), src(2, 1), src(1, 2)))
        def rnd():
            bs, bn = r.randint(1, 4), r.randint(1, 4)
            k = r.randint(1, 4)
            ss = [src(r.randint(1, 6), r.randint(1, 3)) for _ in range(k)]
            pulls = " ".join(r.choice("nnnhy") for _ in range(r.randint(0, 5)))
            return "%d,%d|%s|%s %s e" % (bs, bn, ";".join(ss), " ".join("a%d" % (i + 1) for i in range(k)), pulls)
    elif p == "C04":
        for bs, bn in sizes + [(2, 4)]:
            out += ["%d,%d|%s|a1 %s e" % (bs, bn, src(6, 1), prog) for prog in ("h h h", "n y n y", "h n n h", "y y n")]
            out.append("%d,%d|%s;%s|a1 a2 h n h n e" % (bs, bn, src(3, 2), src(3, 1)))
        def rnd():
            bs, bn = r.randint(1, 3), r.randint(1, 4)
            k = r.randint(1, 3)
            ss = [src(r.randint(1, 7), r.randint(1, 2), *((r.randint(1, 2), r.randint(1, 4)) if r.random() < .2 else (0, 0))) for _ in range(k)]
            pulls = " ".join(r.choice("nnhhy") for _ in range(r.randint(2, 8)))
            return "%d,%d|%s|%s %s %s" % (bs, bn, ";".join(ss), " ".join("a%d" % (i + 1) for i in range(k)), pulls, r.choice(["e", ""]))
    elif p == "C05":
        for bs, bn in sizes:
            out += ["%d,%d|%s|n n n" % (bs, bn, src(1)),
                    "%d,%d|%s;%s|a1 e n n a2 e n" % (bs, bn, src(2), src(3, 2)),
                    "%d,%d|%s;%s|e a1 e a2 n n n n e e" % (bs, bn, src(2), src(1)),
                    "%d,%d|%s;%s;%s|a1 a2 a3 e n" % (bs, bn, src(2, 0), src(0, 2), src(2)),
                    "%d,%d|%s;%s;%s|a1 a2 a3 e n" % (bs, bn, src(2), src(2, 1, 0, 0, 1), src(3)),
                    "%d,%d|%s;%s;%s|a1 a2 a3 e n" % (bs, bn, src(2, -1), src(2, 1, 0, 0, 3), src(1)),
                    "%d,%d|%s;%s;%s|a1 a2 e a3 e n" % (bs, bn, src(2, 1, 0, 0, 2), src(2), src(0, 3)),
                    "%d,%d|%s;%s|n a1 n a2 n n n n n e" % (bs, bn, src(2), src(2, 1))]
        def rnd():
            bs, bn = r.randint(1, 3), r.randint(1, 3)
            k = r.randint(1, 4)
            ss = [src(r.choice([0, 1, 2, 3, 4]), r.choice([0, 1, 1, 1, 2, -2]), 0, 0, r.choice([0, 0, 0, 0, 1, 2, 3])) for _ in range(k)]
            prog = []
            for i in range(k):
                prog += [r.choice("nneny") for _ in range(r.randint(0, 4))] + ["a%d" % (i + 1)]
            return "%d,%d|%s|%s e %s" % (bs, bn, ";".join(ss), " ".join(prog), r.choice(["", "n", "n n", "e e"]))
    elif p == "C06":
        for bs, bn in sizes:
            for n, passes in ((1, 1), (3, 1), (2, 2)):
                for ep in range(1, passes + 1):
                    for pos in range(1, n + 2):
                        out.append("%d,%d|%s;%s|a1 a2 e n" % (bs, bn, src(n, passes, ep, pos), src(2)))
            out.append("%d,%d|%s;%s;%s|a1 a2 a3 e n" % (bs, bn, src(2), src(3, 1, 1, 2), src(2, 2, 2, 1)))
        def rnd():
            bs, bn = r.randint(1, 4), r.randint(1, 3)
            k = r.randint(1, 4)
            ss = []
            for _ in range(k):
                n, ps = r.randint(0, 5), r.randint(1, 3)
                ss.append(src(n, ps, *((r.randint(1, ps), r.randint(1, n + 1)) if r.random() < .6 else (0, 0))))
            pulls = " ".join(r.choice("nnhy") for _ in range(r.randint(0, 4)))
            return "%d,%d|%s|%s %s e n" % (bs, bn, ";".join(ss), " ".join("a%d" % (i + 1) for i in range(k)), pulls)
    else:  # C07
        for bs, bn in sizes:
            for prog in ("", "a1", "a1 a2", "a1 n", "a1 h", "a1 n n", "a1 h h", "a1 y", "a1 n y y", "a1 a2 n", "a1 e", "a1 a2 e", "a1 e a2", "n", "a1 a2 h n n"):
                out.append("%d,%d|%s;%s|%s" % (bs, bn, src(3), src(2, 2), prog))
            out.append("%d,%d|%s;%s|a1 a2 n" % (bs, bn, src(3, 1, 1, 2), src(2, 2, 0, 0, 1)))
            out.append("%d,%d|%s;%s|a1 a2 n y" % (bs, bn, src(0, 2), src(2, 0)))
        def rnd():
            bs, bn = r.randint(1, 3), r.randint(1, 4)
            k = r.randint(1, 4)
            ss = [src(r.randint(0, 6), r.randint(0, 3), *((1, r.randint(1, 4)) if r.random() < .15 else (0, 0)), bad=r.choice([0, 0, 0, 0, 0, 1])) for _ in range(k)]
            prog = []
            for i in range(k):
                prog += ["a%d" % (i + 1)] + [r.choice("nnhy") for _ in range(r.randint(0, 3))]
            if r.random() < .2:
                prog.append("e")
            return "%d,%d|%s|%s" % (bs, bn, ";".join(ss), " ".join(prog))
    fixed = out
    n = (90 if c.quick else 700)
    rand = [rnd() for _ in range(n)]
    return fixed, rand


def models(c):
    cfgs = [("A%d" % i, bs, bn, 6) for i in (1, 2, 3, 4) for bs in (1, 2) for bn in (1, 2)]
    if not c.quick:
        cfgs += [("A%d" % i, bs, bn, 9) for i in (1, 2, 3, 4) for bs in (1, 2, 3) for bn in (1, 2, 3)]
    jobs = [lambda x=x: c.model("MCDataIter", CFG % (x[1], x[2], x[0], x[3], "FALSE"), label="%s bs=%d bn=%d pulls=%d" % x) for x in cfgs]
    if c.prop == "C07":
        jobs.append(lambda: c.model("MCDataIter", CFG % (1, 2, "A1", 4, "TRUE"), expect="violated", label="negative control: drain by size() then blocking take"))
    core.pmap(lambda j: j(), jobs)


def corrupt(traces, prop):
    """Altered histories that the property's clauses must reject."""
    out = []
    for t in traces:
        t = copy.deepcopy(t)
        ev = t["ev"]
        gots = [i for i, e in enumerate(ev) if e["e"] == "got" and e["v"]]
        if prop in ("C03", "C05", "C06"):
            if not gots:
                continue
            k = len(out) % 3
            if k == 0:
                ev[gots[-1]]["v"] = ev[gots[-1]]["v"][:-1]          # a record lost
                if not any(e["e"] == "eod" for e in ev[gots[-1]:]):
                    continue
            elif k == 1:
                ev[gots[-1]]["v"] = ev[gots[-1]]["v"] + [ev[gots[-1]]["v"][-1]]   # duplicated
            else:                                                     # a pull that never returns
                ev[gots[-1]:] = [dict(ev[-1], op="blocked")]
        elif prop == "C04":
            chk = [i for i, e in enumerate(ev) if e["e"] == "check" and e["v"]]
            rd = [i for i, e in enumerate(ev) if e["e"] == "read" and gots and i > gots[0] and i < len(ev)]
            if len(out) % 2 == 0 and chk:
                ev[chk[0]]["v"][0] += 1
            elif rd and gots and ev[gots[0] + 1]["e"] == "read":
                ev[gots[0] + 1]["slot"] = ev[gots[0]]["s"][0]        # write into a held batch
            else:
                continue
        else:
            d = [i for i, e in enumerate(ev) if e["e"] == "destroyed"]
            if not d:
                continue
            k = len(out) % 3
            if k == 0:
                ev[d[0]]["v"][0] = 2
            elif k == 1:
                ev[d[0]]["id"] = 1
            else:
                ev[d[0]:] = [dict(ev[-1], op="blocked")]
        out.append(t)
        if len(out) >= 12:
            break
    return out


def check(c):
    exe = core.build("pipe_drv", ["pipe_drv.cc", "detsched.cc"], "pario", "sched")
    models(c)
    fixed, rand = scenarios(c)
    jobs = []
    # every schedule within the budget for the small fixed scenarios, random schedules for the larger ones
    plans = [(fixed, 500, 0, 1, 0), (fixed, 200, 60, 2, 1), (rand, 40, 60, 3, 1)] if c.quick else [(fixed, 4000, 0, 1, 1), (fixed, 4000, 400, 3, 1), (rand, 600, 600, 3, 2), (fixed, 4000, 0, 2, 2)]
    for pi, (sc, dfs, rnd, pre, sp) in enumerate(plans):
        nj = core.NCPU * 2
        for k in range(nj):
            if sc[k::nj]:
                jobs.append((pi, k, sc[k::nj], dfs, rnd, pre, sp))

    def drive(job):
        pi, k, part, dfs, rnd, pre, sp = job
        f = "%s/sc-%d-%d" % (c.work, pi, k)
        open(f, "w").write("\n".join(part) + "\n")
        rc, out, err = core.run([exe, f, f + ".out", str(c.seed + k), str(dfs), str(rnd), str(pre), str(sp)], timeout=3000)
        if rc != 0:
            raise core.ToolError("pipe_drv failed rc=%d %s %s" % (rc, out[-500:], err[-500:]))
        tr = [json.loads(x) for x in open(f + ".out")]
        for t in tr:
            t["scenario"] = part[t["sc"] - 1]
        os.unlink(f + ".out")
        return json.loads(out.strip().split("\n")[-1]), tr
    runs = exhausted = 0
    seen, traces = set(), []
    for st, tr in core.pmap(drive, jobs):
        runs += st["runs"]
        exhausted += st["exhausted"]
        for t in tr:
            key = t["scenario"] + json.dumps(t["ev"])
            if key not in seen:
                seen.add(key)
                traces.append(t)
    limit = 20000 if c.quick else 300000
    # ends that are not "finished" are always kept
    if len(traces) > limit:
        odd = [t for t in traces if t["ev"][-1]["op"] != "finished"]
        rest = [t for t in traces if t["ev"][-1]["op"] == "finished"]
        traces = odd[:limit // 2] + c.rng.sample(rest, limit - min(len(odd), limit // 2))
    c.notes.update({"schedules_run": runs, "scenarios": len(fixed) + len(rand), "scenarios_exhausted_within_budget": exhausted,
                    "distinct_histories": len(seen)})
    for t in traces[:2]:
        c.sample({"scenario": t["scenario"], "schedule": t["sched"], "events": t["ev"][:25]})
    env = {"CLAUSES": c.prop}
    rej = c.traces("PipeTrace", "PipeTrace.cfg", traces, env=env, chunk=1200)
    if not rej:
        c.self_test("PipeTrace", "PipeTrace.cfg", corrupt(traces[::max(1, len(traces) // 200)], c.prop), env=env)
    for t, pos in rej[:10]:
        c.violation("run of scenario %s rejected by the iterator specification at event %d: %s" % (
            t["scenario"], pos, json.dumps(t["ev"][pos - 1] if pos <= len(t["ev"]) else None)), t)
    c.assumptions += ["sequentially consistent memory between synchronisation calls",
                      "data sources are scripted stand-ins for file readers (file readers are covered by C08-C11)",
                      "a consumer never holds all batches while pulling"]
