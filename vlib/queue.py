"""C01, C02: the blocking queue."""
import copy
import json
import os
from . import core

CFG = """SPECIFICATION Spec
CONSTANTS Capacity = %d
 Script <- %s
 MaxSpurious = %d
 ForceLoop = %s
 SingleNotify = TRUE
INVARIANTS Bounded Fifo NoPhantom MutexOK NoLostWakeup
PROPERTIES Refines %s
"""

FIXED = """2|p1 p2 p3|t t t
1|P1,2,3|F3
2|p1|p2|t|t
2|p1 p2|p3|F2|t
1|p1|p2|p3|t|t|t
2|P1,2,3,4|F2|F2
1|P1,2|P3,4|F2|T1 t
3|P1,2,3,4,5|t T3|F1
2|P1,2,0|F4|p3 p4
1|P1,0|F3 t|p2
2|P1,2,3|T2 T2 T2|p4 p5
1|p1 p2|y t y|y
2|P1,2,3|y y|F2
1|t t t|p1|p2|p3
2|F4|p1|P2,3|p4
1|F2|F2|P1,2,3|p4
3|p1 p2 p3 p4 p5|T3|T3|t
2|P1,2,3|P4,5,6|T2 T2 T2 T2
1|t|t
2|p1 p2 p3
2|P1,2,3,4|t
1|F2|p1
2|T2 F3|P1,2
1|p1 t p2 t|t p3 t p4
2|p1 p2 p3|p4|t t t t
2|p1 p2|p3|p4|t t t t
3|p1 p2 p3 p4|p5|p6|T2 t t t t
2|t|t|t t|p1 p2 p3 p4
3|t t|t|T2|p1 p2 p3 p4 p5
2|p1 p2|p3|p4|T2
3|p1 p2 p3|p4|p5|T2
2|P1,2|P3|P4|F2
""".split("\n")[:-1]


def random_scenario(rng):
    cap = rng.choice([1, 1, 2, 2, 3, 4])
    nt = rng.choice([2, 3, 3, 4])
    th = [[] for _ in range(nt)]
    nxt = [1]

    def put():
        if rng.random() < .5:
            v = nxt[0]; nxt[0] += 1
            return "p%d" % v, 1
        n = rng.randint(1, 4)
        v = list(range(nxt[0], nxt[0] + n)); nxt[0] += n
        v = [0 if rng.random() < .08 else x for x in v]
        return "P" + ",".join(map(str, v)), n

    def take(left):
        k = rng.random()
        if k < .35:
            return "t", 1
        if k < .42:
            return "y", 0
        n = rng.randint(1, 3)
        if k < .6:
            return "T%d" % n, n
        return "F%d" % min(n, max(1, left)), min(n, max(1, left))
    total = rng.randint(2, 6)
    puts = 0
    while puts < total:
        s, n = put(); puts += n
        th[rng.randrange(nt)].append(s)
    takes = 0
    want = puts if rng.random() < .8 else rng.randint(0, puts + 2)
    while takes < want:
        s, n = take(want - takes); takes += n
        th[rng.randrange(nt)].append(s)
    th = [t for t in th if t]
    return "%d|%s" % (cap, "|".join(" ".join(t) for t in th))


def role_scenario(rng):
    """Producers and consumers apart, more of one side than the queue can serve at once: many waiters of one kind."""
    cap = rng.choice([1, 2, 2, 3, 3, 5])
    np_, nc = rng.choice([(1, 3), (2, 2), (3, 1), (2, 1), (1, 2), (3, 2), (2, 3)])
    total = rng.randint(max(np_, nc, 2), cap + 4)
    kind = rng.choice("ppPm")

    def share(n, k):
        cut = sorted(rng.sample(range(1, n), k - 1)) if n > k else list(range(1, k))
        return [b - a for a, b in zip([0] + cut, cut + [max(n, k)])]
    th, v = [], 1
    pn, cn = share(total, np_), share(total, nc)
    total = sum(pn)
    cn[-1] += total - sum(cn)
    # leave elements behind (all producers can still finish) or ask for too many
    k = rng.random()
    left = rng.randint(0, cap) if k < .45 else -1 if k < .55 else 0
    while left > 0 and sum(cn) > 1:
        j = rng.choice([i for i, n in enumerate(cn) if n > 0])
        cn[j] -= 1; left -= 1
    cn[0] += max(0, -left)
    for n in pn:
        vals = list(range(v, v + n)); v += n
        ops = []
        while vals:
            j = 1 if kind == "p" or (kind == "m" and rng.random() < .5) else rng.randint(1, len(vals))
            ops.append("p%d" % vals[0] if j == 1 else "P" + ",".join(map(str, vals[:j]))); vals = vals[j:]
        th.append(" ".join(ops))
    for n in cn:
        ops = []
        while n > 0:
            j = rng.randint(1, n)
            x = rng.choice("ttFT") if kind != "m" else rng.choice("tFT")
            ops.append("t" if x == "t" else "%s%d" % (x, j)); n -= 1 if x == "t" else j
        th.append(" ".join(ops))
    rng.shuffle(th)
    return "%d|%s" % (cap, "|".join(t for t in th if t))


def models(c):
    plain = [("S%d" % i, cap, sp) for i in (1, 2, 3, 7, 8) for cap in (1, 2) for sp in (0, 1)]
    plain += [("S5", 1, 1), ("S5", 2, 1), ("S4", 2, 1), ("S6", 2, 0)]
    if not c.quick:
        plain += [("S4", 1, 2), ("S6", 1, 1), ("S6", 2, 1), ("S6", 3, 1)] + [("S%d" % i, cap, 2) for i in (1, 2, 3, 5, 7, 8) for cap in (1, 2, 3)]
    # S4 and S5 may rightly end with blocked or unserved callers: no Finishes there
    jobs = [lambda x=x: c.model("MCBlockQueue", CFG % (x[1], x[0], x[2], "TRUE", "Finishes" if x[0] not in ("S4", "S5") else ""),
                                label="%s cap=%d spurious=%d" % x, extra=["-deadlock"] if x[0] in ("S4", "S5") else [])
            for x in plain]
    jobs.append(lambda: c.model("MCBlockQueue", CFG % (1, "S2", 1, "FALSE", ""), expect="violated", label="negative control: forced take without re-test"))
    core.pmap(lambda j: j(), jobs)


def corrupt(traces, which):
    out = []
    for t in traces:
        t = copy.deepcopy(t)
        rets = [e for e in t["ev"] if e["e"] == "ret" and e["v"]]
        if which == "C01" and rets:
            rets[-1]["v"][-1] = rets[-1]["v"][-1] + 50
            out.append(t)
        elif which == "C02":
            # pretend that the run blocked right before its last return of a take
            idx = [i for i, e in enumerate(t["ev"]) if e["e"] == "ret" and e["v"]]
            if idx and t["ev"][-1]["op"] == "finished":
                i = idx[-1]
                th = t["ev"][i]["t"]
                if any(e["t"] == th for e in t["ev"][i + 1:]):
                    continue
                t["ev"] = [e for k, e in enumerate(t["ev"][:-1]) if k != i and e["e"] != "size"] + [dict(t["ev"][-1], op="blocked")]
                out.append(t)
        if len(out) >= 12:
            break
    return out


def check(c):
    exe = core.build("queue_drv", ["queue_drv.cc", "detsched.cc"], None, "sched")
    models(c)
    nrand = 60 if c.quick else 400
    dfs, rnd = (400, 100) if c.quick else (6000, 1500)
    sc = FIXED + [random_scenario(c.rng) if k % 2 else role_scenario(c.rng) for k in range(nrand)]
    budgets = [(1, 1), (2, 1), (3, 0)] if c.quick else [(2, 1), (3, 0), (4, 1), (2, 2)]
    jobs = []
    for b in budgets:
        for k in range(core.NCPU):
            part = sc[k::core.NCPU]
            if part:
                jobs.append((b, k, part))

    def drive(job):
        (pre, sp), k, part = job
        f = "%s/sc-%d-%d-%d" % (c.work, pre, sp, k)
        open(f, "w").write("\n".join(part) + "\n")
        rc, out, err = core.run([exe, f, f + ".out", str(c.seed + k), str(dfs), str(rnd), str(pre), str(sp)], timeout=3000)
        if rc != 0:
            raise core.ToolError("queue_drv failed rc=%d %s %s" % (rc, out[-500:], err[-500:]))
        tr = [json.loads(x) for x in open(f + ".out")]
        for t in tr:
            t["scenario"] = part[t["sc"] - 1]
        os.unlink(f + ".out")
        return json.loads(out.strip().split("\n")[-1]), tr

    runs = 0
    exhausted = 0
    seen, traces = set(), []
    for st, tr in core.pmap(drive, jobs):
        runs += st["runs"]
        exhausted += st["exhausted"]
        for t in tr:
            key = t["scenario"] + json.dumps(t["ev"])
            if key not in seen:
                seen.add(key)
                traces.append(t)
    limit = 24000 if c.quick else 400000
    if len(traces) > limit:
        traces = c.rng.sample(traces, limit)
    c.notes.update({"schedules_run": runs, "scenarios": len(sc), "scenario_budget_pairs_exhausted": exhausted,
                    "distinct_histories": len(seen)})
    for t in traces[:3]:
        c.sample({"scenario": t["scenario"], "schedule": t["sched"], "events": t["ev"][:30]})
    env = {"CLAUSES": c.prop}
    rej = c.traces("QueueTrace", "QueueTrace.cfg", traces, env=env, chunk=1500)
    good = [t for t in traces if not any(t is r for r, _ in rej)]
    c.self_test("QueueTrace", "QueueTrace.cfg", corrupt(good, c.prop), env=env) if not rej else None
    if c.prop == "C02":   # histories that leave the specification before their end are C01's business
        c.notes["histories_undecided"] = sum(1 for t, pos in rej if pos != len(t["ev"]))
        rej = [(t, pos) for t, pos in rej if pos == len(t["ev"])]
    for t, pos in rej[:10]:
        c.violation("history of scenario %s rejected by the queue specification at event %d: %s" % (
            t["scenario"], pos, json.dumps(t["ev"][pos - 1] if pos <= len(t["ev"]) else None)), t)
    c.assumptions += ["sequentially consistent memory between synchronisation calls (scheduler runs one thread at a time)",
                      "schedules: all with at most the stated preemptions per scenario until the budget, then random ones"]
