"""C21: concurrency."""
import core, sources, ssa, srt, vtt, stlt, stlb, stlw, iso, raws, c17


def job(r, kind=None):
    """Something to do for a thread"""
    kind = kind or r.choice(["iso", "iso", "srt", "vtt", "ssa", "stlt", "stlb", "stlb", "write", "write", "chain", "dump", "factory", "time", "table"])
    if kind == "iso":
        ops = []
        for _ in range(r.randrange(1, 4)):
            if r.random() < .5:
                ops.append(["d", [r.choice([r.randrange(32, 127), r.randrange(0xa1, 0x100), r.randrange(0xc1, 0xd0)]) for _ in range(r.choice([1, 5, 20]))]])
            else:
                ops.append(["e", [r.choice([r.randrange(32, 127), r.randrange(0xa0, 0x180), 0x2014, 0x2122, 0x266a]) for _ in range(r.choice([1, 5, 20]))]])
        return iso.case(ops)
    if kind == "write":
        return stlw.case(stlw.job(r), "back")
    if kind == "chain":
        return stlw.chain(r)
    if kind == "dump":
        return c17.case(raws.fragments(r, r.choice([1, 3, 8])), [])
    if kind == "time":
        n, d = r.choice([(25, 1), (24000, 1001)])
        return {"op": "read", "fmt": "stlb", "src": "istream", "in": stlb.document(r).hex(), "meta": 1, "fields": 1, "dump": 1}
    if kind == "table":
        return {"op": "table", "k": "language_e", "n": r.randrange(100)}
    vu = hu = 5760
    if kind == "factory":
        data = srt.document(r, bad=.2)
        return {"op": "read", "fmt": "srt", "src": "factory", "name": r.choice([b"a.srt", b"a.SRT"]).hex(), "in": data.hex(), "vu": vu, "hu": hu}
    if kind == "srt":
        data = srt.document(r, bad=.3)
    elif kind == "vtt":
        data = vtt.document(r, bad=.3)
    elif kind == "ssa":
        data, rx, ry = ssa.document(r, bad=.2)
        vu, hu = 20 * ry, 20 * rx
    elif kind == "stlt":
        data = stlt.document(r)
    else:
        data = stlb.document(r)
    c = {"op": "read", "fmt": kind, "src": "istream" if kind in ("stlt", "stlb") else r.choice(["string", "file"]), "in": data.hex(), "vu": vu, "hu": hu, "meta": 1, "dump": 1}
    if kind == "stlb":
        c["fields"] = 1
    return c


def case(jobs, schedule=None, reps=1):
    c = {"op": "threads", "jobs": jobs, "reps": reps, "alarm": 180}
    if schedule is not None:
        c["schedule"] = schedule
    return c


def shrink(x):
    x = {k: v for k, v in x.items() if k not in ("fds", "id")}
    for k, v in x.items():
        if k != "err" and len(core.json.dumps(v)) > 400:
            x[k] = core.hashlib.sha256(core.json.dumps(v, sort_keys=True).encode()).hexdigest()
    return x


def record(c, o):
    return {"err": o["err"], "together": [[shrink(x) for x in t] for t in o.get("together", [])], "alone": [shrink(x) for x in o.get("alone", [])]}


def describe(c, x, o):
    if o["err"]:
        return "%s: jobs %s, schedule %s: %s" % (x, core.json.dumps(c["jobs"])[:800], c.get("schedule"), o.get("stderr", "")[:600])
    for i, (t, a) in enumerate(zip(o["together"], o["alone"])):
        for y in t:
            for k in y:
                if k != "fds" and y[k] != a.get(k):
                    return "%s: thread %d of jobs %s, schedule %s: %s is %s and alone %s" % (x, i, core.json.dumps(c["jobs"])[:800], c.get("schedule"), k, str(y[k])[:300], str(a.get(k))[:300])
    return "%s: %s" % (x, core.json.dumps(c)[:800])


def quotas(turns, steps, points):
    """Turns of the model as allocations: each thread's steps are spread evenly over its points"""
    at, out = {}, []
    for t, n in turns:
        a = at.get(t, 0)
        at[t] = a + n
        p = points[t - 1]
        x = min(p, (a + n) * p // steps[t]) - min(p, a * p // steps[t])
        out.append([t - 1, max(0, x)])
    return out


def run(c):
    th = core.THOROUGH
    r = c.rng
    invs = ["SameAsAlone", "Once", "Whole", "NoDeadlock"]
    scheds = []
    for threads, entries, lookups, segs in ((2, 3, 2, 7 if th else 5), (3, 2, 1, 6 if th else 5)):
        consts = {"Threads": "{%s}" % ",".join(str(i + 1) for i in range(threads)), "Entries": entries, "Lookups": lookups, "Segments": segs}
        t = core.mc("MCConcurrent", consts, invs + ["Emit"])
        c.spec_states(t)
        xs = list(t.json())
        c.exhaustive.append("%d threads, every schedule of up to %d turns of the model: %d" % (threads, segs, len(xs)))
        scheds += [(threads, x["turns"]) for x in xs]
        t = core.mc("MCConcurrent", dict(consts, Segments=1), ["NoDeadlock"], spec="FairSpec", properties=["AllEnd"])
        c.spec_states(t)

    # how long each job is
    pool = [job(r, k) for k in ["iso"] * 8 + ["stlb", "stlb", "write", "write", "chain", "srt", "vtt", "ssa", "stlt", "dump", "factory"]]
    obs = core.run_cases([case([dict(j)], [], 1) for j in pool], "plain")
    pool = [(j, o["points"][0]) for j, o in zip(pool, obs) if o["err"] == ""]
    conv = pool[:8]

    # schedules of the model, spread over the jobs
    cases = []
    pick = scheds if th else r.sample(scheds, min(len(scheds), 500))
    for n, turns in pick:
        # (often the first to use the tables)
        js = [r.choice(conv if r.random() < .6 else pool) for _ in range(n)]
        steps = {t: sum(k for u, k in turns if u == t) or 1 for t in range(1, n + 1)}
        cases.append(case([dict(j[0]) for j in js], quotas(turns, steps, [j[1] for j in js])))
    obs = c.record("schedules of the model", "TraceConcurrent", cases, record, variant="plain", describe=describe)
    c.count("turns taken", sum(o.get("switches", 0) for o in obs))
    c.count("turns lost to waiting", sum(o.get("stalls", 0) for o in obs))

    # the first conversion stopped at every allocation while others do theirs
    cases = []
    for rep in range(4 if th else 1):
        for pts in [max(conv, key=lambda x: x[1])[1]]:
            for k in range(pts):
                a = r.choice(conv)
                js = [a] + [r.choice(conv if r.random() < .7 else pool) for _ in range(r.choice([1, 1, 2]))]
                cases.append(case([dict(j[0]) for j in js], [[0, k]] + [[i, 10 ** 9] for i in range(1, len(js))] + [[0, 10 ** 9]]))
    obs = c.record("stopped at each allocation", "TraceConcurrent", cases, record, variant="plain", describe=describe)
    c.count("turns taken", sum(o.get("switches", 0) for o in obs))

    # random schedules
    cases = []
    for _ in range(2000 if th else 150):
        n = r.choice([2, 2, 3, 4])
        js = [r.choice(pool) for _ in range(n)]
        cases.append(case([dict(j[0]) for j in js], [[r.randrange(n), r.choice([1, 2, 5, 20, 100, 400])] for _ in range(r.randrange(2, 60))]))
    c.record("random schedules", "TraceConcurrent", cases, record, variant="plain", describe=describe)

    # let loose, with every unsynchronised access reported
    cases = []
    kinds = ["iso", "srt", "vtt", "ssa", "stlt", "stlb", "write", "chain", "dump", "factory", "table"]
    for k in kinds:
        for same in (True, False):
            j = job(r, k)
            cases.append(case([dict(j) if same else job(r, k) for _ in range(4)], reps=3))
    for _ in range(600 if th else 40):
        cases.append(case([job(r) for _ in range(r.choice([2, 4, 8]))], reps=r.choice([1, 2, 5])))
    c.record("let loose under ThreadSanitizer", "TraceConcurrent", cases, record, variant="tsan", describe=describe)
    c.assumptions.append("ThreadSanitizer does not see inside the C++ and Boost libraries, which are not instrumented")
