"""C20: truncated input and failing output."""
import core, sources, stlb, stlw


def describe(c, x, o):
    return "%s: %s" % (x, core.json.dumps({k: v for k, v in c.items() if k in ("kind", "limit", "script", "pre", "have", "announced", "src")}))


def blocks(n):
    return [stlb.block({"ebn": 255, "tci": [0, 0, i, 0], "tco": [0, 0, i, 20], "vp": i % 20, "jc": 2, "cf": 0, "text": b"Row %d" % i}) for i in range(n)]


def wcase(job, kind, **more):
    c = stlw.case(job, "file", **more)
    c.update(op="writefault", kind=kind, alarm=60)
    return c


def faulty_sources(c):
    """devices which hand over their contents in portions, or fail"""
    th = core.THOROUGH
    r = c.rng
    docs = {}
    for fmt in ("srt", "vtt", "ssa", "stlt", "stlb"):
        kinds = 4 if th else 2
        while len(docs.get(fmt, [])) < kinds:
            data = sources.small(r, fmt)
            o = core.run_cases([{"op": "read", "fmt": fmt, "src": sources.SRCS[fmt][0], "in": data.hex(), "vu": 5760, "hu": 5760}])[0]
            if o["err"] == "" and o["subs"]:
                docs.setdefault(fmt, []).append((data, core.deep_ints(o)["subs"]))
    sizes = set()
    need = {}
    for fmt in docs:
        for i, (data, subs) in enumerate(docs[fmt]):
            # (whether a reader of binary files looks for the end is its own affair)
            need[fmt, i] = (len(data), 1024 + 128 * int(data[238:243]) if fmt == "stlb" else len(data) + 1)
            sizes.add(need[fmt, i])
    t = core.mc("MCFaultsSource", {"Sizes": "{%s}" % ", ".join(str(10000 * a + b) for a, b in sorted(sizes)), "Kinds": "{0, 1, 2, 3}" if th else "{0, 1}"},
                ["Honest", "Whole", "Within", "Emit"], spec="Fair", properties=["Ends"])
    c.spec_states(t)
    xs = {}
    for x in t.json():
        xs.setdefault((x["n"], x["need"]), []).append(x)
    todo = []
    for (fmt, i), s in need.items():
        for src in {"srt": ["file", "factory"], "vtt": ["file"], "ssa": ["file"], "stlt": ["stream", "factory"], "stlb": ["stream", "file", "factory"]}[fmt]:
            for x in xs[s]:
                if fmt == "stlb" and not th and 20 < x["limit"] < 1000 and x["limit"] % 9:
                    continue
                todo.append((fmt, i, src, x))
    c.exhaustive.append("sources of %s bytes failing at any byte, in %d kinds of portions: %d" % (sorted(s[0] for s in sizes), 4 if th else 2, len(todo)))

    def case(y):
        fmt, i, src, x = y
        return {"op": "read", "fmt": fmt, "src": src, "name": sources.NAME[fmt].hex(), "in": docs[fmt][i][0].hex(), "vu": 5760, "hu": 5760, "device": {"portions": x["portions"], "limit": x["limit"]}}

    def agree(y, o):
        fmt, i, src, x = y
        if o["err"] in ("crash", "hang", "unknown") or o["fds"]:
            return False
        if o["err"] == "":
            return x["ok"] and o["subs"] == docs[fmt][i][1]
        # a failure beyond what is needed need not go unnoticed
        return x["limit"] >= 0
    c.replay("sources on failing devices", todo, case, agree, describe=lambda y, o: "%s of %d bytes from %s, failing at %d (portions %s) should %s: %s" % (
        y[0], y[3]["n"], y[2], y[3]["limit"], y[3]["portions"], "be read" if y[3]["ok"] else "be an error", str(o)[:600]))

    # names of nothing that can be read
    todo = [(src, name.decode()) for src in ("missing", "directory") for name in (b"x.srt", b"x.SRT", b"a b.stl", b"x.StL", b".x.stl", b"x.stl.srt", b"x.srt.stl")]
    c.replay("names of nothing that can be read", todo, lambda y: {"op": "read", "fmt": "?", "src": y[0], "in": "", "name": y[1].encode().hex()},
             lambda y, o: o["err"] not in ("", "crash", "hang", "unknown") and not o["fds"], describe=lambda y, o: "reading %r, which is %s: %s" % (y[1], y[0], str(o)[:300]))


def run(c):
    th = core.THOROUGH
    r = c.rng

    # ---- reading
    n, surplus = (4, 300) if th else (2, 130)
    t = core.mc("MCFaultsRead", {"MaxBlocks": n, "Surplus": surplus}, ["Refused", "NotBeyond", "All", "Emit"])
    c.spec_states(t)
    xs = list(t.json())
    c.exhaustive.append("files announcing up to %d blocks, cut at every byte or with up to %d to spare: %d" % (n, surplus, len(xs)))
    B = blocks(n + 4)

    def to_case(src):
        def f(x):
            data = (stlb.header(x["announced"]) + b"".join(B))[:x["have"]]
            return stlb.read_case(data, src)
        return f

    def agree(x, o):
        if not x["ok"]:
            return o["err"] == "STLError"
        return o["err"] == "" and [bytes(s["t"]) for s in stlb.solid(o["subs"])] == [b"Row %d" % i for i in range(x["announced"])] and [s["f"][0] for s in stlb.solid(o["subs"])] == list(range(x["announced"]))
    d = lambda x, o: "%d bytes of a file announcing %d blocks should %s: %s" % (x["have"], x["announced"], "be read" if x["ok"] else "be refused", str(o)[:300])
    for src in ("istream", "file", "factory"):
        # (a shorter start is not recognised as a binary file by the factory)
        ys = [x for x in xs if src != "factory" or x["have"] >= 11]
        if not th and src != "istream":
            ys = [x for x in ys if x["have"] % 4 == 0 or abs((x["have"] - 1024) % 128) in (0, 1, 127)]
        c.replay("cut at each byte, from %s" % src, ys, to_case(src), agree, describe=d)

    cases = []
    for _ in range(3000 if th else 400):
        data = stlb.document(r)
        k = r.randrange(4)
        if k < 2:
            data = data[:r.randrange(len(data) + 1)]
        elif k == 2:
            data += bytes(r.choice([0, 0x8f, 32, r.randrange(256)]) for _ in range(r.choice([1, 2, 127, 128, 129, r.randrange(1, 400)])))
        else:
            # announces more, or fewer, blocks than there are
            m = (len(data) - 1024) // 128 if len(data) > 1024 else 0
            data = data[:238] + b"%05d" % max(0, m + r.choice([-2, -1, 1, 2, 10, 99999 - m])) + data[243:]
        cases.append(stlb.read_case(data, r.choice(["istream", "file"]), full=1))
    c.record("random files, cut, extended or announcing otherwise", "TraceSTLBinary", cases, stlb.record,
             describe=lambda c, x, o: "%d bytes announcing %s blocks: expected %s, got %s" % (len(c["in"]) // 2, core.show(core.ints(c["in"])[238:243]), str(x)[:300], str({k: v for k, v in o.items() if k != "subs"})[:300]))

    faulty_sources(c)

    # ---- writing
    t = core.mc("MCFaultsWrite", {"MaxUnits": 5 if th else 4, "MaxBuf": 3, "MaxScript": 4 if th else 3}, ["Honest", "Reason", "Beginning", "Emit"])
    c.spec_states(t)
    scripts = list(t.json())
    t = core.mc("MCFaultsWrite", {"MaxUnits": 3, "MaxBuf": 2, "MaxScript": 2}, ["Honest"], spec="Fair", properties=["Ends"])
    c.spec_states(t)

    small = stlw.job(r, 0)
    small["subs"] = [stlw.subtitle(r, small["V"]) for _ in range(2)]
    large = stlw.job(r, 0)
    large["subs"] = [stlw.subtitle(r, large["V"]) for _ in range(90)]
    empty = stlw.job(r, 0)
    whole = {}
    for name, j in (("small", small), ("large", large), ("empty", empty)):
        o = core.run_cases([stlw.case(j, "file")])[0]
        whole[name] = o.get("out", "")
    jobs = {"small": small, "large": large, "empty": empty}
    size = {k: len(v) // 2 for k, v in whole.items()}
    c.record("the jobs themselves", "TraceSTLWrite", [stlw.case(j, "file") for j in jobs.values()], stlw.record, describe=stlw.describe, constants={"What": '"file"'})

    todo = []
    for name in jobs:
        n = size[name]
        limits = range(0, n + 3) if th or name == "small" and n < 2200 else sorted(set([0, 1, 1023, 1024, 1025, n - 129, n - 128, n - 127, n - 1, n, n + 1, n + 1000] +
                                                                   [k for e in (4096, 8191, 8192, 16384) for k in (e - 1, e, e + 1) if k < n] + [r.randrange(n) for _ in range(150)]))
        for l in limits:
            if l >= 0:
                todo.append((name, "limit", {"limit": l}, l >= n))
        for pre in (0, 1, n - 1, n, n + 1, 3 * n):
            todo.append((name, "none", {"pre": max(0, pre)}, True))
            todo.append((name, "limit", {"pre": max(0, pre), "limit": r.randrange(max(1, n))}, n == 0))
        for kind in ("dir", "isdir", "full", "nofile"):
            todo.append((name, kind, {}, False))
        for x in scripts:
            for star in ("", "*") if x["script"] else ("",):
                s = "".join(x["script"]) + star
                # (what can be done about interruptions is not specified: only that nothing is lost)
                todo.append((name, "script", {"script": s, "pre": 5 * n if x["old"] else 0}, "n" not in s and "i" not in s and (star == "" or "s" not in s)))
            if len(x["script"]) == 2:
                todo.append((name, "script", {"script": "".join(x["script"]).replace("i", "e")}, False))

    def agree_w(x, o):
        name, kind, more, fine = x
        if o["err"] in ("crash", "hang"):
            return False
        if o["err"] == "":
            # success means that the file is there, whole
            return kind in ("limit", "none", "script") and bytes(o["out"]).hex() == whole[name]
        return not fine or kind == "script" and o.get("fails", 0) > 0
    d = (lambda x, o: "writing the %s job (%d bytes) with %s %s: error %r, file of %d bytes" % (x[0], size[x[0]], x[1], x[2], o.get("err"), len(o.get("out", "")) // 2))
    obs = c.replay("failing at each byte or call", [x for x in todo if x[1] != "nofile"], lambda x: wcase(jobs[x[0]], x[1], **x[2]), agree_w, describe=d)
    c.count("write calls made to fail", sum(o.get("fails", 0) for o in obs))
    # (the sanitizers themselves open files)
    c.replay("out of file descriptors", [x for x in todo if x[1] == "nofile"], lambda x: wcase(jobs[x[0]], x[1], **x[2]), agree_w, variant="plain", describe=d)
    c.exhaustive.append("a device with room for any number of bytes of a file of %d; all scripts of up to %d outcomes of write calls" % (size["small"], 4 if th else 3))
