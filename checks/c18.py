"""C18: locales."""
import os, subprocess
import core, sources, ssa, stlb, stlw, iso, srt, raws, c17

# name as the C library knows it: (source, character map)
LOCALES = {"de_DE.UTF-8": ("de_DE", "UTF-8"), "fr_FR.UTF-8": ("fr_FR", "UTF-8"), "de_CH.UTF-8": ("de_CH", "UTF-8"), "ps_AF.UTF-8": ("ps_AF", "UTF-8"),
           "tr_TR.ISO-8859-9": ("tr_TR", "ISO-8859-9"), "odd.UTF-8": ("odd", "UTF-8")}
# in the specification
SPEC = {"C": "C", "de_DE.UTF-8": "de", "fr_FR.UTF-8": "fr", "de_CH.UTF-8": "ch", "ps_AF.UTF-8": "ps", "odd.UTF-8": "odd"}
ODD = """comment_char %%
escape_char /
%s
LC_NUMERIC
decimal_point "'"
thousands_sep ","
grouping 3;3
END LC_NUMERIC
"""


def compile_locales():
    """into a directory of our own"""
    d = os.path.join(core.work(), "locales")
    os.makedirs(d)
    with open(os.path.join(d, "odd.src"), "w") as f:
        f.write(ODD % "\n".join('LC_%s\ncopy "en_GB"\nEND LC_%s' % (k, k) for k in ("CTYPE", "COLLATE", "MONETARY", "TIME", "MESSAGES", "PAPER", "NAME", "ADDRESS", "TELEPHONE", "MEASUREMENT", "IDENTIFICATION")))
    ps = []
    for name, (src, cm) in LOCALES.items():
        ps.append(subprocess.Popen(["localedef", "-c", "-i", os.path.join(d, "odd.src") if src == "odd" else src, "-f", cm, os.path.join(d, name)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT))
    for p, name in zip(ps, LOCALES):
        out = p.communicate()[0]
        if not os.path.exists(os.path.join(d, name, "LC_NUMERIC")):
            raise core.CheckError("localedef failed: %s" % out.decode(errors="replace")[-500:])
    return d


def case(inner, locs):
    return {"op": "locales", "locs": ["C"] + locs, "case": inner, "alarm": 120}


def record(c, o):
    a = o.get("all") or [{"err": o["err"]}]
    out = []
    for r in a:
        r = dict(r)
        r.pop("id", None)
        for k, v in r.items():
            if k != "err" and len(core.json.dumps(v)) > 1500:
                r[k] = core.hashlib.sha256(core.json.dumps(v, sort_keys=True).encode()).hexdigest()
        out.append(r)
    return {"locs": c["locs"], "all": out}


def describe(c, x, o):
    k = c["case"]
    what = core.show(core.ints(k["in"]))[:600] if "in" in k else core.json.dumps(k)[:600]
    a = o.get("all", [])
    for i in range(1, len(a)):
        if a[i] != a[0]:
            for f in a[0]:
                if a[i].get(f) != a[0][f]:
                    p, q = core.json.dumps(a[0][f]), core.json.dumps(a[i].get(f))
                    n = next((j for j in range(min(len(p), len(q))) if p[j] != q[j]), 0)
                    return "%s: %s %s: %s is ...%s under C and ...%s" % (x, k["op"], what, f, p[max(0, n - 80):n + 150], q[max(0, n - 80):n + 150])
    return "%s: %s %s" % (x, k["op"], what)


# texts with every mark in them where a number may be
NUM = [b"1,5", b"1.5", b"12.345", b"12,345", b"1.234.567", b"1'5", b"36,5", b".5", b",5", b"3.", b"3,", b"0x1,8", b"1e2", b"1\xd9\xab5", b"-1.5", b"1 000"]


def numbers(r, data):
    """Some of the numbers of a file written in strange ways"""
    out, i = b"", 0
    for m in core.re.finditer(rb"\d+([.,]\d+)?", data):
        if r.random() < .08:
            out += data[i:m.start()] + r.choice(NUM)
            i = m.end()
    return out + data[i:]


def run(c):
    th = core.THOROUGH
    env = {"LOCPATH": compile_locales()}
    names = list(LOCALES)

    t = core.mc("MCLocale", {"Depth": 5 if th else 4}, ["Same", "AsFar", "Emit"])
    c.spec_states(t)
    xs = list(t.json())
    c.exhaustive.append("every text of up to %d chunks of 8 kinds as a number, under 6 locales: %d" % (5 if th else 4, len(xs)))

    def to_case(x, margins=False):
        v = bytes(x["in"])
        head = b"[Script Info]\nPlayResX: 1000\nPlayResY: 1000\n[V4+ Styles]\nFormat: Name, Fontsize, Alignment, MarginV\nStyle: Default,%s,7,%s\n" % ((v, v) if margins else (b"20", b"0"))
        text = b"[Events]\nFormat: Start, End, Style, MarginV, Text\nDialogue: 0:00:01.00,0:00:02.00,Default,%s," % (v if margins else b"0")
        return case({"op": "read", "fmt": "ssa", "src": "string", "in": (head + text + (b"x" if margins else b"{\\fs" + v + b"}x{\\pos(" + v.replace(b",", b".") + b",7)}y")).hex(),
                     "vu": 100000, "hu": 100000}, [l for l in names if l in SPEC])

    def agree(x, o):
        return o["err"] == "" and all(r["err"] == "" and len(r["subs"]) == 2 and r["subs"][0]["fs"] == ["pr", x["value"]] and r["subs"] == o["all"][0]["subs"] for r in o["all"])

    def agree_margins(x, o):
        return o["err"] == "" and all(r["err"] == "" and len(r["subs"]) == 1 and r["subs"][0]["fs"] == ["pr", x["whole"] * 100] and r["subs"][0]["v"][3] == [x["value"]] for r in o["all"])
    d = lambda x, o: "the number %s (%s hundredths) gave %s" % (core.show(x["in"]), x["value"], core.json.dumps([[s["fs"], s["v"]] for r in o.get("all", []) for s in r.get("subs", [])])[:600])
    c.replay("numbers in override tags", xs, to_case, agree, env=env, describe=d)
    c.replay("numbers in columns", [x for x in xs if 44 not in x["in"]], lambda x: to_case(x, True), agree_margins, env=env, describe=d)

    r = c.rng
    pick = lambda: r.sample(names, 2)
    n = 4000 if th else 500
    cases = []
    for _ in range(n):
        fmt, data, vu, hu = sources.document(r)
        if r.random() < .5 and fmt != "stlb":
            data = numbers(r, data)
        k = {"op": "read", "fmt": fmt, "src": "istream" if fmt in ("stlb", "stlt") else r.choice(sources.SRCS[fmt]), "in": data.hex(), "vu": vu, "hu": hu, "meta": 1, "dump": 1}
        if k["src"] == "factory":
            k["name"] = r.choice([b"x.srt", b"x.SRT"]).hex()
        if fmt == "stlb":
            k["fields"] = 1
        cases.append(case(k, pick()))
    c.record("reading and dumping", "TraceLocale", cases, record, env=env, describe=describe)
    cases = []
    for _ in range(n // 2):
        k = stlw.case(stlw.job(r), "back") if r.random() < .6 else stlw.chain(r)
        k.update(back=1, fields=1)
        cases.append(case(k, pick()))
    for _ in range(n // 8):
        # (large counts)
        j = stlw.job(r, 0)
        s = stlw.subtitle(r, j["V"])
        j["subs"] = [s] * r.choice([999, 1000, 1001, 1234])
        cases.append(case(dict(stlw.case(j, "out"), op="write"), [r.choice(names)]))
        if len(cases) > n // 2 + (30 if th else 4):
            break
    c.record("writing binary STL and reading it back", "TraceLocale", cases, record, env=env, describe=describe)
    cases = []
    for _ in range(n // 3):
        ops = []
        for _ in range(r.randrange(1, 5)):
            if r.random() < .5:
                ops.append(["d", [r.randrange(1, 256) for _ in range(r.choice([0, 3, 10, 40]))]])
            else:
                ops.append(["e", [r.choice([r.randrange(1, 0x180), r.randrange(1, 0x800), r.randrange(0x2000, 0x2200)]) for _ in range(r.choice([0, 3, 10, 40]))]])
        cases.append(case(iso.case(ops, int(r.random() < .2)), pick()))
    c.record("converting characters", "TraceLocale", cases, record, env=env, describe=describe)
    cases = [case(c17.case(raws.fragments(r, r.choice([1, 3, 8])), []), pick()) for _ in range(n // 5)]
    c.record("dumping", "TraceLocale", cases, record, env=env, describe=describe)
