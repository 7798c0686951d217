"""C22: the small values."""
import core, raws

LAWS = ["VLaws", "HLaws", "SizeLaws", "SubLaws", "ColourLaws", "BothLaws", "RatLaws", "Emit"]


def model(c, kind, big):
    t = core.mc("MCValues", {"Kind": '"%s"' % kind, "Big": "TRUE" if big else "FALSE"}, LAWS)
    c.spec_states(t)
    xs = list(t.json())
    c.exhaustive.append("%s: %d" % (kind, len(xs)))
    return xs


def value(k, **more):
    return dict(more, op="value", k=k)


def vcase(a, b, V, fu):
    return value("v", a=a, b=b, vu=V, fu=fu)


def denominator(v, V):
    return V if v[3] else v[2][0] if v[2] else 1


def record(c, o):
    r = {k: v for k, v in c.items() if k not in ("op", "id", "vu", "hu")}
    if "vu" in c:
        r["V"] = c["vu"]
    if "hu" in c:
        r["H"] = c["hu"]
    if "x" in r:
        r["x"] = list(bytes.fromhex(r["x"]))
    r["o"] = {k: v for k, v in o.items() if k != "id"}
    return r


def describe(c, x, o):
    return "%s gave %s" % (core.json.dumps(c), core.json.dumps(o))


def run(c):
    th = core.THOROUGH
    r = c.rng
    d = lambda x, o: "%s gave %s" % (core.json.dumps(x)[:1500], core.json.dumps(o)[:500])

    none = [-1, [], [], []]
    c.replay("where positions are", model(c, "vone", th), lambda x: vcase(x["a"], none, 100, 2 * 100 * 12 * 23),
             lambda x, o: o["err"] == "" and o["fa"] * x["f"][1] == x["f"][0] * 2 * 100 * 12 * 23 and o["fb"] == 0, describe=d)
    c.replay("pairs of positions", model(c, "v", th), lambda x: vcase(x["a"], x["b"], 100, 100),
             lambda x, o: o["err"] == "" and (o["eq"] == int(x["eq"]) or not x["sure"]) and (o["lt"] == 1 or not x["lt"]) and (o["lt"] == 0 or not x["gt"] and not x["same"]), describe=d)
    c.replay("pairs of horizontal positions", model(c, "h", th), lambda x: value("h", a=x["a"], b=x["b"], hu=3996), lambda x, o: o["err"] == "" and o["eq"] == int(x["eq"]), describe=d)

    def agree_fs(x, o):
        if o["err"] or o["spec"] != int(x["spec"]) or o["obs"] != x["a"]:
            return False
        return not x["spec"] or o["pr"] * x["pr"][1] == x["pr"][0] * 100 * x["h"] and o["pt"] in x["pt"]
    c.replay("sizes of fonts", model(c, "fs", th), lambda x: value("fs", a=x["a"], height=x["h"], vu=100, pu=100 * x["h"]), agree_fs, describe=d)
    c.replay("pairs of sizes", model(c, "fscmp", th), lambda x: value("fscmp", a=x["a"], b=x["b"], vu=100), lambda x, o: o["err"] == "" and o["eq"] == int(x["eq"]), describe=d)
    c.replay("sizes given in two ways", model(c, "fsb", th), lambda x: value("fsb", a=x["a"], b=x["b"], vu=100, height=288, pu=28800),
             lambda x, o: o["err"] == "" and o["eq"] == int(x["eq"]) and o["spec"] == int(x["spec"]) and (not x["spec"] or o["pr"] * x["pr"][1] == x["pr"][0] * 28800 and o["pt"] in x["pt"]), describe=d)
    c.replay("rational numbers", model(c, "rat", th), lambda x: value("rat", a=x["a"], b=x["b"]),
             lambda x, o: o["err"] == "" and o["eq"] == int(x["eq"]) and o["whole"] == int(x["whole"]) and o["floor"] == x["floor"] and o["f"] == x["a"][0] and o["max"] in x["mx"], describe=d)
    xs = model(c, "rgb", th)
    # what is after the digits that are needed is ignored, and there have to be enough
    c.replay("colours of three parts", xs, lambda x: value("rgb", x=bytes(x["x"]).hex()),
             lambda x, o: o["err"] == "" and o["c"] == x["c"] if x["c"] else len(x["x"]) > 4 or o["err"] == "XMLError", describe=d)
    c.replay("colours of four parts", xs, lambda x: value("rgba", x=bytes(x["x"]).hex()),
             lambda x, o: o["err"] == "" and o["c"] == x["c"] if x["full"] else len(x["x"]) > 6 or o["err"] == "XMLError", describe=d)
    xs = [x for x in xs if x["c"] and len(x["x"]) == 6]
    if not th:
        c.replay("colours with alpha", r.sample(xs, 400), lambda x: value("rgba", x=(bytes(x["x"]) + b"%02X" % r.randrange(256)).hex()), lambda x, o: o["err"] == "" and o["c"] == x["c"], describe=d)
    c.replay("blank texts", model(c, "blank", th), lambda x: value("white", x=bytes(x["x"]).hex()), lambda x, o: o["err"] == "" and o["e"] == int(x["blank"]), describe=d)

    def sub(s):
        return raws.hexed_sub(s)
    c.replay("pairs of subtitles", model(c, "sub", th), lambda x: value("subeq", a=sub(x["a"]), b=sub(x["b"]), vu=100, hu=100),
             lambda x, o: o["err"] == "" and o["eq"] == o["qe"] and not x["sure"] or o["eq"] == o["qe"] == int(x["eq"]) and o.get("leq", 0) <= 1
             and ("leq" not in o or (x["a"]["l"] == x["b"]["l"]) == bool(o["leq"])) and ("beq" not in o or (x["a"]["l"][0]["b"] == x["b"]["l"][0]["b"]) == bool(o["beq"])), describe=d)

    # words
    WORDS = {"effect": ("e", {"none": "", "border": "border", "shadow": "shadow"}), "vref": ("v", {"top": 0, "center": 1, "bottom": 2})}
    xs = [(k, w) for k in WORDS for w in ["none", "border", "shadow", "top", "center", "bottom", "", "None", "BORDER", "centre", "top ", " top", "borde", "borderx", "middle", "left"]]
    c.replay("words", xs, lambda x: value(x[0], x=x[1].encode().hex()),
             lambda x, o: o["err"] == "" and o[WORDS[x[0]][0]] == WORDS[x[0]][1][x[1]] if x[1] in WORDS[x[0]][1] else o["err"] == "XMLError")
    blk = {"t": [], "s": [0, 0, 0], "c": [255, 255, 255], "e": "", "ec": [], "fn": [], "fs": ["", 0]}

    def agree_defaults(x, o):
        raw = dict(blk, h=[1, 0], v=none, f=[0, 0, 0, 0], o=[0, 0, 0, 0], fu=[], fd=[])
        return o["err"] == "" and o["n"] == 0 and o["raw"] == raw and o["block"] == blk and o["lh"] == [1, 0] and o["lv"] == none
    c.replay("values nobody has set", [0], lambda x: value("defaults"), agree_defaults, describe=d)

    # random values
    n = 20000 if th else 2500
    cases = []

    def v():
        V = 100
        opt = lambda f: [f()] if r.random() < .6 else []
        return [r.choice([-1, 0, 0, 1, 1, 2, 2, 3]), opt(lambda: r.randrange(-5, 40)), opt(lambda: r.choice([23, 12, 24, r.randrange(1, 100)])), opt(lambda: r.choice([0, 50, 100, r.randrange(-50, 150)]))]
    for _ in range(n):
        a = v()
        b = list(a) if r.random() < .3 else v()
        if r.random() < .5:
            b = [a[i] if r.random() < .7 else b[i] for i in range(4)]
        cases.append(vcase(a, b, 100, 2 * denominator(a, 100) * denominator(b, 100)))
    for _ in range(n):
        h = r.choice([72, 288, 792, 1080, 2160, r.randrange(1, 3000)])
        a = r.choice([["", 0], ["pt", r.randrange(0, 2 * h + 1)], ["pt", r.randrange(0, 100)]] + 3 * [["pr", r.randrange(0, 1500)]])
        if a[0] == "pr" and (2 * a[1] * h) % 1000 == 0 and (2 * a[1] * h // 1000) % 2:
            continue        # halves may be rounded either way
        cases.append(value("fs", a=a, height=h, vu=1000, pu=h if a[0] == "pt" else 1000))
    for _ in range(n // 5):
        cases.append(value("h", a=[r.randrange(3), r.randrange(3996)], b=[0, 0], hu=3996))
        a = cases[-1]["a"]
        cases[-1]["b"] = [a[0] if r.random() < .8 else r.randrange(3), a[1] + r.choice([-1, 0, 1, 3, -3, 5, r.randrange(-100, 100)])]
        if abs(cases[-1]["b"][1] - a[1]) == 2:
            cases[-1]["b"][1] = a[1]
        k = r.choice(["rgb", "rgba"])
        x = "".join(r.choice("0123456789abcdefABCDEF") for _ in range(6 if k == "rgb" and r.random() < .8 else 8))
        cases.append(value(k, x=x.encode().hex()))
        cases.append(value("white", x=bytes(r.choice([32, 32, 9, 10, 32, 10, r.randrange(256)]) for _ in range(r.randrange(8))).hex()))
    c.record("random values", "TraceValues", cases, record, describe=describe)
