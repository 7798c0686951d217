"""C15: ISO 6937 conversion."""
import core, iso

DEC = ["Emit", "DecodeByPosition", "NoNul", "DecodeConcatenates", "Reencodes", "RightInverse"]
ENC = ["Emit", "RightInverse", "EncodeConcatenates", "EncodeNoNul"]


def groups(l, n):
    return [l[i:i + n] for i in range(0, len(l), n)]


def describe(x, o):
    for p, w, g in zip(x["ops"], x["x"], o.get("res", [])):
        if not iso.same(p, w, g):
            return "%s %s should give %s and gave %s" % ("decoding" if p[0] == "d" else "encoding", p[1], w, g)
    return "conversions %s gave %s" % (str(x["ops"])[:200], str(o)[:200])


def replay(c, label, pairs, n=200, fork=0):
    """pairs: [(op, expected)]; several make up a case"""
    xs = [{"ops": [p[0] for p in g], "x": [p[1] for p in g]} for g in groups(pairs, n)]
    c.replay(label, xs, lambda x: iso.case(x["ops"], fork), lambda x, o: iso.agree(x["ops"], x["x"], o), describe=describe)
    c.count(label + " (conversions)", len(pairs))


def run(c):
    th = core.THOROUGH
    t = core.mc("MCISO6937", {"Mode": '"all"', "Depth": 2 if th else 1}, DEC)
    c.spec_states(t)
    pairs = []
    for v in t.json():
        for b, x in enumerate(v["x"]) if isinstance(v["x"], list) else sorted((int(k), y) for k, y in v["x"].items()):
            if b not in (201, 204):
                pairs.append((["d", v["p"] + [b]], x))
    replay(c, "byte strings of length %d" % (3 if th else 2), pairs)
    t = core.mc("MCISO6937", {"Mode": '"few"', "Depth": 4 if th else 3}, DEC)
    c.spec_states(t)
    replay(c, "byte strings over one of each kind", [(["d", v["d"]], v["x"]) for v in t.json()])
    c.exhaustive.append("every byte string of up to %d bytes, and up to %d of 23 kinds" % (3 if th else 2, 4 if th else 3))

    t = core.mc("MCISO6937", {"Mode": '"chars"', "Depth": 3 if th else 2}, ENC)
    c.spec_states(t)
    vs = list(t.json())
    table = {k: v for k, v in next(v for v in vs if "table" in v)["table"]}
    replay(c, "character strings of each kind", [(["e", v["e"]], v["x"]) for v in vs if "e" in v])
    # every character there is, together with its way back
    top = 0x110000 if th else 0x3000
    codes = [u for u in range(1, top) if not 0xd800 <= u < 0xe000] + ([] if th else c.rng.sample(range(0x3000, 0x110000), 3000))
    replay(c, "single characters", [(["e", [u]], table.get(u, [])) for u in codes], 1000)
    c.exhaustive.append("every Unicode character up to %x on its own" % (top - 1))
    stand = {0x201e, 0x2013, 0x2014, 0x2010, 0x2011, 0x2012, 0x2032}
    replay(c, "way back of every carried character", [(["d", b], [u]) for u, b in table.items() if u not in stand])

    t = core.mc("MCISOHistory", {"Depth": 3 if th else 2}, ["Independent", "Emit"])
    c.spec_states(t)
    hs = list(t.json())
    c.replay("histories from a fresh process", hs, lambda x: iso.case(x["ops"], 1), lambda x, o: iso.agree(x["ops"], x["x"], o), describe=describe)

    r = c.rng
    cases = []
    ok = [b for b in range(256) if b not in (201, 204)]
    keys = list(table)
    for _ in range(3000 if th else 400):
        ops = []
        for _ in range(r.randrange(1, 7)):
            if r.random() < .5:
                a = r.choice([ok, ok, [65, 101, 97, 111, 67, 122] + list(range(193, 201)) + [202, 203, 205, 206, 207]])
                ops.append(["d", [r.choice(a) for _ in range(r.choice([0, 3, 10, 40]))]])
            else:
                ops.append(["e", [r.choice(keys) if r.random() < .7 else r.choice([r.randrange(1, 0x800), r.randrange(0x2000, 0x2200), r.randrange(0x10000, 0x110000)]) for _ in range(r.choice([0, 3, 10, 40]))]])
        cases.append(iso.case(ops))
    c.record("random histories", "TraceISO6937", cases, iso.record)
