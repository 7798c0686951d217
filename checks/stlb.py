"""Binary STL files as cases."""
import core

ITALIC, UNDERLINE = (0x80, 0x81), (0x82, 0x83)


def header(tti=0, rows=b"23", dfc=b"STL25.01", ds=b"0", lg=b"00", lang=b"09", subs=1, rng=None):
    g = bytearray(b" " * 1024)

    def put(off, v):
        g[off:off + len(v)] = v
    put(0, b"850"); put(3, dfc); put(11, ds); put(12, lg); put(14, lang)
    for i, off in enumerate((16, 48, 80, 112, 144, 176, 277, 309, 341)):
        put(off, (b"Field %d" % i).ljust(32) if rng is None else bytes(rng.choice([32, 65, 233, rng.randrange(256)]) for _ in range(32)))
    put(208, b"0" * 16); put(224, b"140101"); put(230, b"140102"); put(236, b"01")
    put(238, b"%05d" % tti); put(243, b"%05d" % subs); put(248, b"001"); put(251, b"40"); put(253, rows); put(255, b"1")
    put(256, b"00000000"); put(264, b"00000000"); put(272, b"1"); put(273, b"1"); put(274, b"GBR")
    return bytes(g)


def block(b, sgn=0, sn=0, cs=0):
    t = bytes(b["text"])
    assert len(t) <= 112
    return bytes([sgn, sn & 255, sn >> 8, b["ebn"], cs]) + bytes(b["tci"]) + bytes(b["tco"]) + bytes([b["vp"], b["jc"], b["cf"]]) + t + b"\x8f" * (112 - len(t))


def read_case(data, src="istream", full=0):
    c = {"op": "read", "fmt": "stlb", "src": src, "in": data.hex()}
    if src == "factory":
        c["name"] = b"a.stl".hex()
    if full:
        c.update(fields=1, meta=1)
    return c


def solid(subs):
    return [r for r in subs if r["t"]]


def record(c, o):
    return {"in": list(bytes.fromhex(c["in"])), "full": c.get("fields", 0), "obs": {k: v for k, v in o.items() if k in ("err", "subs", "fields", "strings", "meta")}}


def describe(x, o):
    o = core.deep_ints(o)
    if o.get("err") != x.get("err", ""):
        return "reading gave error %r, expected %r" % (o.get("err"), x.get("err", ""))
    for k in ("fields", "strings", "meta"):
        if k in x and o.get(k) != x[k]:
            return "%s %s expected %s" % (k, str(o.get(k))[:500], str(x[k])[:500])
    a, b = solid(o["subs"]), x["subs"]
    for i in range(max(len(a), len(b))):
        p, q = (a[i] if i < len(a) else None), (b[i] if i < len(b) else None)
        if p != q:
            if p and q:
                d = [k for k in q if p.get(k) != q[k]]
                return "fragment %d: %s" % (i, ", ".join("%s %s expected %s" % (k, core.show(p[k]) if k == "t" else p[k], core.show(q[k]) if k == "t" else q[k]) for k in d))
            return "fragment %d: %s expected %s" % (i, p and core.show(p["t"]), q and core.show(q["t"]))
    return "?"


def describe_rec(c, x, o):
    return describe(x, o) + "; file %s..." % c["in"][:3000]


# ---- random files

CHARS = list(range(32, 127)) + [0xa1, 0xa4, 0xa9, 0xd0, 0xe1, 0xfb, 0x0a, 0xa6, 0xd8, 0xff]
ACC = [0xc1, 0xc2, 0xc3, 0xc4, 0xc5, 0xc6, 0xc7, 0xc8, 0xca, 0xcb, 0xcd, 0xce, 0xcf]


def text(r, n):
    t = []
    while len(t) < n:
        k = r.random()
        if k < .6:
            t.append(r.choice(CHARS))
        elif k < .7:
            t += [r.choice(ACC), r.choice(list(b"aeiouACNZcsz "))]
        elif k < .78:
            t.append(0x8a)
        elif k < .88:
            t.append(r.randrange(8))
        elif k < .97:
            t.append(r.choice([0x80, 0x81, 0x82, 0x83]))
        else:
            t.append(r.choice([0x8f, 0x84, 0x85, 0x0b, 0x0d, 0x1f, 0x9f, 0xa0, 0xc0, 0x7f, 0xc1]))
    return t[:n]


def tc(r):
    return [r.randrange(24), r.randrange(60), r.randrange(60), r.randrange(24)]


def subtitle(r):
    """The blocks of one subtitle"""
    vp, jc, f, o = r.randrange(24), r.choice([0, 1, 2, 3, 2, 4, 255]), tc(r), tc(r)
    n = r.choice([0, 1, 5, 20, 60, 111, 112, 112, 113, 200, 224, 225, 300])
    t = text(r, n)
    parts = []
    while True:
        # blocks need not be full
        m = 112 if r.random() < .6 else r.randrange(0, 113)
        if len(t) <= m:
            parts.append(t)
            break
        parts.append(t[:m])
        t = t[m:]
    out = []
    for i, p in enumerate(parts):
        last = i == len(parts) - 1
        out.append({"ebn": 255 if last else i, "tci": f, "tco": o, "vp": vp, "jc": jc, "cf": 0, "text": p})
        if not last and r.random() < .1:
            out.append({"ebn": 255, "tci": tc(r), "tco": tc(r), "vp": 3, "jc": 1, "cf": 1, "text": text(r, 20)})
    if r.random() < .1:
        out.insert(0, {"ebn": r.choice([255, 0]), "tci": tc(r), "tco": tc(r), "vp": 99, "jc": 1, "cf": 1, "text": text(r, 20)})
    return out


def long_chain(r, n):
    """A subtitle of n blocks, with a comment somewhere and another subtitle behind it"""
    f, o, rows = tc(r), tc(r), r.choice([b"23", b"99", b"11"])
    out = []
    for i in range(n):
        t = [] if r.random() < .1 else text(r, r.choice([112, 112, 112, 30]))
        if t:
            t[r.randrange(len(t))] = 0x8a
        out.append({"ebn": 255 if i == n - 1 else i, "tci": f, "tco": o, "vp": r.randrange(24), "jc": r.randrange(4), "cf": 0, "text": t})
    out.insert(r.randrange(n), {"ebn": r.choice([255, 3]), "tci": tc(r), "tco": tc(r), "vp": 3, "jc": 1, "cf": 1, "text": text(r, 20)})
    out += subtitle(r)
    return header(len(out), rows=rows) + b"".join(block(b) for b in out)


def document(r):
    blocks, n = [], r.choice([0, 1, 1, 2, 3, 6, 12])
    for _ in range(n):
        blocks += subtitle(r)
    tti = len(blocks)
    bad = r.random()
    g = bytearray(header(tti, rows=r.choice([b"23", b"23", b"99", b"11", b"00", b"12", b" 5", b"05"]), dfc=r.choice([b"STL25.01", b"STL23.01", b"STL24.01", b"STL30.01"]),
                         ds=r.choice([b" ", b"0", b"1", b"2"]), lg=r.choice([b"00", b"01", b"04", b"U8"]), lang=r.choice([b"09", b"7F", b"45", b"00"]), subs=n, rng=r if r.random() < .3 else None))
    data = b"".join(block(b, r.randrange(256), r.randrange(65536), r.randrange(4)) for b in blocks)
    if bad < .05 and data:
        i = r.randrange(tti)
        data = data[:i * 128 + 15] + bytes([r.choice([2, 3, 255, 128])]) + data[i * 128 + 16:]
    elif bad < .1:
        g[238:243] = b"%05d" % (tti + 1)
    elif bad < .15:
        g[238:243] = b"%5d" % max(0, tti - 1)
    elif bad < .2:
        data += bytes(r.randrange(256) for _ in range(r.choice([1, 127, 128, 300])))
    elif bad < .25:
        i = r.choice([3, 11, 12, 14, 255])
        g[i] = r.randrange(256)
    return bytes(g) + data
