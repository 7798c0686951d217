"""The same bytes from several sources."""
import json
import core, srt, vtt, ssa, stlt, stlb

SRCS = {"srt": ["string", "file", "factory"], "vtt": ["string", "file"], "ssa": ["string", "file"], "stlt": ["istream", "factory"], "stlb": ["istream", "file", "factory"]}
NAME = {"srt": b"x.srt", "vtt": b"x", "ssa": b"x", "stlt": b"x.stl", "stlb": b"x.stl"}


def case(fmt, data, srcs=None, name=None, vu=5760, hu=5760):
    name = NAME[fmt] if name is None else name
    c = {"op": "sources", "fmt": fmt, "in": data.hex(), "srcs": srcs or SRCS[fmt], "name": name.hex(), "vu": vu, "hu": hu, "alarm": 60}
    if fmt == "stlb":
        c.update(fields=1, meta=1)
    return c


# results are large: they go to TLC as they are only if they are short, else as a digest each
def record(c, o):
    a = o.get("all") or [{"err": o["err"], "src": "?", "fds": 0}]
    out = []
    for r in a:
        r = dict(r)
        r.pop("id", None)
        if "subs" in r and len(json.dumps(r["subs"])) > 3000:
            r["subs"] = core.hashlib.sha256(json.dumps(r["subs"], sort_keys=True).encode()).hexdigest()
        for k in ("ctx", "msg"):
            if k in r and len(json.dumps(r[k])) > 3000:
                r[k] = core.hashlib.sha256(json.dumps(r[k], sort_keys=True).encode()).hexdigest()
        out.append(r)
    return {"name": list(bytes.fromhex(c["name"])), "head": list(bytes.fromhex(c["in"][:24])), "all": out}


def describe(c, x, o):
    o = core.deep_ints(o)
    return "%s: %s, %d bytes starting %s: %s" % (x, core.show(list(bytes.fromhex(c["name"]))), len(c["in"]) // 2, core.show(list(bytes.fromhex(c["in"][:400]))),
                                                  " / ".join("%s: %s" % (r["src"], json.dumps({k: v for k, v in r.items() if k != "src"})[:500]) for r in o.get("all", [])))


# sizes that buffers like to have
SIZES = [126, 127, 128, 254, 255, 256, 257, 510, 511, 512, 513, 1022, 1023, 1024, 1025, 2047, 2048, 4094, 4095, 4096, 4097, 8191, 8192, 16384, 65535, 65536, 65537]


def stretch(r, n):
    return bytes(r.choice(b"abcdefghij klmnop,.!") for _ in range(n - 1)) + b"z" if n else b""


def long_lines(r, fmt):
    """A document in which any kind of line may be very long"""
    sizes = SIZES
    n = lambda: r.choice(sizes) - r.choice([0, 0, 0, 1, 2, 3, 5, 30])
    eol = r.choice([b"\n", b"\n", b"\r\n"])
    L = []
    for i in range(r.randrange(1, 5)):
        if fmt in ("srt", "vtt"):
            sep = b"," if fmt == "srt" else b"."
            if fmt == "vtt" and i == 0:
                L += [b"WEBVTT" + (b" " + stretch(r, n()) if r.random() < .3 else b""), b""]
            L.append(b"1" if r.random() < .8 else stretch(r, n()))
            t = srt.timing(r, sep) if fmt == "srt" else vtt.timing(r, sep).replace(b" -> ", b" --> ").replace(b" x ", b" --> ")
            if r.random() < .2:
                t = t.replace(b" ", b" " * n(), 1)
            if r.random() < .05:
                t = srt.bad_timing(r, sep) + b" -->"
            L.append(t + (b" " * n() if r.random() < .2 else b""))
            for _ in range(r.randrange(1, 4)):
                x = stretch(r, n())
                if r.random() < .3:
                    k = r.randrange(len(x))
                    x = x[:k] + r.choice([b"<b>", b"</i>", "\u00e9".encode(), b"\xe2\x80\xa8", b"{\\an8}", b'<font color="#102030">', b"\r", b"\0"]) + x[k:]
                L.append(x)
            L.append(b"")
        elif fmt == "ssa":
            if i == 0:
                L += [b"[Script Info]", b"Title: " + stretch(r, n()), b"; " + stretch(r, n()), b"[V4+ Styles]", b"Format: Name, Fontname, Fontsize, Bold",
                      b"Style: Default," + stretch(r, n()).replace(b",", b"") + b",20,0", b"[Events]", b"Format: Start, End, Style, Text"]
            x = stretch(r, n())
            k = r.randrange(len(x))
            L.append(b"Dialogue: 0:00:01.00,0:00:02.00,Default," + x[:k] + r.choice([b"", b"\\N", b"{\\i1}", b"{\\an7\\b1}"]) + x[k:])
        else:
            L.append(b"00:00:01:00,00:00:02:00," + r.choice([b"", b"^B", b"|"]) + stretch(r, n()) + r.choice([b"", b"|x", b"^I y"]))
    data = eol.join(L)
    return data + (eol if r.random() < .5 else b"")


def mangle(r, data):
    """Some bytes changed"""
    b = bytearray(data)
    for _ in range(r.choice([1, 1, 2, 5])):
        if not b:
            break
        i = r.randrange(len(b))
        k = r.randrange(4)
        if k == 0:
            b[i] = r.randrange(256)
        elif k == 1:
            del b[i]
        elif k == 2:
            b.insert(i, r.choice([0, 10, 13, 255, 44, 60, 123, 92, r.randrange(256)]))
        else:
            del b[i:]
    return bytes(b)


def document(r, bad=.3):
    fmt = r.choice(["srt", "srt", "vtt", "ssa", "stlt", "stlb"])
    vu = hu = 5760
    if fmt == "srt":
        data = srt.document(r, bad=bad)
    elif fmt == "vtt":
        data = vtt.document(r, bad=bad)
    elif fmt == "ssa":
        data, rx, ry = ssa.document(r, bad=bad)
        vu, hu = 20 * ry, 20 * rx
    elif fmt == "stlt":
        data = stlt.document(r)
    else:
        data = stlb.document(r)
    if r.random() < .4:
        data = mangle(r, data)
    return fmt, data, vu, hu


def small(r, fmt):
    """A short document"""
    while True:
        if fmt == "srt":
            data = srt.document(r, bad=0)
        elif fmt == "vtt":
            data = vtt.document(r, bad=0)
        elif fmt == "ssa":
            data = ssa.document(r, bad=0)[0]
        elif fmt == "stlt":
            data = stlt.document(r)
        else:
            data = stlb.document(r)
        if 60 < len(data) < (1300 if fmt == "stlb" else 900 if fmt == "ssa" else 250):
            return data
