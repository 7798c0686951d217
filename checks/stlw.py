"""Writing jobs for binary STL."""
import core, raws

FPS = {23976: [24000, 1001], 24000: [24, 1], 25000: [25, 1], 30000: [30, 1]}
DEFAULTS = {"c": [255, 255, 255], "e": "", "ec": [], "fn": [], "fs": ["", 0]}


def case(job, what, twice=0, **more):
    """job as in the specification (bytes as lists)"""
    subs = [{"f": s["f"], "o": s["o"], "fu": [], "fd": [],
             "l": [{"h": l["h"], "v": l["v"], "b": [dict(DEFAULTS, t=bytes(b["t"]).hex(), s=b["s"]) for b in l["b"]]} for l in s["l"]]} for s in job["subs"]]
    c = {"op": "write", "subs": subs, "fps": job.get("fps", FPS[job["mhz"]]), "lang": job["lang"], "hdr": [bytes(h).hex() for h in job["hdr"]], "rev": job["rev"],
         "vu": job["V"], "hu": 100, "job": {k: job[k] for k in ("mhz", "lang", "rev", "V")}, "twice": int(twice)}
    if what == "back":
        c.update(back=1, fields=1)
    c.update(more)
    return c


def record(c, o):
    j = dict(c["job"])
    j["hdr"] = [list(bytes.fromhex(h)) for h in c["hdr"]]
    subs = o.get("col", []) if "chain" in c else core.deep_ints(c["subs"])
    j["n"] = c.get("n", 1)
    j["subs"] = [{"f": s["f"], "o": s["o"], "l": [{"h": l["h"], "v": l["v"], "b": [{"t": b["t"], "s": b["s"]} for b in l["b"]]} for l in s["l"]]} for s in subs]
    obs = {"err": o["err"]}
    if c.get("back"):
        b = o.get("back", {"err": "none"})
        obs["back"] = {k: v for k, v in b.items() if k in ("err", "subs", "fields", "strings")}
        if b.get("err") == "":
            obs["back"]["subs"] = [{k: r[k] for k in ("t", "s", "f", "o", "h", "v")} for r in b["subs"]]
    else:
        obs["out"] = o.get("out", [])
        obs["again"] = o.get("again", [])
        obs["same"] = bool(o.get("same", 1))
        obs["size"] = o.get("size", 0)
    return {"job": j, "obs": obs}


def describe(c, x, o):
    if "chain" in c:
        return "%s in %s from %s" % (x, {k: c[k] for k in ("fps", "lang", "hdr", "rev")}, core.show(list(bytes.fromhex(c["chain"]["in"]))))
    return "%s in %s" % (x, core.json.dumps({k: c[k] for k in ("subs", "fps", "lang", "hdr", "rev", "chain") if k in c})[:1500])


# ---- random jobs

CARRIED = [0xe9, 0xe8, 0x161, 0x150, 0xdf, 0xe6, 0xf8, 0x2018, 0x201c, 0xa1, 0xbf, 0x24, 0xa4, 0x266a, 0x2015, 0x2122, 0x142, 0xf1, 0x17c, 0x11b, 0xe7, 0x1f5, 0x149]
OTHER = [0x2014, 0x2013, 0x201e, 0x2032, 0x2010, 0x20ac, 0x3b1, 0x1f600, 0x301, 0x2028, 0x4e2d, 0xa0, 0x7f, 0x80, 0x8f, 0x9d]


def text(r, n):
    return list("".join(chr(r.randrange(32, 127) if r.random() < .7 else r.choice(CARRIED) if r.random() < .8 else r.choice(OTHER)) for _ in range(n)).encode())


def time(r):
    k = r.randrange(6)
    s = r.choice([0, 1, 59, 60, 3599, 3600, 35999, 86398, r.randrange(86399), r.randrange(86399)])
    if k < 3:
        return [s, r.choice([0, 1, 499, 500, 520, 980, 981, 999, r.randrange(1000), r.randrange(1000)]), 1000, 1]
    if k < 5:
        n = r.choice([24, 25, 30, 50, 100, 12])
        return [s, r.randrange(n), n, 1]
    return [s, r.randrange(24), 24000, 1001]


def row(r, row, V):
    k = r.randrange(8)
    d = r.choice([0, 0, 0, 1, -1, 20, -20, 49, -49])
    if k == 0:
        return [0, [], [], [row * 100 + d]]
    if k == 1:
        return [2, [], [], [2300 - row * 100 + d]]
    if k == 2:
        return [1, [], [], [row * 100 - 1150 + d]]
    if k == 3:
        return [r.choice([0, 3, 2]), [row], [], []]
    if k == 4:
        return [0, [row], [23], []]
    if k == 5:
        n = r.choice([23, 46, 69, 92, 12, 15, 24, 480])
        return [r.choice([0, 2]), [(row * n) // 23], [n], []]
    if k == 6:
        n = r.choice([23, 46, 92, 24, 480])
        return [1, [(row * n) // 23 - n // 2], [n], []]
    return [-1, [], [], [row * 100 + d]]


def subtitle(r, V):
    n = r.choice([1, 1, 1, 2, 2, 3, 5])
    rows = sorted(r.sample(range(0, 24), n))
    if r.random() < .1:
        r.shuffle(rows)
    lines = []
    h = r.randrange(3)
    for i in range(n):
        blocks = [{"t": text(r, r.choice([0, 1, 3, 10, 30, 30, 60, 98, 99, 100, 112, 130] if r.random() < .15 else [0, 1, 2, 5, 12, 20])), "s": [r.randrange(2), r.randrange(2), r.randrange(2)] if r.random() < .6 else [0, 0, 0]}
                  for _ in range(r.choice([0, 1, 1, 1, 2, 3]))]
        lines.append({"h": [h if r.random() < .8 else r.randrange(3), r.randrange(0, 50)], "v": row(r, rows[i], V), "b": blocks})
    a, b = time(r), time(r)
    return {"f": a, "o": b, "l": lines}


def job(r, n=None):
    V = 2300
    w = [32, 32, 32, 32, 32, 32, 6, 6, 3, 32, 32, 32]
    hdr = []
    for x in w:
        k = x if x in (6, 3) or r.random() < .2 else r.randrange(x + 1)
        hdr.append([r.choice([65, 32, 48, 0x7e, 0xe9, r.randrange(1, 256)]) for _ in range(k)])
    n = r.choice([0, 1, 1, 2, 3, 5]) if n is None else n
    mhz = r.choice([23976, 24000, 25000, 30000])
    j = {"subs": [subtitle(r, V) for _ in range(n)], "mhz": mhz, "lang": r.randrange(103), "hdr": hdr, "rev": r.randrange(100), "V": V}
    if mhz == 23976 and r.random() < .5:
        j["fps"] = [23976, 1000]
    return j


def big(r, n, over):
    """A job with a subtitle of n blocks' text, and over more bytes"""
    j = job(r, 2)
    left = 112 * n - 1 + over        # (the end mark takes one)
    lines, rows = [], r.sample(range(24), r.choice([1, 5, 20]))
    rows.sort()
    left -= rows[-1] - rows[0]
    style, cost = [0, 0, 0], 0
    for i, x in enumerate(rows):
        here = left if i == len(rows) - 1 else left // (len(rows) - i)
        left -= here
        blocks = []
        while here > 0:
            s = [r.randrange(2), r.randrange(2), r.randrange(2)]
            k = (s[1] != style[1]) + (s[2] != style[2])
            # the last one must leave nothing to switch off
            m = r.randrange(60, 200)
            if here < 260 or k >= here:
                s = [0, 0, 0]
                k = (s[1] != style[1]) + (s[2] != style[2])
                m = here - k
            style = s
            # (characters of one byte in the file)
            blocks.append({"t": [r.choice(list(range(32, 36)) + list(range(37, 127))) for _ in range(min(m, here - k))], "s": s})
            here -= k + len(blocks[-1]["t"])
        lines.append({"h": [1, 0], "v": [2, [x], [], []], "b": blocks})
    j["subs"].insert(r.randrange(3), {"f": time(r), "o": time(r), "l": lines})
    return j


# ---- files of other formats, collected and written

def carried(data):
    try:
        data.decode("utf-8")
        return True
    except UnicodeDecodeError:
        return False


def cue_text(r, marks):
    import srt
    while True:
        t = b"" if r.random() < .3 else text_bytes(r)
        t += srt.markup(r, r.randrange(1, 6)) if marks else srt.plain(r)
        t = t.replace(b"\n", b"").replace(b"\0", b"").replace(b"\r", b"")
        if carried(t) and t.strip():
            return t


def text_bytes(r):
    return bytes(text(r, r.choice([1, 5, 12, 30, 60])))


def clock(r, sep):
    return b"%02d:%02d:%02d%s%03d" % (r.randrange(24), r.randrange(60), r.choice([0, 59, r.randrange(60)]), sep, r.choice([0, 999, 980, 500, r.randrange(1000)]))


def cues(r, fmt):
    sep = b"," if fmt == "srt" else b"."
    lines = [b"WEBVTT", b""] if fmt == "vtt" else []
    for i in range(r.randrange(1, 5)):
        if fmt == "srt" or r.random() < .5:
            lines.append(b"%d" % (i + 1))
        lines.append(clock(r, sep) + b" --> " + clock(r, sep))
        # (23 rows at most)
        lines += [cue_text(r, fmt == "srt" or r.random() < .3) for _ in range(r.choice([1, 1, 2, 3, 5]))] + [b""]
    return b"\n".join(lines) + b"\n"


def ssa_script(r):
    import ssa
    rx, ry = r.choice([(288, 288), (1920, 1080), (640, 480), (384, 288)])
    unit = ry / 288
    m = lambda: b"%d" % int(r.choice([0, 0, 5, 10, 20, 40, r.randrange(60)]) * unit)
    L = [b"[Script Info]", b"PlayResX: %d" % rx, b"PlayResY: %d" % ry, b"[V4+ Styles]", b"Format: Name, Fontname, Fontsize, PrimaryColour, Bold, Italic, Underline, Alignment, MarginL, MarginR, MarginV"]
    for n in ssa.NAMES:
        L.append(b"Style: %s,Arial,%d,&H%06X,%s,%s,%s,%d,%s,%s,%s" % (n, int(r.choice([14, 16, 20, 24, 7]) * unit), r.randrange(1 << 24), r.choice([b"-1", b"0"]), r.choice([b"-1", b"0"]),
                                                                  r.choice([b"-1", b"0"]), r.randrange(1, 10), m(), m(), m()))
    L += [b"[Events]", b"Format: Layer, Start, End, Style, Name, MarginL, MarginR, MarginV, Effect, Text"]
    for _ in range(r.randrange(1, 5)):
        t = b""
        for i in range(r.choice([1, 1, 2, 3, 4])):
            while True:
                x = text_bytes(r).replace(b"{", b"(").replace(b"\\", b"/").replace(b"\n", b"").replace(b"\r", b"")
                if carried(x) and x:
                    break
            t += (r.choice([b"\\N", b"\\n"]) if i else b"") + r.choice([b"", b"", b"{\\i1}", b"{\\i0}", b"{\\u1}", b"{\\u0}", b"{\\b1}", b"{\\an8}" if i == 0 else b"{\\i1\\u1}"]) + x
            if r.random() < .3:
                t += b"{\\i%d}" % r.randrange(2) + b"more"
        when = lambda: b"%d:%02d:%02d.%02d" % (r.randrange(24), r.randrange(60), r.choice([0, 59, r.randrange(60)]), r.choice([0, 99, 98, 50, r.randrange(100)]))
        L.append(b"Dialogue: 0,%s,%s,%s,,%s,%s,%s,,%s" % (when(), when(), r.choice(ssa.NAMES), m(), m(), m(), t))
    return b"\n".join(L) + b"\n", rx, ry


def chain(r, what="back"):
    fmt = r.choice(["srt", "vtt", "ssa"])
    j = job(r, 0)
    rx = 100
    if fmt == "ssa":
        data, rx, ry = ssa_script(r)
        j["V"] = 20 * ry
    else:
        j["V"] = 20 * 288     # as for \\pos
        data = cues(r, fmt)
    c = case(j, what, hu=20 * rx, chain={"fmt": fmt, "src": r.choice(["string", "file"]), "in": data.hex()})
    del c["subs"]
    return c
