"""C23: readers are total."""
import re
import core, srt, vtt, ssa, stlt, stlb, sources

FMTS = ["srt", "vtt", "ssa", "stlt"]
MODULE = {"srt": "TraceSubRip", "vtt": "TraceWebVTT", "ssa": "TraceSSA", "stlt": "TraceSTLText", "stlb": "TraceSTLBinary"}
SRC = {"srt": ["string", "file"], "vtt": ["string", "file"], "ssa": ["string", "file"], "stlt": ["istream"], "stlb": ["istream", "file"]}
TOKENS = {
    "srt": [b"1", b"00:00:01,000", b" --> ", b"00:00:02,5", b":", b",", b"<b>", b"</i>", b"<font color=\"#102030\">", b"<font", b"color=", b"#ff", b"\"rgba(", b"</font>", b"{\\an8}", b"{\\", b"{b}", b"\\pos(", b"}", b">", b"\xe2\x80\xa8", b"\xe2\x80\xab", b"\xe2\x80", b"\xef\xbb\xbf", b"-", b"99999999999"],
    "vtt": [b"WEBVTT", b"NOTE", b"STYLE", b"00:00:01.000", b" --> ", b"-->", b":", b".", b"\xe2\x80\xa8", b"\xef\xbb\xbf", b"-1", b"99999999999"],
    "ssa": [b"[Script Info]", b"[V4+ Styles]", b"[V4 Styles]", b"[Events]", b"[Fonts]", b"[", b"PlayResX: ", b"PlayResY: 0", b"PlayResX: -5", b"Format: ", b"Style: ", b"Dialogue: ", b"Name", b"Fontsize", b"Alignment", b"Start", b"End", b"Style", b"MarginV", b"MarginL", b"Text",
            b"Default", b"*", b",", b",", b", ", b"0:00:01.00", b":", b";", b"{", b"}", b"\\", b"\\N", b"\\an5", b"\\pos(1,2)", b"\\pos", b"(", b"\\fs", b"\\fs20", b"\\c", b"\\c&H", b"&", b"&H00ff00&", b"H", b"-1", b"1e9", b"99999999999", b"\\i1"],
    "stlt": [b"$Bold", b"$FontSize", b"$FontName", b"=", b"True", b"00:00:01:00", b",", b",", b"|", b"^", b"^B", b"^I", b"//", b":", b"$", b"99999999999", b"-3"],
}
TOKENS["stlb"] = [b"STL25.01", b"STL", b"850", b"\x8a", b"\x8f", b"\x80\x81", b"\xc9", b"\xc1", b"\xff", b"\xfe"]
COMMON = [b"\n", b"\n", b"\n", b"\r\n", b"\r", b" ", b"\t", b"a", b"hello", b"\0", b"\xff", b"\xc3", b"\xc3\xa9", b"0", b"1", b"-", b"+", b"\x1a", b"\x7f"]

SMALL = {
    "srt": b"1\n00:00:01,000 --> 00:00:02,500\n<i>a</i> <font color=\"#102030\">b</font>\n{\\an8}c\n\n2\n0:1:2,3 --> 0:1:3,4\nd\n",
    "vtt": b"WEBVTT x\n\nNOTE y\n\nid\n00:00:01.000 --> 00:00:02.500\na\nb\xe2\x80\xa8c\n\n0:1:2.3 --> 0:1:3.4\nd\n",
    "ssa": b"[Script Info]\nPlayResX: 288\n[V4+ Styles]\nFormat: Name, Fontsize, Bold\nStyle: Default,20,-1\n[Events]\nFormat: Start, End, Style, Text\nDialogue: 0:00:01.00,0:00:02.00,Default,{\\an8\\i1}a\\Nb{\\c&H102030&}c,d\n",
    "stlt": b"$Bold = True\n$FontSize = 42\n// c\n00:00:01:00 , 00:00:02:05 , a^Ib|c\n0:1:2:3,0:1:3:4,^Ud\n",
}
SPECIAL = [0, 10, 13, 32, 44, 58, 46, 60, 62, 92, 123, 125, 45, 48, 57, 34, 61, 65, 94, 124, 239, 255]


def small(r, full):
    """Every small change to a small file"""
    out = []
    for fmt in FMTS:
        d = SMALL[fmt]
        for i in range(len(d) + 1):
            out.append((fmt, d[:i]))
            out.append((fmt, d[i:]))
            out.append((fmt, d[:i] + d[i + 1:]))
            out.append((fmt, d[:i] + d[i:i + 1] + d[i:]))
            for b in (range(256) if full else r.sample(SPECIAL, 6)):
                out.append((fmt, d[:i] + bytes([b]) + d[i + 1:]))
                out.append((fmt, d[:i] + bytes([b]) + d[i:]))
    return out


def small_binary(r, full):
    blk = lambda t, **k: stlb.block(dict({"ebn": 255, "tci": [0, 0, 1, 0], "tco": [0, 0, 2, 0], "vp": 20, "jc": 2, "cf": 0, "text": t}, **k))
    d = stlb.header(3) + blk(b"\x80a\x8a\x06b\x81c", ebn=0) + blk(b"d\x8f\x8a", ebn=255) + blk(b"e", cf=1)
    out = [d[:i] for i in (list(range(0, len(d), 1 if full else 97)) + [1023, 1024, 1025, 1151, 1152, 1153, len(d) - 1])]
    where = list(range(0, 280)) + list(range(1024, 1024 + 40)) + list(range(1152, 1152 + 24)) + list(range(1280, 1280 + 24))
    for i in where:
        for b in (range(256) if full else r.sample([0, 1, 2, 3, 4, 5, 9, 32, 45, 48, 50, 57, 65, 0x7f, 0x80, 0x82, 0x8a, 0x8f, 0xd8, 0xe8, 0xf0, 0xfe, 0xff], 4)):
            if i >= 1024 + 16 and b in (0xc9, 0xcc):
                continue
            out.append(d[:i] + bytes([b]) + d[i + 1:])
    # bytes which are between those with a meaning
    for i in range(280, 1024, 1 if full else 13):
        out.append(d[:i] + bytes([r.randrange(256)]) + d[i + 1:])
    return [("stlb", x) for x in out]


def soup(r, fmt):
    toks = TOKENS[fmt] * 2 + COMMON
    k = r.random()
    if k < .15:
        x = bytes(r.randrange(256) for _ in range(r.choice([0, 1, 2, 5, 30, 200, 1500])))
    else:
        x = b"".join(r.choice(toks) for _ in range(r.choice([1, 2, 4, 8, 16, 40, 100])))
    if r.random() < .5:
        head = {"srt": b"1\n00:00:01,000 --> 00:00:02,000\n", "vtt": b"WEBVTT\n\n00:00:01.000 --> 00:00:02.000\n",
                "ssa": b"[V4+ Styles]\nFormat: Name, Fontsize, Bold\nStyle: Default,20,-1\n[Events]\nFormat: Start, End, Style, MarginL, Text\nDialogue: 0:00:01.00,0:00:02.00,Default,0,",
                "stlt": b"00:00:01:00,00:00:02:00,"}.get(fmt, b"")
        x = head + x
    if fmt == "stlb":
        h = bytearray(stlb.header(r.randrange(0, 5)))
        if r.random() < .3:
            for _ in range(r.choice([1, 3, 20])):
                h[r.randrange(280)] = r.randrange(256)
        if r.random() < .1:
            h[238:243] = r.choice([b"-0001", b"99999", b"     ", b"00x00", b"+0002"])
        x = bytes(h) + b"".join(bytes(r.choice([0, 1, 255, 0x8a, 0x8f, r.randrange(256)]) if r.random() < .3 else r.randrange(256) for _ in range(128)) for _ in range(r.randrange(0, 6))) + x[:r.choice([0, 0, 100])]
    return x


def cuts_case(r, fmt, data, src=None):
    cuts = []
    if fmt != "stlb":
        at = [i + 1 for i, b in enumerate(data[:-1]) if b == 10]
        cuts = sorted(r.sample(at, min(len(at), 4)))
    c = {"op": "cuts", "fmt": fmt, "src": src or r.choice(SRC[fmt]), "in": data.hex(), "cuts": cuts, "vu": 5760, "hu": 5760, "alarm": 60}
    if fmt == "stlb":
        c["full"] = 1
    return c


def record(c, o):
    keep = lambda x: {k: v for k, v in x.items() if k in ("err", "subs", "msg", "line")}
    # long results all alike are cut short
    o = dict(o, cuts=o.get("cuts", []))
    for x in [o] + o["cuts"]:
        if len(x.get("subs", [])) > 60:
            x["subs"] = x["subs"][:60]
    return {"fmt": c["fmt"], "o": keep(o), "cuts": [keep(x) for x in o["cuts"]], "fds": o.get("fds", 0) + sum(x.get("fds", 0) for x in o["cuts"])}


def describe(c, x, o):
    o = core.deep_ints(o)
    return "%s: %s, %d bytes: %s; gave %s" % (x, c["fmt"], len(c["in"]) // 2, core.show(list(bytes.fromhex(c["in"][:3000]))), srt.pretty({k: v for k, v in o.items() if k != "cuts"})[:1500])


def run(c):
    th = core.THOROUGH
    r = c.rng
    for fmt in FMTS:
        for begin in (1, 2, 3):
            if begin == 3 and fmt in ("srt", "vtt") and not th:
                continue
            d = (4 if th else 3) - (1 if begin == 1 and not th and fmt in ("ssa",) else 0)
            t = core.mc("MCTotal", {"Fmt": '"%s"' % fmt, "Begin": begin, "Depth": d}, ["Ends", "Growing", "Emit"])
            c.spec_states(t)
            to = lambda x: ssa.case(bytes(x["in"]), 288, 288, "string") if fmt == "ssa" else stlt.case(bytes(x["in"])) if fmt == "stlt" else dict(srt.case(bytes(x["in"])), fmt=fmt)
            c.replay("%s, chunks after beginning %d" % (fmt, begin), list(t.json()), to, srt.agree, describe=srt.describe)
            c.exhaustive.append("%s: every text of up to %d chunks, whole or broken, after beginning %d" % (fmt, d, begin))

    # small changes, exactly
    xs = small(r, th) + small_binary(r, th)
    for fmt in FMTS + ["stlb"]:
        # (what a colour with a sign, blanks or 0x in it is, is nobody's business)
        mine = sorted(set(x for f, x in xs if f == fmt and not re.search(rb"&H[&H]*([ \t\v\f\r\n+-]|0[xX])", x)))
        if fmt == "stlb":
            cases = [stlb.read_case(x, r.choice(SRC[fmt]), full=1) for x in mine]
            c.record("small changes to a small stlb file", MODULE[fmt], cases, stlb.record, describe=stlb.describe_rec)
        else:
            cases = [ssa.case(x, 288, 288, r.choice(SRC[fmt])) if fmt == "ssa" else stlt.case(x) if fmt == "stlt" else dict(srt.case(x, r.choice(SRC[fmt])), fmt=fmt) for x in mine]
            c.record("small changes to a small %s file" % fmt, MODULE[fmt], cases, srt.record, describe=srt.describe_rec)

    # arbitrary bytes
    n = 12000 if th else 1500
    cases = []
    for _ in range(n):
        fmt = r.choice(FMTS + ["stlb"])
        cases.append(cuts_case(r, fmt, soup(r, fmt)))
    for _ in range(n // 2):
        fmt, data, vu, hu = sources.document(r)
        for _ in range(r.choice([0, 1, 3])):
            data = sources.mangle(r, data)
        # (perhaps as a format that it is not)
        if r.random() < .2:
            fmt = r.choice(FMTS)
        cases.append(cuts_case(r, fmt, data))
    c.record("arbitrary bytes", "TraceTotal", cases, record, describe=describe, variant="wrap")
