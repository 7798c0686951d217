"""Documents in which there is a lot of something."""
import core, raws, srt, ssa, stlb, stlt, vtt

W = b"abcdefghijklmnopqrstuvwxyz"


def word(r):
    return bytes(r.choice(W) for _ in range(r.randrange(1, 7)))


def sub_rip(r, n):
    T = b"1\n00:00:01,000 --> 00:00:02,000\n"
    tag = lambda: r.choice([b"<%s%c>", b"{%s%c}"]) % (r.choice([b"", b"/"]), r.choice(b"biu"))
    hexc = lambda: b"<font color=#%06x>" % r.randrange(1 << 24)
    yield "cues", b"".join(b"%d\n%s\n%s\n\n" % (i + 1, b"%02d:%02d:%02d,%03d --> %02d:%02d:%02d,%03d" % ((i // 3600, i // 60 % 60, i % 60, i % 1000) * 2),
                                               r.choice([word(r), b"<i>" + word(r), hexc() + word(r), word(r) + b"\n" + word(r), b"</font>" + word(r)])) for i in range(n))
    yield "rows in a cue", T + b"".join((tag() if r.random() < .1 else b"") + word(r) + (srt.LS if r.random() < .2 else b"\n") for _ in range(n))
    yield "marks in a row", T + b"".join(tag() + (word(r) if r.random() < .7 else b"") for _ in range(n)) + b"\n"
    yield "fonts within fonts", T + b"".join(hexc() + word(r) for _ in range(n)) + b"".join(b"</font>" + word(r) for _ in range(n + 3)) + b"\n"
    yield "fonts within fonts over rows", T + b"".join(hexc() + word(r) + b"\n" for _ in range(n)) + b"".join(b"</font>" + word(r) + b"\n" for _ in range(n + 3))
    yield "brace tags in a row", T + b"".join(srt.brace_tag(r) + (word(r) if r.random() < .7 else b"") for _ in range(n)) + b"\n"
    yield "blank lines", b"\n" * n + T + b"a\n" + b"\n" * n + T + b"b\n"
    yield "separators in a row", T + b"a" + srt.LS * n + b"b\n"
    yield "right-to-left marks", T + srt.RTL * n + b"b" + srt.RTL * n + b"\n"


def faults(r, n):
    """late in long files"""
    good = b"".join(b"%d\n00:00:01,000 --> 00:00:02,000\n%s\n\n" % (i + 1, word(r)) for i in range(n))
    yield "a bad timing line", good + b"x\n00:00:01,000 -> 00:00:02,000\nfoo\nbar\nbaz\n"
    yield "a bad time", good + b"x\n00:00:01 --> 00:00:02,000\nfoo\nbar\nbaz\n"
    yield "a bad colour", good + b"x\n00:00:01,000 --> 00:00:02,000\nfoo\n<font color=red>bar\nbaz\n"
    yield "a bad timing line after rows", b"1\n00:00:01,000 --> 00:00:02,000\n" + b"".join(word(r) + b"\n" for _ in range(n)) + b"\nx\n\n\nfoo\n"


def web_vtt(r, n):
    cue = lambda i: b"00:%02d:%02d.000 --> 00:%02d:%02d.000\n" % ((i // 60 % 60, i % 60) * 2)
    yield "cues", b"WEBVTT\n\n" + b"".join(r.choice([b"", b"NOTE x\ny\n\n", b"id\n"]) + cue(i) + r.choice([word(r), b"<i>" + word(r) + b"</i>", word(r) + b"\n" + word(r)]) + b"\n\n" for i in range(n))
    yield "notes", b"WEBVTT\n\n" + b"".join(b"NOTE " + word(r) + b"\n" + cue(i) + b"\n" for i in range(n)) + cue(1) + b"a\n"
    yield "lines in a note", b"WEBVTT\n\nNOTE\n" + b"".join(cue(i) for i in range(n)) + b"\n" + cue(1) + b"a\n"
    yield "rows in a cue", b"WEBVTT\n\n" + cue(1) + b"".join(word(r) + b"\n" for _ in range(n))
    yield "metadata", b"WEBVTT\n" + b"".join(word(r) + b": x\n" for _ in range(n)) + b"\n" + cue(1) + b"a\n"
    yield "a bad time after many cues", b"WEBVTT\n\n" + b"".join(cue(i) + word(r) + b"\n\n" for i in range(n)) + b"00:01.000 --> x\na\nb\n"


def sub_station(r, n):
    head = b"[V4+ Styles]\nFormat: Name, Fontname, Fontsize, Bold, Italic\nStyle: Default,Arial,20,0,0\n"
    ev = b"[Events]\nFormat: Start, End, Style, Text\n"
    line = lambda i, s, t: b"Dialogue: %d:%02d:%02d.%02d,%d:%02d:%02d.50,%s,%s\n" % (i // 3600, i // 60 % 60, i % 60, i % 100, i // 3600, i // 60 % 60, i % 60, s, t)
    # (fewer events than words, as each takes a while)
    yield "styles", head + b"".join(b"Style: s%d,F%s,%d,%d,%d\n" % (i, word(r), 5 + i % 90, -r.randrange(2), -r.randrange(2)) for i in range(n)) + ev + b"".join(line(i, b"s%d" % r.randrange(n + 3), word(r)) for i in range(60))
    yield "events", head + ev + b"".join(line(i, b"Default", r.choice([word(r), b"{\\i1}" + word(r), word(r) + b"\\N" + word(r)])) for i in range(n))
    yield "columns", b"[Events]\nFormat: " + b"".join(b"X%d, " % i for i in range(n)) + b"Start, End, Text\n" + b"Dialogue: " + b"x," * n + b"0:00:01.00,0:00:02.00,a, b\n" + b"Dialogue: " + b"," * n + b"0:00:03.00,0:00:04.00,c\n"
    yield "columns of a style", b"[V4+ Styles]\nFormat: " + b"".join(b"X%d, " % i for i in range(n)) + b"Name, Bold\nStyle: " + b"x," * n + b"Default,-1\n" + ev + line(1, b"Default", b"a")
    yield "tags in a text", head + ev + line(1, b"Default", b"".join(b"{" + r.choice(ssa.TAGS[:10]) + b"}" + word(r) for _ in range(n)))
    yield "tags in a block", head + ev + line(1, b"Default", b"{" + b"".join(r.choice(ssa.TAGS[:10]) for _ in range(n)) + b"}a")
    # (positions are floats, to which the height of a line is added again and again)
    few = min(n, 40)
    yield "breaks in a text", head + ev + line(1, b"Default", b"".join(word(r) + b"\\N" for _ in range(few)) + b"a") + line(2, b"Default", b"{\\an8}" + b"".join(word(r) + b"\\n" for _ in range(few)) + b"a")
    yield "commas in a text", head + ev + line(1, b"Default", b"a" + b"," * n + b"b, c")
    yield "sections", b"".join(b"[%s]\nx\n" % word(r) for _ in range(n)) + head + b"".join(b"[Fonts]\nDialogue: 1\n" for _ in range(n // 2)) + ev + line(1, b"Default", b"a")


def text_stl(r, n):
    t = lambda i: b"%02d:%02d:%02d:%02d , " % (i // 3600 % 24, i // 60 % 60, i % 60, i % 25)
    yield "lines", b"".join(t(i) + t(i + 1) + r.choice([word(r), b"^I" + word(r), b"^B^U" + word(r), word(r) + b"|" + word(r), b"^B"]) + b"\n" for i in range(n))
    yield "marks in a line", t(1) + t(2) + b"".join(r.choice([b"^B", b"^I", b"^U"]) + word(r) for _ in range(n)) + b"\n" + t(3) + t(4) + b"a\n"
    yield "rows in a line", t(1) + t(2) + b"".join(word(r) + b"|" for _ in range(n)) + b"a\n"
    yield "settings", b"".join(r.choice([b"$Bold = True\n", b"$Bold = False\n", b"$FontSize = %d\n" % r.randrange(99), b"$Foo = 1\n", b"// x\n", b"junk\n"]) for i in range(n)) + t(1) + t(2) + b"a\n"
    yield "commas in a line", t(1) + t(2) + b"a" + b"," * n + b"b\n"


def binary_stl(r, n):
    one = lambda i, t: stlb.block({"ebn": 255, "tci": [i // 3600 % 24, i // 60 % 60, i % 60, i % 24], "tco": [i // 3600 % 24, i // 60 % 60, i % 60, 24], "vp": i % 20, "jc": i % 4, "cf": 0, "text": t}, sn=i % 65536)
    yield "subtitles", stlb.header(n, subs=n) + b"".join(one(i, list(word(r))) for i in range(n))
    yield "comments", stlb.header(n + 1, subs=1) + b"".join(stlb.block({"ebn": 255, "tci": [0, 0, 0, 0], "tco": [0, 0, 1, 0], "vp": 3, "jc": 1, "cf": 1, "text": list(word(r))}) for _ in range(n)) + one(1, list(b"a"))
    yield "rows", stlb.header(20, rows=b"99", subs=20) + b"".join(one(i, ([97] + [0x8a]) * 50) for i in range(20))


ALL = {"srt": (sub_rip, "TraceSubRip"), "bad": (faults, "TraceSubRip"), "vtt": (web_vtt, "TraceWebVTT"), "ssa": (sub_station, "TraceSSA"), "stlt": (text_stl, "TraceSTLText"), "stlb": (binary_stl, "TraceSTLBinary")}


def run(c, fmt, only=None):
    """Numbers that do not fit in a byte, and some that do"""
    r = c.rng
    gen, module = ALL[fmt]
    cases, names = [], []
    for n in ((17, 65, 129, 300, 700) if core.THOROUGH else (65, 300)):
        for name, data in gen(r, n):
            if only is not None and name not in only:
                continue
            if fmt == "stlb":
                cases.append(stlb.read_case(data, r.choice(["istream", "file"]), full=1))
            elif fmt == "ssa":
                cases.append(ssa.case(data, 288, 288, r.choice(["string", "file"])))
            elif fmt == "stlt":
                cases.append(stlt.case(data, "istream"))
            else:
                cases.append(dict(srt.case(data, r.choice(["string", "file"])), fmt="vtt" if fmt == "vtt" else "srt"))
            names.append(name)
    c.record("a lot of " + ", ".join(sorted(set(names))), module, cases, stlb.record if fmt == "stlb" else ssa.record if fmt == "ssa" else stlt.record if fmt == "stlt" else srt.record,
             describe=stlb.describe_rec if fmt == "stlb" else srt.describe_rec)


def collections(c):
    r = c.rng
    out = []
    for n in ((65, 129, 300, 700) if core.THOROUGH else (129, 300)):
        f = raws.fragments(r, n)
        out.append(f)                                                       # of all kinds
        same = raws.fragment(r)
        base = dict(same, v=[0, [1], [23], []])
        out.append([dict(base, t=list(word(r)), s=[r.randrange(2) for _ in range(3)]) for _ in range(n)])       # blocks of a line
        out.append([dict(base, t=list(word(r)), v=[0, [i], [n], []]) for i in r.sample(range(n), n)])          # lines of a subtitle
        out.append([dict(base, t=list(word(r)), f=[i, 0, 1000, 1], o=[i + 1, 0, 1000, 1]) for i in r.sample(range(n), n)])      # subtitles
    return out
