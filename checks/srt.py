"""Cases for the SubRip reader."""
import core

LS = b"\xe2\x80\xa8"
RTL = b"\xe2\x80\xab"
BOM = b"\xef\xbb\xbf"


def rtime(r, sep=b","):
    h, m, s, ms = r.choice([0, 0, 1, 2, 23, 99, 100]), r.randrange(60), r.randrange(60), r.randrange(1000)
    style = r.randrange(6)
    if style == 0:
        return b"%d:%d:%d%s%d" % (h, m, s, sep, ms)
    if style == 1:
        return b"%02d:%02d:%02d%s%03d" % (h, m, r.choice([59, 60, 75]), sep, r.choice([0, 999, 1000, 1500]))
    return b"%02d:%02d:%02d%s%03d" % (h, m, s, sep, ms)


def timing(r, sep=b","):
    t = rtime(r, sep) + b" " * r.choice([1, 1, 1, 2, 5]) + r.choice([b"-->", b"-->", b"-->", b"->", b"x"])
    t += b" " * r.choice([1, 1, 1, 3]) + rtime(r, sep)
    if r.random() < .15:
        t += b" X1:%d X2:%d  Y1:%d Y2:%d" % tuple(r.randrange(700) for _ in range(4))
    if r.random() < .2:
        t += b" " * r.randrange(1, 5)
    return t


def bad_timing(r, sep=b","):
    good = rtime(r, sep)
    bad = r.choice([
        b"00:00" + sep + b"1", b"1:2:3:4" + sep + b"5", b"00:00:01", b"00:00:01" + (b"." if sep == b"," else b",") + b"500", b"x:00:01" + sep + b"5",
        b"00:y:01" + sep + b"5", b"00:00:z" + sep + b"5", b"00:00:01" + sep + b"q", b":00:01" + sep + b"5", b"00::01" + sep + b"5",
        b"00:00:" + sep + b"5", b"00:00:01" + sep, b"00:00:01" + sep + b"5" + sep + b"6", b"1 00:00:01" + sep + b"5", b"0x1:00:01" + sep + b"5",
        b"999999999999:00:01" + sep + b"5", b"00:00:1e1" + sep + b"5", b"00:+:01" + sep + b"5", b"00:00:01" + sep + b"5x", b"--:00:00" + sep + b"1", b"%2:%1:00" + sep + b"%%1", b"%1"])
    k = r.randrange(5)
    tail = r.choice([b"", b"", b" X1:1 X2:2 Y1:3 Y2:4", b"  ", b" a b c d "])
    if k == 0:
        return bad + b" --> " + good + tail
    if k == 1:
        return good + b" --> " + bad + tail
    if k == 2:
        return good + b" -->" + good
    if k == 3:
        return r.choice([b"", b" ", good, good + b" --> " + good + b" x", good + b" --> " + good + b" a b c d e", b"hello there my friend", b" " + good + b" --> " + good])
    return bad + b" --> " + bad + tail


def colour_tag(r):
    h = lambda n: bytes(r.choice(b"0123456789abcdefABCDEF") for _ in range(n))
    name = r.choice([b"<font", b"<Font", b"<FONT", b"<fOnT"])
    extra = r.choice([b"", b"", b" size=5", b' face="Arial"', b" size='12'"])
    tail = r.choice([b"", b"", b' face="x"', b" "])
    k = r.randrange(8)
    color = r.choice([b"color", b"color", b"color", b"COLOR", b"Color"])
    if k < 4:
        q = r.choice([b'"', b"'", b"", b'"'])
        return name + extra + b" " + color + b"=" + q + b"#" + h(r.choice([6, 6, 8])) + q + tail + b">"
    if k < 6:
        sp = lambda: b" " * r.choice([0, 0, 1, 2])
        n = [b"%d" % r.choice([0, 1, 17, 128, 254, 255]) for _ in range(4)]
        return name + extra + b" " + color + r.choice([b'="rgba(', b'="rgba(', b'="RGBA(']) + b",".join(sp() + x + sp() for x in n) + b')"' + tail + b">"
    # two colours: the last one counts
    return name + b' color="#' + h(6) + b'" color="#' + h(6) + b'">'


def bad_colour_tag(r):
    return r.choice([b"<font>", b"<font size=3>", b'<font color="red">', b'<font color="#12345">', b'<font color="#1234567">', b'<FONT color=#zz>',
                     b"<font color=rgba(1,2,3,4)>", b'<font color="rgba(1,2,3)">', b'<font color="rgb(1,2,3)">', b'<font color="#123">',
                     b'<font Colour="#112233">', b"<font", b"<font color", b'<font color="rgba(1,x,3,4)">', b"<font color=\"#123456789\">"])


def brace_tag(r):
    return r.choice([b"{\\an%d}" % r.randrange(1, 10), b"{\\i1}", b"{\\i0}", b"{\\i}", b"{\\b1}", b"{\\b0}", b"{\\u1}", b"{\\u0}", b"{\\c&H%06X&}" % r.randrange(1 << 24),
                     b"{\\c}", b"{\\fs%d}" % r.randrange(5, 80), b"{\\pos(%d,%d)}" % (r.randrange(288), r.randrange(288)), b"{\\pos(%d.5,%d.25)}" % (r.randrange(288), r.randrange(288)),
                     b"{\\be1}", b"{\\fad(100,200)}", b"{\\xyz}", b"{\\}", b"{\\fscx120}", b"{\\clip(1,2,3,4)}", b"{\\an0}", b"{\\an10}", b"{\\B1}", b"{\\c&H%08x&}" % r.randrange(1 << 32)])


WORDS = [b"a", b"Hello", b"world", b" ", b"  ", b"\xc3\xa9", b"\xe2\x82\xac", b"\xf0\x9f\x98\x80", b"!", b"<", b">", b"{", b"}", b"\\", b"<x>", b"</x>", b"{y}", b"<b", b"b>",
         b"<<b>>", b"< b>", b"<br>", b"1", b"-->", b"&amp;", b"|", b"\t", b"#", b"<bi>", b"\xe2\x80\xa9", b"\xe2\x80", b"\xef\xbb\xbf", b"</", b"{/", b"[", b"*"]


def markup(r, n, bad=0.0):
    o = b""
    for _ in range(n):
        k = r.random()
        if k < .42:
            o += r.choice(WORDS) if r.random() < .6 else bytes(r.choice(b"abcdefghijklmnop qrstuvwxyzABC") for _ in range(r.randrange(1, 9)))
        elif k < .70:
            t = r.choice(b"biuBIU")
            o += (b"<%s%c>" if r.random() < .7 else b"{%s%c}") % (r.choice([b"", b"/"]), t)
        elif k < .80:
            o += colour_tag(r)
        elif k < .89:
            o += r.choice([b"</font>", b"</font>", b"</FONT>", b"</Font>"])
        elif k < .95:
            o += brace_tag(r)
        elif k < .97:
            o += RTL
        elif k < .98:
            o += LS
        else:
            o += bad_colour_tag(r) if r.random() < bad else r.choice(WORDS)
    # a tag that the row ends in the middle of
    return o + brace_tag(r)[:-1] if r.random() < .06 else o


def plain(r):
    return b" ".join(bytes(r.choice(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLM',.!?") for _ in range(r.randrange(1, 9))) for _ in range(r.randrange(1, 7)))


def document(r, cues=None, bad=0.0, rich=True, long=False):
    """A whole file; bad: chance of a fault somewhere."""
    eol = r.choice([b"\n", b"\n", b"\r\n"])
    lines = []
    if r.random() < .2:
        lines += [b""] * r.randrange(1, 3)
    fault = r.random() < bad
    n = cues if cues is not None else r.randrange(1, 7)
    at = r.randrange(n) if n else -1
    for i in range(n):
        f = r.randrange(3) if fault and i == at else -1
        lines.append(r.choice([b"%d" % (i + 1), b"%d" % (i + 1), b"x", b" ", b"7 ", b"00:00:01,000 --> 00:00:02,000"]))
        if f == 0:
            lines.append(bad_timing(r))
        elif f == 1 and r.random() < .5:
            lines.append(b"")
        else:
            lines.append(timing(r))
        for _ in range(r.choice([0, 1, 1, 2, 2, 3, 5])):
            t = markup(r, r.randrange(1, 10), .3 if f == 2 else 0) if rich and r.random() < .7 else plain(r)
            if f == 2 and r.random() < .5:
                t += bad_colour_tag(r) + plain(r)
            if long and r.random() < .4:
                t = (t + plain(r)) * r.randrange(1, 40)
                if r.random() < .6:
                    k = r.choice([253, 254, 255, 256, 257, 509, 510, 511, 512, 1023, 1024])
                    t = (t * (1 + k // max(1, len(t))))[:k].replace(b"\n", b" ").replace(b"<", b"(").replace(b"{", b"(") or b"x"
            if r.random() < .1:
                t = t + LS + plain(r)
            if r.random() < .05:
                t = BOM + t
            t = t.replace(b"\n", b"").replace(b"\0", b"")
            if t.strip(b"\r") == b"":
                t = b"-"
            lines.append(t + (b"\r" if r.random() < .05 else b""))
        lines += [b""] * r.choice([1, 1, 1, 2, 3])
    if r.random() < .4:
        while lines and lines[-1] == b"":
            lines.pop()
    data = eol.join(lines)
    if r.random() < .6:
        data += eol
    if r.random() < .15:
        data = BOM + data
    return data


ODDLINES = [b"", b" ", b"\t", b" \t ", b"\r", b"1", b"x", b"-->", b" --> ", b"NOTE", b"WEBVTT", b"[Events]", b"[x]", b";", b":", b"//", b"//x", b"$", b"$Bold = True", b",", b",,", b",,,", b"a,b,c",
            b"<i>", b"</i>", b"{", b"}", b"{}", b"<", b">", b"=", b"^I", b"|", LS, BOM, BOM + b"1", b"\xe2\x80\xa9", b"\x0b", b"\x0c", b"\xff", b"\x01", b"\xc2\xa0"]


def perturb(r, data, more=()):
    """Something unusual done to some lines of a file: the machines say what becomes of it."""
    lines = data.split(b"\n")
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        i = r.randrange(len(lines))
        k = r.randrange(10)
        if k < 4:
            lines.insert(i, r.choice(ODDLINES + list(more)))
        elif k == 4:
            lines.insert(i, r.choice(lines))
        elif k == 5 and len(lines) > 1:
            del lines[i]
        elif k == 6:
            lines[i] = r.choice([b" ", b"\t", b"  "]) + lines[i]
        elif k == 7:
            lines[i] = lines[i] + r.choice([b" ", b"\t", b"\r", b" \r", b"\r\r", b" x"])
        elif k == 8:
            lines[i] = lines[i].replace(b" ", r.choice([b"  ", b"\t", b""]), r.choice([1, 1, -1]))
        elif lines[i]:
            j = r.randrange(len(lines[i]))
            lines[i] = lines[i][:j] + r.choice([b" ", b"\t", b",", b":", b".", b"<", b">", b"{", b"}", b"\\", b"^", b"|", b"$", b"=", b"/", b";", b"[", b"]", b"*", b"(", b")", b"&", b"\xe2\x80\xab", LS, BOM]) + lines[i][j + r.randrange(2):]
    return b"\n".join(lines)


def case(data, src="string"):
    return {"op": "read", "fmt": "srt", "src": src, "in": data.hex(), "vu": 5760, "hu": 5760}


def record(c, o):
    return {"in": list(bytes.fromhex(c["in"])), "obs": keep(o)}


def keep(o):
    return {k: v for k, v in o.items() if k in ("err", "subs", "line", "msg", "ctx")}


def agree(x, o):
    e = x["x"]
    if o["err"] != e["err"]:
        return False
    if e["err"] == "":
        return o["subs"] == e["subs"]
    if e["err"] in ("SubripError", "WebVTTError", "WebVTTHeaderError"):
        return all(o[k] == e[k] for k in ("line", "msg", "ctx") if k in e)
    return True


def to_case(src):
    return lambda x: case(bytes(x["in"]), src)


def describe(x, o):
    return difference(bytes(x["in"]), x["x"], core.deep_ints(o))


def describe_rec(c, x, o):
    return difference(bytes.fromhex(c["in"]), x, core.deep_ints(o))


def difference(data, x, o):
    head = "input %s" % core.show(list(data))
    if "subs" in x and "subs" in o:
        for i, (a, b) in enumerate(zip(x["subs"], o["subs"])):
            if a != b:
                ks = [k for k in a if a[k] != b.get(k)]
                return "%s\n   fragment %d: specification %s, code %s (differs in %s)" % (head, i, pretty(a), pretty(b), ",".join(ks))
        if len(x["subs"]) != len(o["subs"]):
            n = min(len(x["subs"]), len(o["subs"]))
            return "%s\n   specification gives %d fragments, code %d; from there: %s / %s" % (
                head, len(x["subs"]), len(o["subs"]), pretty(x["subs"][n:n + 2]), pretty(o["subs"][n:n + 2]))
    return "%s\n   specification: %s\n   code:          %s" % (head, pretty(x), pretty(o))


def pretty(x):
    import json
    if isinstance(x, dict):
        return "{" + ", ".join("%s: %s" % (k, core.show(v) if k in ("t", "msg") else pretty(v)) for k, v in x.items() if k not in ("id", "fds", "kind")) + "}"
    if isinstance(x, list) and x and isinstance(x[0], dict):
        return "[" + ",\n      ".join(pretty(i) for i in x) + "]"
    return json.dumps(x)
