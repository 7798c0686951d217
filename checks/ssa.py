"""Cases for the SSA/ASS reader."""
import core, srt
from srt import describe, describe_rec, plain, BOM

KEYS = ["Name", "Fontname", "Fontsize", "PrimaryColour", "SecondaryColour", "OutlineColour", "BackColour", "Bold", "Italic", "Underline", "StrikeOut", "ScaleX",
        "ScaleY", "Spacing", "Angle", "BorderStyle", "Outline", "Shadow", "Alignment", "MarginL", "MarginR", "MarginV", "Encoding"]
EKEYS = ["Layer", "Start", "End", "Style", "Name", "MarginL", "MarginR", "MarginV", "Effect"]
NAMES = [b"Default", b"Main", b"Alt", b"default", b"Sign 1"]


def colour(r):
    k = r.randrange(6)
    if k < 2:
        return b"&H%06X" % r.randrange(1 << 24)
    if k == 2:
        return b"&H%08X" % r.randrange(1 << 32)
    if k == 3:
        return b"&H%06x&" % r.randrange(1 << 24)
    return b"%d" % r.randrange(1 << 24)


def style(r, keys, name):
    v = {"Name": name, "Fontname": r.choice([b"Arial", b"Times New Roman", b"Verdana"]), "Fontsize": b"%d" % r.choice([20, 36, 50, 72, r.randrange(1, 100)]),
         "PrimaryColour": colour(r), "SecondaryColour": colour(r), "OutlineColour": colour(r), "BackColour": colour(r),
         "Bold": r.choice([b"-1", b"0", b"1"]), "Italic": r.choice([b"-1", b"0"]), "Underline": r.choice([b"-1", b"0"]), "BorderStyle": r.choice([b"1", b"3"]),
         "Alignment": b"%d" % r.choice([1, 2, 2, 3, 4, 5, 6, 7, 8, 9]), "MarginL": margin(r), "MarginR": margin(r), "MarginV": margin(r)}
    sp = lambda: b" " * r.choice([0, 0, 0, 1, 2])
    return b",".join(sp() + v.get(k, b"0") + sp() for k in keys)


def margin(r):
    return r.choice([b"0", b"0", b"10", b"0000", b"0010", b"%d" % r.randrange(200), b"%04d" % r.randrange(300)])


def time(r):
    return b"%d:%02d:%02d.%02d" % (r.choice([0, 0, 0, 1, 9, 10]), r.randrange(60), r.randrange(60), r.randrange(100))


TAGS = [b"\\i1", b"\\i0", b"\\i", b"\\b1", b"\\b0", b"\\u1", b"\\u0", b"\\c", b"\\fs20", b"\\fs36.5", b"\\fs7", b"\\an7", b"\\an1", b"\\an2", b"\\an3", b"\\an4", b"\\an5", b"\\an6", b"\\an8",
        b"\\an9", b"\\pos(10,20)", b"\\pos(100.5,7.25)", b"\\pos( 3 , 4 )", b"\\c&H0000FF&", b"\\c&H12ab9F&"]
ODD = [b"\\b100", b"\\i10", b"\\u10", b"\\i11", b"\\an71", b"\\c1", b"\\c0",  b"\\fs20x", b"\\fsx20", b"\\b-1", b"\\fscx50", b"\\fscy120", b"\\fsp3", b"\\fs", b"\\fs+2", b"\\clip(1,2,3,4)", b"\\1c&H00FF00&", b"\\3c&H00FF00&", b"\\be1", b"\\bord2", b"\\blur3", b"\\fad(1,2)", b"\\fnArial", b"\\frz30",
       b"\\k20", b"\\an", b"\\an0", b"\\an10", b"\\b700", b"\\i2", b"\\s1", b"\\r", b"\\rAlt", b"\\org(1,2)", b"\\move(1,2,3,4)", b"\\t(\\i1)", b"\\p1", b"\\q2", b"\\a6", b"\\alpha&H80&", b"\\u", b"\\b",
       b"\\xshad3", b"\\I1", b"\\i1 ", b"\\ i1", b"\\c ", b"\\po(1,2)"]


def text(r, n=None):
    o = b""
    for _ in range(n if n is not None else r.randrange(0, 9)):
        k = r.random()
        if k < .35:
            o += plain(r) if r.random() < .5 else r.choice([b"a", b" ", b"b c", b",", b", ", b"\xc3\xa9", b"}", b"!", b"n", b"N", b"<i>", b";", b":", b"[x]"])
        elif k < .5:
            o += r.choice([b"\\N", b"\\n", b"\\N", b"\\h", b"\\\\", b"\\{", b"\\x"])
        elif k < .95:
            o += b"{" + r.choice([b"", b"", b"", b"note"]) + b"".join(r.choice(TAGS if r.random() < .75 else ODD) for _ in range(r.choice([1, 1, 1, 2, 3]))) + b"}"
        else:
            o += r.choice([b"{}", b"{comment}", b"{=1}", b"{*\\i1}", b"{\\i1", b"{ \\b1}"])
    return o


def document(r, bad=0.0, events=None):
    eol = r.choice([b"\n", b"\n", b"\r\n"])
    sp = lambda: b" " * r.choice([0, 1, 1, 1, 2])
    noise = lambda: r.choice([[], [], [], [b""], [b"; comment"], [b";"], [b"!x: comment"], [b"   "]])
    rx, ry = r.choice([(288, 288), (1920, 1080), (640, 480), (384, 288), (100, 50), (1, 1), (7, 2)])
    L = []
    if r.random() < .9:
        L.append(b"[Script Info]")
        L += noise()
        for x in r.sample([b"Title: x", b"ScriptType: v4.00+", b"Collisions: Normal", b"WrapStyle: 0", b"PlayDepth: 0", b"Style: foo", b"Dialogue: a,b", b"Format: x"], r.randrange(0, 4)):
            L.append(x)
        if (rx, ry) != (288, 288) or r.random() < .3:
            res = [b"PlayResX:" + sp() + b"%d" % rx, b"PlayResY:" + sp() + b"%d" % ry]
            r.shuffle(res)
            # (those that say nothing have no effect)
            dud = lambda: [r.choice([b"PlayResX:", b"PlayResY:"]) + r.choice([b"0", b"-1", b" -288", b"", b" x", b" 00"])] if r.random() < .2 else []
            for x in res:
                L += noise() + dud() + [x] + dud()
    else:
        rx = ry = 288
    junk = lambda: r.choice([[], [], [b"[Fonts]", b"fontname: x.ttf", b"!!(AAA:", b"no colon here", b"Style: Default,x", b"Dialogue: 0,1"], [b"[Aegisub Project Garbage]", b"Last Style Storage: Default", b"junk"]])
    L += junk()
    names = []
    for _ in range(r.choice([0, 1, 1, 1, 2]) if r.random() < .95 else 0):
        L += noise() + [r.choice([b"[V4+ Styles]", b"[V4+ Styles]", b"[V4 Styles]"])]
        keys = list(KEYS)
        if r.random() < .5:
            r.shuffle(keys)
        if r.random() < .5:
            keys = [k for k in keys if k == "Name" or r.random() < .7]
        L.append(b"Format:" + sp() + r.choice([b", ", b","]).join(k.encode() for k in keys))
        for _ in range(r.randrange(0, 4)):
            n = r.choice(NAMES)
            names.append(n)
            L += noise() + [b"Style:" + sp() + style(r, keys, n)]
            if r.random() < .1:
                L.append(b"Unknown: " + style(r, keys, n))
    L += junk()
    at = r.randrange(6)
    for _ in range(r.choice([1, 1, 1, 2])):
        L += noise() + [b"[Events]"]
        keys = list(EKEYS)
        if r.random() < .5:
            r.shuffle(keys)
        if r.random() < .4:
            keys = [k for k in keys if k in ("Start", "End") or r.random() < .7]
        if r.random() < .1:
            # next to nothing
            keys = r.sample(keys, r.randrange(0, 3))
        keys.insert(len(keys) if r.random() < .9 else r.randrange(len(keys) + 1), "Text")
        L.append(b"Format:" + sp() + r.choice([b", ", b","]).join(k.encode() for k in keys))
        for i in range(events if events is not None else r.randrange(0, 5)):
            v = {"Layer": b"0", "Start": time(r), "End": time(r), "Style": r.choice([b"", b"*", b"**"]) * (r.random() < .4) + r.choice(names + [b"Default", b"Missing", b""]),
                 "Name": r.choice([b"", b"NTP"]), "MarginL": margin(r), "MarginR": margin(r), "MarginV": r.choice([margin(r), b"12.5"]), "Effect": r.choice([b"", b"scroll"]), "Text": text(r)}
            line = b",".join(b" " * (r.random() < .15) + v[k] + b" " * (r.random() < .1) for k in keys)
            L += noise() + [r.choice([b"Dialogue:", b"Dialogue:", b"Dialogue:", b"Dialogue:", b"Comment:", b"Picture:", b"dialogue:"]) + sp() + line]
            if r.random() < bad and i == at % 4:
                L.append(r.choice([b"Dialogue: 1,2", b"no colon", b"Dialogue: ", L[-1].replace(b":", b"", 3), b"Format: Start,Text" + eol + b"Dialogue: 1:2:3,x"]))
    L += junk()
    data = eol.join(L)
    if r.random() < .6:
        data += eol
    if r.random() < .15:
        data = BOM + data
    return data, rx, ry


def case(data, rx, ry, src="string"):
    return {"op": "read", "fmt": "ssa", "src": src, "in": data.hex(), "vu": 20 * ry, "hu": 20 * rx}


def record(c, o):
    return {"in": list(bytes.fromhex(c["in"])), "obs": {k: v for k, v in o.items() if k in ("err", "subs")}}


def to_case(src, rx, ry):
    return lambda x: case(bytes(x["in"]), rx, ry, src)


def agree(x, o):
    return o["err"] == x["x"]["err"] and (o["err"] != "" or o["subs"] == x["x"]["subs"])
