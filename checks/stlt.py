"""Cases for the text STL reader."""
import core
from srt import agree, describe, describe_rec, plain


def time(r):
    k = r.randrange(4)
    h, m, s, f = r.choice([0, 0, 1, 9, 23]), r.randrange(60), r.randrange(60), r.randrange(25)
    return b"%d:%d:%d:%d" % (h, m, s, f) if k == 0 else b"%02d:%02d:%02d:%02d" % (h, m, s, f)


def bad_time(r):
    return r.choice([b"", b"x", b"00:00:01", b"1:2:3:4:5", b"00:00:01:x", b"a:b:c:d", b"0::0:0", b"0:0:0:", b":::", b"00;00;01;02", b"00:00:01.5:2", b"0: 1:0:0", b"99999999999:0:0:0",
                     b"0x1:0:0:0", b"1e1:0:0:0", b"00:00:01:02 x", b"True"])


def text(r):
    o = b""
    for _ in range(r.randrange(0, 10)):
        k = r.random()
        if k < .5:
            o += r.choice([b"a", b"bc", b" ", b", ", b",", b"hello there", b"\xc3\xa9", b"$", b"//", b"=", b":", b"<i>", b"{b}", b"True", b"\\", b"~"])
        elif k < .75:
            o += r.choice([b"^B", b"^I", b"^U"])
        elif k < .92:
            o += b"|"
        else:
            o += r.choice([b"^b", b"^", b"^^", b"^|", b"^ ", b"||", b"^B^I", b"^1"])
    return o


def document(r, bad=.2):
    eol = r.choice([b"\n", b"\n", b"\r\n"])
    L = []
    sp = lambda: b" " * r.choice([0, 0, 1, 1, 3])
    for _ in range(r.randrange(0, 14)):
        k = r.random()
        if k < .6:
            f, t = time(r), time(r)
            if r.random() < bad:
                if r.random() < .5:
                    f = bad_time(r)
                else:
                    t = bad_time(r)
            L.append(sp() + f + sp() + b"," + sp() + t + sp() + b"," + sp() + text(r) + sp())
        elif k < .8:
            L.append(sp() + r.choice([b"$Bold", b"$Italic", b"$Underlined", b"$FontSize", b"$FontName", b"$Foo", b"$bold", b"$"]) + sp() + b"=" + sp() +
                     r.choice([b"True", b"False", b"true", b"TRUE", b"42", b"8", b"Arial", b"Times New Roman", b"4x", b"", b"-3", b"+7", b"12.5", b"0"]) + sp())
        elif k < .9:
            L.append(sp() + r.choice([b"//", b"// comment", b"//00:00:01:00,00:00:02:00,x", b"// $Bold = True", b"/ 00:00:01:00,00:00:02:00,x"]))
        else:
            L.append(r.choice([b"", b" ", b",", b",,", b",,,", b"a,b,c", b"hello", b"1,2,3", b"$Bold", b"$Bold True", b"$Bold = True = False", b"00:00:01:00,00:00:02:00", b"00:00:01:00,00:00:02:00,",
                               b"00:00:01:00 00:00:02:00 x", b"^B,^I,x", b"|"]))
    data = eol.join(L)
    if r.random() < .6:
        data += eol
    return data


def case(data, src="istream", name=b"a.stl"):
    c = {"op": "read", "fmt": "stlt", "src": src, "in": data.hex()}
    if src == "factory":
        c["name"] = name.hex()
    return c


def to_case(src):
    return lambda x: case(bytes(x["in"]), src)


def record(c, o):
    return {"in": list(bytes.fromhex(c["in"])), "obs": {k: v for k, v in o.items() if k in ("err", "subs")}}
