"""Cases for the WebVTT reader."""
import srt
from srt import LS, BOM, plain, timing, bad_timing, markup, keep, agree, describe, describe_rec, record


def case(data, src="string"):
    return dict(srt.case(data, src), fmt="vtt")


def to_case(src):
    return lambda x: case(bytes(x["in"]), src)


def note(r):
    n = [r.choice([b"NOTE", b"NOTE ", b"NOTE\thello", b"NOTE a comment", b"NOTE x --> y", b"NOTE " + timing(r, b".")])]
    for _ in range(r.choice([0, 0, 1, 2])):
        n.append(r.choice([plain(r), timing(r, b"."), b"-->", b"x --> y", b"WEBVTT", b"NOTE"]))
    return n


def junk(r):
    """A block that is not a cue"""
    return r.choice([[b"STYLE", b"::cue { color: red }"], [b"REGION", b"id:fred"], [b"lonely text", b"again"], [b"NOTES"], [b"NOTEBOOK 1"], [b"note x"], [b"x NOTE y"],
                     [b"NOTE:x"], [b"NOT"], [b"1"], [b"--"], [b"- ->"], [b"WEBVTT"]])


def document(r, bad=0.0, rich=True):
    eol = r.choice([b"\n", b"\n", b"\r\n"])
    lines = [r.choice([b"WEBVTT", b"WEBVTT", b"WEBVTT ", b"WEBVTT - title", b"WEBVTT FILE"])]
    fault = r.random() < bad
    if fault and r.random() < .2:
        lines = [r.choice([b"", b"webvtt", b" WEBVTT", b"WEBVT", b"1", b"NOTE", b"WEB VTT"])]
    if r.random() < .3:
        lines.append(r.choice([b"Kind: captions", b"Language: en", b"X-TIMESTAMP-MAP=LOCAL:00:00:00.000"]))
    if r.random() < .9:
        lines += [b""] * r.choice([1, 1, 2])
    n = r.randrange(0, 7)
    at = r.randrange(n) if n else -1
    for i in range(n):
        if r.random() < .25:
            lines += note(r) + [b""] * r.choice([1, 1, 2])
        if r.random() < .15:
            lines += junk(r) + [b""] * r.choice([1, 1, 2])
        if r.random() < .5:
            lines.append(r.choice([b"%d" % (i + 1), b"intro", b"NOTEBOOK", b"id with spaces", b"Nothing", b"NOTE2"]))
        if fault and i == at:
            t = bad_timing(r, b".")
            if b"-->" not in t:
                t += b" -->"
            lines.append(t)
        else:
            lines.append(timing(r, b".").replace(b" -> ", b" --> ").replace(b" x ", b" --> "))
        for _ in range(r.choice([0, 1, 1, 2, 2, 3, 5])):
            t = markup(r, r.randrange(1, 10)) if rich and r.random() < .5 else plain(r)
            if r.random() < .1:
                t = r.choice([b"NOTE this is text", b"x --> y", timing(r, b"."), b"WEBVTT", t + LS + plain(r), LS + t, BOM + t, b" ", b"\t"])
            t = t.replace(b"\n", b"").replace(b"\0", b"")
            if t.strip(b"\r") == b"":
                t = b"-"
            lines.append(t + (b"\r" if r.random() < .05 else b""))
        lines += [b""] * r.choice([1, 1, 1, 2, 3])
    if r.random() < .4:
        while lines and lines[-1] == b"":
            lines.pop()
    data = eol.join(lines)
    if r.random() < .6:
        data += eol
    if r.random() < .15:
        data = BOM + data
    return data
